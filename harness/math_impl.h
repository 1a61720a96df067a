#pragma once
#include "mathi.h"
#include "quadiron.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_naive.h"
#include "fft_single.h"
#include "vec_poly.h"

namespace h {
using namespace quadiron;

// a field, or one moved from another that is gone
template <typename T, typename C, typename P>
C* make_field(std::unique_ptr<gf::Field<T>>& g, P par, bool moved)
{
    if (moved) {
        std::unique_ptr<C> from = gf::alloc<C, C>(par);
        g = std::make_unique<C>(std::move(*from));
    } else
        g = gf::alloc<gf::Field<T>, C>(par);
    return static_cast<C*>(g.get());
}
template <typename T, bool big>
struct Makers {
    static gf::Field<T>*
    bin(std::unique_ptr<gf::Field<T>>& g, unsigned n, bool moved)
    {
        return make_field<T, gf::BinExtension<T>>(g, T(n), moved);
    }
    static gf::NF4<T>*
    nf4(std::unique_ptr<gf::Field<T>>& g, unsigned n, bool moved)
    {
        return make_field<T, gf::NF4<T>>(g, n, moved);
    }
};
template <typename T>
struct Makers<T, false> {
    static gf::Field<T>* bin(std::unique_ptr<gf::Field<T>>&, unsigned, bool)
    {
        throw std::runtime_error("script: field");
    }
    static gf::NF4<T>* nf4(std::unique_ptr<gf::Field<T>>&, unsigned, bool)
    {
        throw std::runtime_error("script: field");
    }
};
template <typename T, bool can>
struct Cached { // not for 128-bit elements: no operator>>
    static void
    run(const gf::Field<T>& g, vec::Vector<T>& W, int n, T w)
    {
        g.compute_omegas_cached(W, n, w);
    }
};
template <typename T>
struct Cached<T, false> {
    static void run(const gf::Field<T>&, vec::Vector<T>&, int, T)
    {
        throw std::runtime_error("script: cached");
    }
};

template <typename T, bool big>
struct Fnt {
    typedef gf::NF4<T> NF4;
    static std::unique_ptr<fft::FourierTransform<T>>
    add(const gf::Field<T>& g, T m, std::shared_ptr<vec::Vector<T>> b)
    {
        return std::make_unique<fft::Additive<T>>(g, m, b);
    }
    static void points(fft::FourierTransform<T>* f, vec::Vector<T>& B)
    {
        static_cast<fft::Additive<T>*>(f)->compute_B(B);
    }
    static void taylor(
        fft::FourierTransform<T>* f,
        vec::Vector<T>& o,
        vec::Vector<T>& i,
        int n,
        int t,
        bool inv)
    {
        auto a = static_cast<fft::Additive<T>*>(f);
        if (inv)
            a->inv_taylor_expand(o, i, t);
        else
            a->taylor_expand(o, i, n, t);
    }
};
template <typename T>
struct Fnt<T, false> {
    static std::unique_ptr<fft::FourierTransform<T>>
    add(const gf::Field<T>&, T, std::shared_ptr<vec::Vector<T>>)
    {
        throw std::runtime_error("script: additive");
    }
    static void points(fft::FourierTransform<T>*, vec::Vector<T>&) {}
    static void taylor(
        fft::FourierTransform<T>*,
        vec::Vector<T>&,
        vec::Vector<T>&,
        int,
        int,
        bool)
    {
    }
};

template <typename T>
struct MathT : MathI {
    std::string F;
    Cls cl;
    std::unique_ptr<gf::Field<T>> own;
    gf::Field<T>* g;
    gf::NF4<T>* l = nullptr;
    gf::Prime<T>* pr = nullptr;
    struct Fft {
        std::string kind;
        std::unique_ptr<fft::FourierTransform<T>> f;
        int n;
        size_t pkt;
    };
    std::map<std::string, Fft> ffts;
    std::map<std::string, std::unique_ptr<vec::Poly<T>>> polys;
    static const bool Big = sizeof(T) >= 4;

    MathT(const std::string& f, char kind, u128 par) : F(f)
    {
        const bool moved = isupper(kind);
        kind = char(tolower(kind));
        if (kind == 'p') {
            g = pr = make_field<T, gf::Prime<T>>(own, T(par), moved);
            cl = {par <= 65537 ? 'p' : par == 4294991873u ? 'q' : 'n', par, 0};
        } else if (kind == 'b') {
            g = Makers<T, Big>::bin(own, unsigned(par), moved);
            cl = {par <= 16 ? 'b' : 'w', 0, unsigned(par)};
        } else {
            g = l = Makers<T, Big>::nf4(own, unsigned(par), moved);
            cl = {'l', 65537, unsigned(par)};
        }
        emit(J("field")
                 .str("f", F)
                 .str("k", std::string(1, kind))
                 .raw("par", nat(par))
                 .raw("h", kind == 'l' ? cl.el(g->card_minus_one())
                                       : nat(g->card_minus_one()))
                 .raw("p", nat(g->get_p()))
                 .num("n", g->get_n())
                 .raw("root", kind == 'l' ? "[]" : cl.el(g->get_root()))
                 .num("roots", g->get_root() == g->get_primitive_root())
                 .raw("unit", cl.el(g->get_unit())));
    }
    std::string el(T v) const { return cl.el(v); }
    template <typename C>
    std::string els(const C& c) const
    {
        std::string o = "[";
        bool f = true;
        for (T v : c) {
            o += (f ? "" : ",") + el(v);
            f = false;
        }
        return o + "]";
    }
    std::string vels(vec::Vector<T>& v) const
    {
        std::string o = "[";
        for (int i = 0; i < v.get_n(); i++)
            o += (i ? "," : "") + el(v.get(i));
        return o + "]";
    }
    // greatest element (lane-wise for NF4)
    u128 top() const
    {
        if (cl.c == 'b' || cl.c == 'w')
            return cl.n == 128 ? ~u128(0) : (u128(1) << cl.n) - 1;
        return cl.p - 1;
    }
    u128 one_rand(Rng& r) const
    {
        u128 t = top();
        switch (r.below(12)) {
        case 0:
            return 0;
        case 1:
            return 1;
        case 2:
            return t;
        case 3:
            return t >= 2 ? t - 1 - r.below(2) : t;
        case 4:
            return t >= 2 ? 2 : 1;
        case 5: // one bit, or one less
            return std::min<u128>(
                t, (u128(1) << r.below(cl.n > 16 ? cl.n : 16)) - r.below(2));
        case 6: // near the half
            return t / 2 + r.below(2);
        }
        u128 v = (u128(r.next()) << 64) | r.next();
        return t == ~u128(0) ? v : v % (t + 1);
    }
    T rnd(Rng& r) const
    {
        if (cl.c != 'l')
            return T(one_rand(r));
        u128 v = 0;
        for (unsigned i = 0; i < cl.n; i++)
            v |= one_rand(r) << (32 * i);
        return T(v);
    }
    bool nz(T v) const
    {
        if (cl.c != 'l')
            return v != 0;
        u128 u = v;
        for (unsigned i = 0; i < cl.n; i++)
            if (((u >> (32 * i)) & 0xffffffffu) == 0)
                return false;
        return true;
    }
    T rndnz(Rng& r) const
    {
        T v;
        do
            v = rnd(r);
        while (!nz(v));
        return v;
    }
    std::string expo(T v) const // an exponent or a logarithm
    {
        return cl.c == 'l' ? cl.el(v) : nat(v);
    }
    static bool unary(const std::string& op)
    {
        return op == "neg" || op == "inv" || op == "inv_bezout"
               || op == "inv_exp" || op == "replicate" || op == "qr"
               || op == "invn" || op == "check";
    }
    bool ok(const std::string& op, T a, T b) const
    {
        if (op == "div")
            return nz(b);
        if (op == "inv" || op == "inv_bezout" || op == "inv_exp")
            return nz(a);
        if (op == "log")
            return nz(a) && nz(b);
        return true;
    }
    std::string op2(const std::string& op, T a, T b) const
    {
        if (op == "add")
            return el(g->add(a, b));
        if (op == "sub")
            return el(g->sub(a, b));
        if (op == "mul")
            return el(g->mul(a, b));
        if (op == "div")
            return el(g->div(a, b));
        if (op == "neg")
            return el(g->neg(a));
        if (op == "inv")
            return el(g->inv(a));
        if (op == "exp")
            return el(g->exp(a, b));
        if (op == "exp_quick")
            return el(g->exp_quick(a, b));
        if (op == "exp_naive")
            return el(g->exp_naive(a, b));
        if (op == "inv_bezout")
            return el(g->inv_bezout(a));
        if (op == "inv_exp")
            return el(pr->inv_exp(a));
        if (op == "replicate")
            return el(g->replicate(a));
        if (op == "qr")
            return std::to_string(int(g->is_quadratic_residue(a)));
        if (op == "invn")
            return el(g->get_inv_n_mod_p(int(a)));
        if (op == "check")
            return std::to_string(int(g->check(a)));
        if (op == "log" || op == "log_naive") {
            try {
                return expo(op == "log" ? g->log(a, b) : g->log_naive(a, b));
            } catch (NoSolution const&) {
                return "[-1]";
            }
        }
        throw std::runtime_error("script: op " + op);
    }
    void ops(const std::string& op, std::vector<T>& a, std::vector<T>& b)
    {
        std::string as, bs, rs;
        const bool ex = op.compare(0, 3, "exp") == 0;
        for (size_t i = 0; i < a.size(); i++) {
            const char* s = i ? "," : "";
            if (op == "replicate" && cl.c == 'l')
                a[i] = T(a[i] & 0xffffffffu);
            if (op == "invn") {
                a[i] = T(
                    1
                    + u128(a[i])
                          % (cl.p && cl.p < 65536 ? cl.p - 1 : 65535));
                if (cl.c == 'b' || cl.c == 'w') // not a multiple of 2
                    a[i] = T(a[i] | 1);
            }
            if (op == "invn" || (op == "replicate" && cl.c == 'l'))
                as += s + std::to_string(unsigned(a[i]));
            else if (op == "check")
                as += s + nat(a[i]);
            else
                as += s + el(a[i]);
            if (!unary(op))
                bs += s + (ex ? expo(b[i]) : el(b[i]));
            rs += s + op2(op, a[i], b[i]);
        }
        emit(J("ops")
                 .str("f", F)
                 .str("op", op)
                 .raw("a", "[" + as + "]")
                 .raw("b", "[" + bs + "]")
                 .raw("r", "[" + rs + "]"));
    }
    // ---- orders and lengths: the arguments are integers
    void ords(const std::string& op, const std::vector<u128>& v)
    {
        std::vector<std::string> as, rs;
        for (u128 x : v) {
            as.push_back(op == "order" || op == "isprim" || op == "prim"
                             ? cl.el(x)
                             : nat(x));
            if (op == "order")
                rs.push_back(nat(g->get_order(T(x))));
            else if (op == "prim")
                rs.push_back(std::to_string(g->check_primitive_root(T(x))));
            else if (op == "isprim")
                rs.push_back(std::to_string(g->is_primitive_root(T(x))));
            else if (op == "nth")
                rs.push_back(cl.el(g->get_nth_root(T(x))));
            else if (op == "len")
                rs.push_back(nat(g->get_code_len(T(x))));
            else if (op == "high")
                rs.push_back(nat(g->get_code_len_high_compo(T(x))));
            else
                throw std::runtime_error("script: ord");
        }
        emit(J("ords").str("f", F).str("op", op).raws("a", as).raws("r", rs));
    }
    // ---- whole buffers, in memory bounded by inaccessible pages
    struct Arr {
        GBuf b;
        size_t n;
        T* p() { return reinterpret_cast<T*>(b.p); }
        std::vector<T> v() { return std::vector<T>(p(), p() + n); }
    };
    Arr arr(size_t n, Rng& r)
    {
        Arr a;
        a.n = n;
        a.b.alloc(n * sizeof(T), 2);
        for (size_t i = 0; i < n; i++)
            a.p()[i] = rnd(r);
        return a;
    }
    void buf(const std::string& op, size_t n, uint64_t seed, bool inpl)
    {
        Rng r(seed);
        Arr x = arr(n, r), y = arr(n, r), z = arr(n, r);
        std::vector<T> x0 = x.v(), y0 = y.v(), z0 = z.v();
        T c = rndnz(r);
        if (r.below(3) == 0)
            c = T(u128(2) + r.below(5));
        if (op == "mul_coef" && r.below(3) == 0 && cl.c != 'l')
            c = T(r.below(4) ? top() : r.below(2));
        std::vector<T> res;
        bool in = true;
        if (op == "mul_coef") {
            if (inpl) {
                g->mul_coef_to_buf(c, x.p(), x.p(), n);
                res = x.v();
            } else {
                g->mul_coef_to_buf(c, x.p(), y.p(), n);
                res = y.v();
                in = x.v() == x0;
            }
        } else if (op == "add") {
            g->add_two_bufs(x.p(), y.p(), n);
            res = y.v();
            in = x.v() == x0;
        } else if (op == "sub") {
            T* d = inpl ? y.p() : z.p();
            g->sub_two_bufs(x.p(), y.p(), d, n);
            res = inpl ? y.v() : z.v();
            in = x.v() == x0 && (inpl || y.v() == y0);
        } else if (op == "neg") {
            g->neg(n, x.p());
            res = x.v();
        } else if (op == "had") {
            g->hadamard_mul(int(n), x.p(), y.p());
            res = x.v();
            in = y.v() == y0;
        } else
            throw std::runtime_error("script: buf");
        emit(J("buf")
                 .str("f", F)
                 .str("op", op)
                 .raw("c", el(c))
                 .raw("x", els(x0))
                 .raw("y", els(y0))
                 .raw("r", els(res))
                 .num("in", in)
                 .num("edges",
                      x.b.intact() && y.b.intact() && z.b.intact()));
    }
    void fillb(vec::Buffers<T>& b, Rng& r)
    {
        for (int i = 0; i < b.get_n(); i++)
            for (size_t j = 0; j < b.get_size(); j++)
                b.get(i)[j] = rnd(r);
    }
    std::string bels(vec::Buffers<T>& b)
    {
        std::string o = "[";
        for (int i = 0; i < b.get_n(); i++)
            o += (i ? "," : "")
                 + els(std::vector<T>(b.get(i), b.get(i) + b.get_size()));
        return o + "]";
    }
    void bufs(const std::string& op, int n, size_t len, uint64_t seed)
    {
        Rng r(seed);
        vec::Buffers<T> x(n, len), y(n, len), z(n, len);
        fillb(x, r);
        fillb(y, r);
        fillb(z, r);
        vec::Vector<T> u(*g, n);
        for (int i = 0; i < n; i++)
            u.set(i, rnd(r));
        std::string xs = bels(x), ys = bels(y), us = vels(u), rs;
        bool in = true;
        if (op == "mulvec") {
            g->mul_vec_to_vecp(u, x, y);
            rs = bels(y);
            in = bels(x) == xs && vels(u) == us;
        } else if (op == "addv") {
            g->add_vecp_to_vecp(x, y);
            rs = bels(y);
            in = bels(x) == xs;
        } else if (op == "subv") {
            g->sub_vecp_to_vecp(x, y, z);
            rs = bels(z);
            in = bels(x) == xs && bels(y) == ys;
        } else if (op == "negv") {
            g->neg(x);
            rs = bels(x);
        } else
            throw std::runtime_error("script: bufs");
        emit(J("bufs")
                 .str("f", F)
                 .str("op", op)
                 .raw("u", us)
                 .raw("x", xs)
                 .raw("y", ys)
                 .raw("r", rs)
                 .num("in", in));
    }
    // ---- NF4 packing
    void packing(int count, uint64_t seed)
    {
        Rng r(seed);
        std::string a, fl, p0, p1, ua, uv, uf, uv2, uf2;
        for (int i = 0; i < count; i++) {
            u128 w = 0; // lanes of 16 bits
            for (unsigned k = 0; k < cl.n; k++) {
                u128 v = r.below(3) ? r.next() & 0xffff
                                    : (r.below(2) ? 0xffff : 0);
                w |= v << (16 * k);
            }
            uint32_t f = uint32_t(r.below(1u << cl.n));
            T e = rnd(r);
            const char* s = i ? "," : "";
            a += s + limbs(w, cl.n);
            fl += s + std::to_string(f);
            p0 += s + el(l->pack(T(w)));
            p1 += s + el(l->pack(T(w), f));
            ua += s + el(e);
            auto x = l->unpack(e);
            GroupedValues<T> y;
            l->unpack(e, y);
            uv += s + limbs(x.values, cl.n);
            uf += s + std::to_string(x.flag);
            uv2 += s + limbs(y.values, cl.n);
            uf2 += s + std::to_string(y.flag);
        }
        emit(J("pack")
                 .str("f", F)
                 .raw("a", "[" + a + "]")
                 .raw("fl", "[" + fl + "]")
                 .raw("p0", "[" + p0 + "]")
                 .raw("p1", "[" + p1 + "]")
                 .raw("ua", "[" + ua + "]")
                 .raw("uv", "[" + uv + "]")
                 .raw("uf", "[" + uf + "]")
                 .raw("uv2", "[" + uv2 + "]")
                 .raw("uf2", "[" + uf2 + "]"));
    }
    // ---- transforms
    T root(int n, int e) const
    {
        T w = g->get_nth_root(T(n)), x = g->get_unit();
        for (int i = 0; i < e; i++)
            x = g->mul(x, w);
        return x;
    }
    void fftnew(const Args& a)
    {
        // fftnew id kind n par pkt
        Fft x;
        const std::string& k = a[2];
        int n = int(I(a[3])), par = int(I(a[4]));
        x.kind = k;
        x.n = n;
        x.pkt = size_t(I(a[5]));
        int throws = 0;
        std::vector<T> betas;
        try {
            if (k == "radix2")
                x.f = std::make_unique<fft::Radix2<T>>(*g, n, par, x.pkt);
            else if (k == "ct")
                x.f = std::make_unique<fft::CooleyTukey<T>>(*g, T(n));
            else if (k == "gt")
                x.f = std::make_unique<fft::GoodThomas<T>>(*g, T(n));
            else if (k == "large") {
                int lg = 0;
                while ((1 << lg) < n)
                    lg++;
                x.f = std::make_unique<fft::Large<T>>(*g, lg, root(n, par));
            } else if (k == "naive")
                x.f =
                    std::make_unique<fft::Naive<T>>(*g, n, root(n, par), x.pkt);
            else if (k == "size2")
                x.f = std::make_unique<fft::Size2<T>>(*g);
            else if (k == "single")
                x.f = std::make_unique<fft::Single<T>>(*g, n);
            else if (k == "add") {
                int m = 0;
                while ((1 << m) < n)
                    m++;
                std::shared_ptr<vec::Vector<T>> b;
                if (par) { // a given basis
                    b = std::make_shared<vec::Vector<T>>(*g, m);
                    for (int i = 0; i < m; i++) {
                        betas.push_back(T(parse_u128(a[6 + i])));
                        b->set(i, betas.back());
                    }
                }
                x.f = Fnt<T, Big>::add(*g, T(m), b);
            } else
                throw std::runtime_error("script: fft kind");
        } catch (InvalidArgument const&) {
            throws = 1;
        }
        J j("fftnew");
        j.str("f", F).str("id", a[1]).str("kind", k).num("n", n).num(
            "par", k == "add" ? 0 : par);
        j.num("pkt", (long long)x.pkt).num("throws", throws);
        j.num("gn", throws ? n : x.f->get_n());
        j.num("gf", throws ? 1 : &x.f->get_gf() == g);
        j.raw("betas", els(betas));
        if (k == "add") {
            vec::Vector<T> B(*g, n);
            Fnt<T, Big>::points(x.f.get(), B);
            j.raw("pts", vels(B));
        } else
            j.raw("pts", "[]");
        emit(j);
        ffts[a[1]] = std::move(x);
    }
    void fill(std::vector<T>& v, const std::string& mode, Rng& r)
    {
        for (size_t i = 0; i < v.size(); i++) {
            if (mode == "rand")
                v[i] = rnd(r);
            else if (mode == "first") // the domain of Single's transform
                v[i] = i ? T(0) : rnd(r);
            else if (mode == "const")
                v[i] = i ? v[0] : rnd(r);
            else if (mode == "sparse")
                v[i] = r.below(4) ? T(0) : rnd(r);
            else if (mode == "top")
                v[i] = cl.c == 'l' ? g->card_minus_one() : T(top());
            else if (mode == "unit")
                v[i] = i == v.size() - 1 ? g->get_unit() : T(0);
            else
                throw std::runtime_error("script: fill");
        }
    }
    void fft(const Args& a)
    {
        // fft id op inlen seed mode
        Fft& x = ffts.at(a[1]);
        const std::string& op = a[2];
        int il = int(I(a[3]));
        Rng r(uint64_t(I(a[4])));
        std::string in = "[", out = "[";
        int inok = 1;
        if (x.pkt == 0) {
            std::vector<T> v(il);
            fill(v, a[5], r);
            vec::Vector<T> i(*g, il), o(*g, x.n);
            for (int k = 0; k < il; k++)
                i.set(k, v[k]);
            for (int k = 0; k < x.n; k++)
                o.set(k, rnd(r));
            if (op == "fft")
                x.f->fft(o, i);
            else if (op == "ifft")
                x.f->ifft(o, i);
            else
                x.f->fft_inv(o, i);
            in += els(v);
            out += vels(o);
            inok = vels(i) == els(v);
        } else {
            vec::Buffers<T> i(il, x.pkt), o(x.n, x.pkt);
            for (size_t c = 0; c < x.pkt; c++) {
                std::vector<T> v(il);
                fill(v, a[5], r);
                for (int k = 0; k < il; k++)
                    i.get(k)[c] = v[k];
                in += (c ? "," : "") + els(v);
            }
            fillb(o, r);
            // the order of the caller's buffers
            std::vector<T*> om = o.get_mem(), im = i.get_mem();
            std::string before = bels(i);
            if (op == "fft")
                x.f->fft(o, i);
            else if (op == "ifft")
                x.f->ifft(o, i);
            else
                x.f->fft_inv(o, i);
            for (size_t c = 0; c < x.pkt; c++) {
                std::vector<T> v(x.n);
                for (int k = 0; k < x.n; k++)
                    v[k] = om[k][c];
                out += (c ? "," : "") + els(v);
            }
            inok = bels(i) == before && im == i.get_mem()
                   && om == o.get_mem();
        }
        emit(J("fft")
                 .str("f", F)
                 .str("id", a[1])
                 .str("op", op)
                 .num("inok", inok)
                 .raw("in", in + "]")
                 .raw("out", out + "]"));
    }
    void taylor(const Args& a)
    {
        // taylor id n t seed inv
        Fft& x = ffts.at(a[1]);
        int n = int(I(a[2])), t = int(I(a[3]));
        Rng r(uint64_t(I(a[4])));
        bool inv = a[5] == "1";
        // the number of coefficients is a multiple of t for the inverse
        int il = inv ? (n + t - 1) / t * t : n;
        std::vector<T> v(il);
        fill(v, "rand", r);
        vec::Vector<T> i(*g, il), o(*g, n);
        for (int k = 0; k < il; k++)
            i.set(k, v[k]);
        for (int k = 0; k < n; k++)
            o.set(k, rnd(r));
        Fnt<T, Big>::taylor(x.f.get(), o, i, n, t, inv);
        emit(J("taylor")
                 .str("f", F)
                 .num("n", n)
                 .num("t", t)
                 .num("inv", inv)
                 .raw("in", els(v))
                 .raw("out", vels(o))
                 .num("inok", vels(i) == els(v)));
    }
    // ---- matrices
    std::string rows(vec::Matrix<T>& m)
    {
        std::string o = "[";
        for (int i = 0; i < m.get_n_rows(); i++) {
            o += i ? ",[" : "[";
            for (int j = 0; j < m.get_n_cols(); j++)
                o += (j ? "," : "") + el(m.get(i, j));
            o += "]";
        }
        return o + "]";
    }
    void mat(const Args& a)
    {
        // mat op rows cols seed mode
        const std::string& op = a[1];
        int n = int(I(a[2])), m = int(I(a[3]));
        Rng r(uint64_t(I(a[4])));
        const std::string mode = a.size() > 5 ? a[5] : "rand";
        vec::Matrix<T> M(*g, n, m);
        if (mode == "zero")
            M.zero_fill();
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) {
                T v = rnd(r);
                if (mode == "sparse" && r.below(3))
                    v = 0;
                if (mode == "small")
                    v = T(r.below(2));
                if (mode == "zero")
                    continue;
                if (mode == "perm") // a product of exchanges, scaled
                    v = 0;
                M.set(i, j, v);
            }
        if (mode == "perm") {
            std::vector<int> p(n);
            for (int i = 0; i < n; i++)
                p[i] = i;
            for (int i = n - 1; i > 0; i--)
                std::swap(p[i], p[r.below(i + 1)]);
            for (int i = 0; i < n; i++)
                M.set(i, p[i], rndnz(r));
        }
        if (mode == "sing" && n > 1) // last row: sum of two others
            for (int j = 0; j < m; j++)
                M.set(n - 1, j, g->add(M.get(0, j), M.get((n - 1) / 2, j)));
        J j("mat");
        j.str("f", F).str("op", op).num("rows", n).num("cols", m);
        j.raw("m", rows(M));
        if (op == "mul") {
            vec::Vector<T> v(*g, m), o(*g, n);
            for (int i = 0; i < m; i++)
                v.set(i, rnd(r));
            for (int i = 0; i < n; i++)
                o.set(i, rnd(r));
            std::string vs = vels(v), ms = rows(M);
            M.mul(&o, &v);
            j.raw("v", vs).raw("r", vels(o)).num("throws", 0);
            j.num("in", vs == vels(v) && ms == rows(M));
        } else {
            // the operation leaves alone the copies made before
            int throws = 0;
            vec::Matrix<T> C(M), K(*g, 1, 1);
            K = M;
            const std::string before = rows(M);
            try {
                if (op == "inv")
                    M.inv();
                else if (op == "vander")
                    M.vandermonde();
                else if (op == "vander_ec")
                    M.vandermonde_suitable_for_ec();
                else if (op == "cauchy")
                    M.cauchy();
                else
                    throw std::runtime_error("script: mat");
            } catch (DomainError const&) {
                throws = 1;
            }
            j.raw("v", "[]").raw("r", rows(M)).num("throws", throws).num(
                "in", before == rows(C) && before == rows(K));
        }
        emit(j);
    }
    // ---- polynomials
    void poly(const Args& a)
    {
        // poly id op args
        const std::string &id = a[1], &op = a[2];
        J j("poly");
        const std::string shown = op == "assign" ? "copy" : op;
        j.str("f", F).str("id", id).str("op", shown);
        std::string arg = "[]", res = "[]";
        int num = 0;
        if (op == "new") {
            num = int(I(a[3]));
            polys[id] = std::make_unique<vec::Poly<T>>(*g, num);
            polys[id]->zero_fill();
        } else if (op == "copy") { // poly id copy from
            polys[id] = std::make_unique<vec::Poly<T>>(*polys.at(a[3]));
        } else if (op == "assign") { // poly id assign from
            *polys.at(id) = *polys.at(a[3]);
        }
        vec::Poly<T>& p = *polys.at(id);
        if (op == "set") { // poly id set i seed
            num = int(I(a[3]));
            Rng r(uint64_t(I(a[4])));
            T v = a.size() > 5 ? rndnz(r) : rnd(r);
            arg = el(v);
            p.set(num, v);
        } else if (op == "deg") {
            num = int(I(a[3]));
            p.set_deg(num);
        } else if (op == "der")
            p.derivative();
        else if (op == "der_nf4")
            p.derivative_nf4();
        else if (op == "eval") {
            Rng r(uint64_t(I(a[3])));
            T v = rnd(r);
            arg = el(v);
            res = el(p.eval(v));
        } else if (op == "mul") { // poly id mul other deg
            num = int(I(a[4]));
            p.mul(polys.at(a[3]).get(), num);
        } else if (op == "mulx") {
            Rng r(uint64_t(I(a[3])));
            T v = rnd(r);
            arg = el(v);
            p.mul_to_x_plus_coef(v);
        } else if (op == "neg")
            p.neg();
        else if (op == "zero")
            p.zero_fill();
        else if (op != "new" && shown != "copy")
            throw std::runtime_error("script: poly");
        std::string c = "[";
        for (int i = 0; i < p.get_n(); i++)
            c += (i ? "," : "") + el(p.get(i));
        j.str("o", shown == "copy" || op == "mul" ? a[3] : id);
        j.num("num", num).raw("arg", arg).raw("res", res);
        j.num("n", p.get_n()).num("deg", p.get_deg()).raw("c", c + "]");
        if (op == "mul") { // the other operand is unchanged
            vec::Poly<T>& q = *polys.at(a[3]);
            c = "[";
            for (int i = 0; i < q.get_n(); i++)
                c += (i ? "," : "") + el(q.get(i));
            j.raw("oc", c + "]");
        }
        emit(j);
    }
    void omegas(int n, int e, bool cached)
    {
        T w = root(n, e);
        vec::Vector<T> W(*g, n);
        if (cached) { // in an empty directory; then from the file
            char d[] = "wXXXXXX";
            if (!mkdtemp(d) || chdir(d))
                throw std::runtime_error("script: mkdtemp");
            vec::Vector<T> W0(*g, n);
            Cached<T, (sizeof(T) < 16)>::run(*g, W0, n, w);
            Cached<T, (sizeof(T) < 16)>::run(*g, W, n, w);
            for (int i = 0; i < n; i++)
                if (W0.get(i) != W.get(i))
                    W.set(i, W0.get(i) + 1);
            if (chdir(".."))
                throw std::runtime_error("script: chdir");
        } else
            g->compute_omegas(W, n, w);
        emit(J("omegas")
                 .str("f", F)
                 .num("n", n)
                 .num("we", e)
                 .raw("r", vels(W)));
    }

    void run(const Args& a) override // the field's name was removed
    {
        const std::string& c = a[0];
        if (c == "op") { // op name count seed
            Rng r(uint64_t(I(a[3])));
            std::vector<T> x, y;
            for (int i = 0; i < I(a[2]); i++) {
                T u, v;
                do {
                    u = rnd(r);
                    v = rnd(r);
                } while (!ok(a[1], u, v));
                x.push_back(u);
                y.push_back(v);
            }
            ops(a[1], x, y);
        } else if (c == "row") { // all the second operands
            std::vector<T> x, y;
            for (u128 v = 0; v <= top(); v++)
                if (ok(a[1], T(parse_u128(a[2])), T(v))) {
                    x.push_back(T(parse_u128(a[2])));
                    y.push_back(T(v));
                }
            ops(a[1], x, y);
        } else if (c == "all") { // all the elements, unary
            std::vector<T> x;
            for (u128 v = 0; v <= top(); v++)
                if (ok(a[1], T(v), 1))
                    x.push_back(T(v));
            ops(a[1], x, x);
        } else if (c == "rand") { // rand count
            std::string l;
            for (int i = 0; i < I(a[1]); i++)
                l += (i ? "," : "") + el(g->rand());
            emit(J("rand").str("f", F).raw("r", "[" + l + "]"));
        } else if (c == "opx") { // opx name a b a b
            std::vector<T> x, y;
            for (size_t i = 2; i + 1 < a.size(); i += 2) {
                x.push_back(T(parse_u128(a[i])));
                y.push_back(T(parse_u128(a[i + 1])));
            }
            ops(a[1], x, y);
        } else if (c == "ord") {
            std::vector<u128> v;
            for (size_t i = 2; i < a.size(); i++)
                v.push_back(parse_u128(a[i]));
            ords(a[1], v);
        } else if (c == "ordr") { // random non-zero elements
            Rng r(uint64_t(I(a[3])));
            std::vector<u128> v;
            for (int i = 0; i < I(a[2]); i++)
                v.push_back(rndnz(r));
            ords(a[1], v);
        } else if (c == "buf")
            buf(a[1], size_t(I(a[2])), uint64_t(I(a[3])), a.size() > 4);
        else if (c == "bufs")
            bufs(a[1], int(I(a[2])), size_t(I(a[3])), uint64_t(I(a[4])));
        else if (c == "pack")
            packing(int(I(a[1])), uint64_t(I(a[2])));
        else if (c == "fftnew")
            fftnew(a);
        else if (c == "fft")
            fft(a);
        else if (c == "taylor")
            taylor(a);
        else if (c == "mat")
            mat(a);
        else if (c == "poly")
            poly(a);
        else if (c == "omegas")
            omegas(int(I(a[1])), int(I(a[2])), a.size() > 3);
        else
            throw std::runtime_error("script: " + c);
    }
};

} // namespace h

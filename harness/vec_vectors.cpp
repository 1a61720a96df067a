// Vectors and their views; packing
#include "vec.h"
#include "quadiron.h"
#include "vec_cast.h"
#include "vec_slice.h"
#include "vec_vector.h"
#include "vec_view.h"
#include "vec_zero_ext.h"

using namespace h;
using namespace quadiron;

template <typename T>
struct VectorsPart : PartI {
    typedef vec::Vector<T> V;
    gf::Prime<T> gf;
    unsigned p;
    std::map<std::string, std::unique_ptr<V>> v;
    std::vector<std::unique_ptr<GBuf>> mine;

    explicit VectorsPart(unsigned p) : gf(gf::create<gf::Prime<T>>(p)), p(p)
    {
        emit(J("vfield").num("p", p));
    }
    T val(long x, int i)
    {
        return (x + 5 * i) % p;
    }
    T* own(size_t n, long x)
    {
        mine.emplace_back(new GBuf(n * sizeof(T), mine.size() % 2 ? 2 : 1));
        T* m = reinterpret_cast<T*>(mine.back()->p);
        for (size_t i = 0; i < n; i++)
            m[i] = val(x, i);
        return m;
    }
    V& at(const std::string& n)
    {
        auto it = v.find(n);
        if (it == v.end() || !it->second)
            throw std::runtime_error("script: no vector " + n);
        return *it->second;
    }
    template <typename X>
    X& as(const std::string& n)
    {
        X* x = dynamic_cast<X*>(&at(n));
        if (!x)
            throw std::runtime_error("script: vector " + n);
        return *x;
    }
    static std::string num(T x)
    {
        return x >> 15 >> 5 ? std::string("-1") : std::to_string(unsigned(x));
    }
    void event(J& j)
    {
        std::string o = "{";
        for (auto& x : v)
            if (x.second) {
                const V& w = *x.second;
                o += (o.size() > 1 ? ",\"" : "\"") + x.first + "\":{\"n\":"
                     + std::to_string(w.get_n()) + ",\"m\":"
                     + std::to_string(w.get_mem_len()) + ",\"c\":[";
                for (int i = 0; i < w.get_n(); i++)
                    o += (i ? "," : "") + num(w.get(i));
                o += "]}";
            }
        bool edges = true;
        for (auto& m : mine)
            edges = edges && m->intact();
        emit(j.num("edges", edges).raw("obs", o + "}"));
    }
    void make(const std::string& n, V* x)
    {
        v[n].reset(x);
    }
    void run(const Args& a) override
    {
        const std::string& op = a[0];
        if (op == "pack") {
            pack(a);
            return;
        }
        const std::string& n = a[1];
        auto N = [&](size_t i) { return I(a.at(i)); };
        J j("vec");
        j.str("op", op).str("a", n);
        static const char* const key[] = {"x", "y", "z"};
        auto nums = [&](size_t from) {
            for (size_t i = from; i < a.size(); i++)
                j.num(key[i - from], N(i));
        };
        bool two = a.size() > 2 && isalpha(a[2][0]);
        if (two)
            j.str("b", a[2]);
        nums(two ? 3 : 2);
        // ---- constructions
        if (op == "new") { // a n x
            make(n, new V(gf, N(2)));
            for (int i = 0; i < N(2); i++)
                at(n).set(i, val(N(3), i));
        } else if (op == "lit") { // a x y z
            make(n, new V(gf, {val(N(2), 0), val(N(3), 0), val(N(4), 0)}));
        } else if (op == "wrap") {
            make(n, new V(gf, N(2), own(N(2), N(3)), N(2)));
        } else if (op == "dup") {
            make(n, new V(at(a[2])));
        } else if (op == "move") {
            V* x = new V(std::move(at(a[2])));
            v.erase(a[2]);
            make(n, x);
        } else if (op == "assign") {
            at(n) = static_cast<const V&>(at(a[2]));
        } else if (op == "massign") {
            at(n) = std::move(at(a[2]));
            v.erase(a[2]);
        } else if (op == "vswap") {
            using std::swap;
            swap(at(n), at(a[2]));
        } else if (op == "setmem") { // a x: another memory of the caller's
            int len = at(n).get_n();
            at(n).set_mem(own(len, N(2)), len);
        } else if (op == "drop") {
            v.erase(n);
        // ---- views
        } else if (op == "slice") { // a b n offset
            make(n, new vec::Slice<T>(&at(a[2]), N(3), N(4)));
        } else if (op == "smap") { // a offset
            as<vec::Slice<T>>(n).set_map(N(2));
        } else if (op == "view") { // a b n offset step
            make(n, new vec::View<T>(&at(a[2]), N(3), N(4), N(5)));
        } else if (op == "vmap") { // a offset step
            as<vec::View<T>>(n).set_map(N(2), N(3));
        } else if (op == "vlen") {
            as<vec::View<T>>(n).set_len(N(2));
        } else if (op == "vvec") {
            as<vec::View<T>>(n).set_vec(&at(a[2]));
        } else if (op == "ext") { // a b n
            make(n, new vec::ZeroExtended<T>(at(a[2]), N(3)));
        // ---- operations
        } else if (op == "set") {
            at(n).set(N(2), N(3) % p);
        } else if (op == "zero") {
            at(n).zero_fill();
        } else if (op == "fill") {
            at(n).fill(N(2) % p);
        } else if (op == "scale") {
            at(n).mul_scalar(N(2) % p);
        } else if (op == "beta") {
            at(n).mul_beta(N(2) % p);
        } else if (op == "had") {
            at(n).hadamard_mul(&at(a[2]));
        } else if (op == "add") {
            at(n).add(&at(a[2]));
        } else if (op == "addo") {
            at(n).add(&at(a[2]), N(3));
        } else if (op == "mut") {
            at(n).add_mutual(&at(a[2]));
        } else if (op == "muto") {
            at(n).add_mutual(&at(a[2]), N(3));
        } else if (op == "mutl") {
            at(n).add_mutual(&at(a[2]), N(3), N(4));
        } else if (op == "copy") {
            at(n).copy(&at(a[2]));
        } else if (op == "copyn") {
            at(n).copy(&at(a[2]), N(3));
        } else if (op == "copyo") { // n offset
            at(n).copy(&at(a[2]), N(3), N(4));
        } else if (op == "copyf") { // n destination source
            at(n).copy(&at(a[2]), N(3), N(4), N(5));
        } else if (op == "neg") {
            at(n).neg();
        } else if (op == "sort") {
            at(n).sort();
        } else if (op == "swap") {
            at(n).swap(N(2), N(3));
        } else if (op == "rand") {
            at(n).rand();
        } else if (op == "eq") {
            bool r = at(n) == at(a[2]);
            j.num("r", r);
        } else
            throw std::runtime_error("script: vecs " + op);
        event(j);
    }

    static std::string bytes(const void* m, size_t n)
    {
        const uint8_t* q = static_cast<const uint8_t*>(m);
        return J::narr(std::vector<int>(q, q + n));
    }
    // pack nbuf used size ws seed: bytes into words and back
    void pack(const Args& a)
    {
        size_t nb = I(a[1]), used = I(a[2]), size = I(a[3]), ws = I(a[4]);
        Rng r(I(a[5]));
        std::vector<GBuf> src, dst, back;
        std::vector<uint8_t*> sp, bp;
        std::vector<T*> dp;
        std::vector<std::string> before;
        for (size_t i = 0; i < nb; i++) {
            src.emplace_back(size * ws, i % 2 ? 1 : 0);
            dst.emplace_back(size * sizeof(T), i % 2 ? 0 : 1);
            back.emplace_back(size * ws, i % 2 ? 0 : 1);
            r.fill(src[i].p, size * ws);
            r.fill(dst[i].p, size * sizeof(T));
            r.fill(back[i].p, size * ws);
            sp.push_back(src[i].p);
            dp.push_back(reinterpret_cast<T*>(dst[i].p));
            bp.push_back(back[i].p);
        }
        auto all = [](const std::vector<GBuf>& g) {
            std::vector<std::string> v;
            for (auto const& x : g)
                v.push_back(bytes(x.p, x.len));
            return v;
        };
        J j("pack");
        j.num("t", sizeof(T)).num("ws", ws).num("size", size);
        j.num("used", used);
        j.raws("src", all(src)).raws("dst0", all(dst)).raws("back0", all(back));
        vec::pack<uint8_t, T>(sp, dp, used, size, ws);
        j.raws("dst", all(dst));
        // values of the words, as their bytes from the least significant
        std::vector<std::string> w;
        for (size_t i = 0; i < nb; i++) {
            std::string o = "[";
            for (size_t x = 0; x < size; x++) {
                T e = dp[i][x];
                o += x ? ",[" : "[";
                for (size_t k = 0; k < sizeof(T); k++) {
                    o += (k ? "," : "") + std::to_string(unsigned(e & 255));
                    e = static_cast<T>(e >> 4) >> 4;
                }
                o += "]";
            }
            w.push_back(o + "]");
        }
        j.raws("words", w);
        vec::unpack<T, uint8_t>(dp, bp, used, size, ws);
        j.raws("back", all(back)).raws("src2", all(src)).raws("dst2", all(dst));
        bool edges = true;
        for (size_t i = 0; i < nb; i++)
            edges = edges && src[i].intact() && dst[i].intact()
                    && back[i].intact();
        emit(j.num("edges", edges));
    }
};

std::unique_ptr<PartI> h::vectors_part(const std::string& t, unsigned p)
{
    if (t == "u16")
        return std::unique_ptr<PartI>(new VectorsPart<uint16_t>(p));
    if (t == "u32")
        return std::unique_ptr<PartI>(new VectorsPart<uint32_t>(p));
    if (t == "u64")
        return std::unique_ptr<PartI>(new VectorsPart<uint64_t>(p));
    return std::unique_ptr<PartI>(new VectorsPart<__uint128_t>(p));
}

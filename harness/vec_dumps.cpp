// What is shown of numbers, memory, buffers, vectors, matrices, polynomials
#include "vec.h"
#include "mathi.h"
#include "misc.h"
#include "quadiron.h"
#include "quadiron_c.h"
#include "vec_buffers.h"
#include "vec_matrix.h"
#include "vec_poly.h"
#include "vec_vector.h"

using namespace h;
using namespace quadiron;

namespace {

std::string codes(const std::string& t)
{
    std::vector<int> v;
    for (char c : t)
        v.push_back(static_cast<unsigned char>(c));
    return J::narr(v);
}

// takes no more than a number of characters
struct Small : std::streambuf {
    std::string got;
    size_t cap;
    explicit Small(size_t cap) : cap(cap) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        std::streamsize k = 0;
        while (k < n && got.size() < cap)
            got += s[k++];
        return k;
    }
    int overflow(int c) override
    {
        if (got.size() >= cap)
            return EOF;
        got += static_cast<char>(c);
        return c;
    }
};

// what is written to a stream meanwhile
std::string
meanwhile(std::ostream& os, const std::function<void()>& what)
{
    std::ostringstream o;
    std::streambuf* was = os.rdbuf(o.rdbuf());
    what();
    os.rdbuf(was);
    return o.str();
}

template <typename T>
std::string list(const std::vector<T>& v)
{
    std::vector<std::string> s;
    std::string o = "[";
    for (auto& x : v)
        o += (o.size() > 1 ? "," : "") + nat(x);
    return o + "]";
}

template <typename T>
struct Field;
template <>
struct Field<uint16_t> : gf::Prime<uint16_t> {
    Field() : gf::Prime<uint16_t>(gf::create<gf::Prime<uint16_t>>(65521)) {}
};
template <>
struct Field<uint32_t> : gf::Prime<uint32_t> {
    Field() : gf::Prime<uint32_t>(gf::create<gf::Prime<uint32_t>>(4294967291u))
    {
    }
};
template <>
struct Field<uint64_t> : gf::BinExtension<uint64_t> {
    Field()
        : gf::BinExtension<uint64_t>(
              gf::create<gf::BinExtension<uint64_t>>(64))
    {
    }
};
template <>
struct Field<__uint128_t> : gf::BinExtension<__uint128_t> {
    Field()
        : gf::BinExtension<__uint128_t>(
              gf::create<gf::BinExtension<__uint128_t>>(128))
    {
    }
};

// WHAT TYPE ROWS COLS values ...
template <typename T>
void container(const std::string& what, const Args& a)
{
    int n = I(a[2]), m = I(a[3]);
    std::vector<std::vector<T>> rows(n, std::vector<T>(m));
    size_t k = 4;
    for (auto& r : rows)
        for (auto& x : r)
            x = parse_u128(a.at(k++));
    std::vector<std::string> o;
    for (auto& r : rows)
        o.push_back(list(r));
    if (what == "bufs") {
        vec::Buffers<T> b(n, m);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++)
                b.get(i)[j] = rows[i][j];
        std::string t = meanwhile(std::cout, [&] { b.dump(); });
        emit(J("dbufs").raws("rows", o).raw("t", codes(t)));
        return;
    }
    Field<T> f;
    if (what == "mat") {
        vec::Matrix<T> x(f, n, m);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++)
                x.set(i, j, rows[i][j]);
        std::string t = meanwhile(std::cout, [&] { x.dump(); });
        emit(J("dmat").raws("rows", o).raw("t", codes(t)));
        for (int i = 0; i < n; i++) {
            t = meanwhile(std::cout, [&] { x.dump_row(i); });
            emit(J("dvec").raw("v", o[i]).raw("t", codes(t)));
        }
        return;
    }
    for (auto& r : rows) {
        if (what == "vec") {
            vec::Vector<T> x(f, m);
            for (int j = 0; j < m; j++)
                x.set(j, r[j]);
            std::string t = meanwhile(std::cout, [&] { x.dump(); });
            emit(J("dvec").raw("v", list(r)).raw("t", codes(t)));
        } else { // polynomials: up to the degree
            vec::Poly<T> x(f, m + 2);
            for (int j = 0; j < m; j++)
                x.set(j, r[j]);
            std::vector<T> c = r;
            while (!c.empty() && c.back() == 0)
                c.pop_back();
            std::string t = meanwhile(std::cout, [&] { x.dump(); });
            emit(J("dpoly").raw("v", list(c)).raw("t", codes(t)));
        }
    }
}

struct DumpsPart : PartI {
    void run(const Args& a) override
    {
        const std::string& op = a[0];
        if (op == "num") { // number, signed or not, room
            bool neg = a[1][0] == '-';
            u128 v = parse_u128(neg ? a[1].substr(1) : a[1]);
            size_t cap = I(a[3]);
            Small buf(cap);
            std::ostream os(&buf);
            std::string j;
            if (a[2] == "s") {
                __int128_t x = neg ? -v : v;
                j = snat(x);
                os << x;
            } else {
                j = "{\"s\":1,\"m\":" + nat(v) + "}";
                os << static_cast<__uint128_t>(v);
            }
            emit(J("dnum").raw("v", j).num("cap", cap)
                     .raw("t", codes(buf.got)).num("bad", os.bad()));
        } else if (op == "hex") { // bytes, characters, base, fill
            std::string b = a[1] == "-" ? "" : unhex(a[1]);
            GBuf g(b.size(), 3);
            memcpy(g.p, b.data(), b.size());
            std::ostringstream os;
            os << (a[3] == "hex" ? std::hex
                                 : a[3] == "oct" ? std::oct : std::dec);
            os.fill(static_cast<char>(I(a[4])));
            auto f = os.flags();
            hex_dump(os, g.p, b.size(), I(a[2]));
            bool kept = os.flags() == f && os.fill() == static_cast<char>(I(a[4]))
                        && os.good() && !memcmp(g.p, b.data(), b.size());
            emit(J("dhex").raw("b", codes(b)).num("chars", I(a[2]))
                     .raw("t", codes(os.str())).num("kept", kept));
        } else if (op == "chex") { // the C interface
            std::string b = a[1] == "-" ? "" : unhex(a[1]);
            GBuf g(b.size(), 3);
            memcpy(g.p, b.data(), b.size());
            auto f = std::cerr.flags();
            std::string t = meanwhile(
                std::cerr, [&] { quadiron_hex_dump(g.p, b.size()); });
            bool kept = std::cerr.flags() == f && std::cerr.good()
                        && !memcmp(g.p, b.data(), b.size());
            emit(J("dhex").raw("b", codes(b)).num("chars", 1)
                     .raw("t", codes(t)).num("kept", kept));
        } else if (op == "null") {
            std::ostringstream os;
            hex_dump(os, nullptr, I(a[1]), I(a[2]));
            emit(J("dnull").raw("t", codes(os.str())));
        } else if (a[1] == "u16") {
            container<uint16_t>(op, a);
        } else if (a[1] == "u32") {
            container<uint32_t>(op, a);
        } else if (a[1] == "u64") {
            container<uint64_t>(op, a);
        } else {
            container<__uint128_t>(op, a);
        }
    }
};

} // namespace

std::unique_ptr<h::PartI> h::dumps_part()
{
    return std::unique_ptr<PartI>(new DumpsPart());
}

// Sets of buffers: constructions and operations
#include "vec.h"
#include "quadiron.h"
#include "vec_buffers.h"
#include "vec_cast.h"
#include "vec_vector.h"

using namespace h;
using namespace quadiron;

template <typename T>
struct BuffersPart : PartI {
    typedef vec::Buffers<T> B;
    std::map<std::string, std::unique_ptr<B>> b;
    std::vector<std::unique_ptr<GBuf>> mine; // the caller's buffers
    std::string pend;
    gf::Prime<T> gf = gf::create<gf::Prime<T>>(31);

    T* own(size_t size, long x)
    {
        mine.emplace_back(new GBuf(size * sizeof(T), mine.size() % 2 ? 2 : 1));
        T* p = reinterpret_cast<T*>(mine.back()->p);
        for (size_t j = 0; j < size; j++)
            p[j] = x + j;
        return p;
    }
    static void pattern(B& v, long x)
    {
        for (int i = 0; i < v.get_n(); i++)
            for (size_t j = 0; j < v.get_size(); j++)
                v.get(i)[j] = x + i * v.get_size() + j;
    }
    B& at(const std::string& n)
    {
        auto it = b.find(n);
        if (it == b.end() || !it->second)
            throw std::runtime_error("script: no buffers " + n);
        return *it->second;
    }
    static std::string num(T v)
    {
        return v >> 15 >> 5 ? std::string("-1") : std::to_string(unsigned(v));
    }
    static std::string contents(const B& v)
    {
        std::string o = "[";
        for (int i = 0; i < v.get_n(); i++) {
            o += i ? ",[" : "[";
            for (size_t j = 0; j < v.get_size(); j++)
                o += (j ? "," : "") + num(v.get(i)[j]);
            o += "]";
        }
        return o + "]";
    }
    void event(J& j)
    {
        std::string o = "{";
        for (auto& x : b)
            if (x.second)
                o += (o.size() > 1 ? ",\"" : "\"") + x.first + "\":{\"n\":"
                     + std::to_string(x.second->get_n()) + ",\"s\":"
                     + std::to_string(x.second->get_size()) + ",\"m\":"
                     + std::to_string(x.second->get_mem_len()) + ",\"k\":"
                     + std::to_string(x.second->get_mem().size()) + ",\"c\":"
                     + contents(*x.second) + "}";
        bool edges = true;
        for (auto& m : mine)
            edges = edges && m->intact();
        emit(j.num("edges", edges).raw("obs", o + "}"));
    }
    void run(const Args& a) override
    {
        const std::string& op = a[0];
        const std::string& n = a[1];
        auto N = [&](size_t i) { return I(a.at(i)); };
        J j("buf");
        j.str("op", op).str("a", n);
        if (op == "new") { // a n size x
            b[n].reset(new B(N(2), N(3)));
            pattern(*b[n], N(4));
            j.num("n", N(2)).num("size", N(3)).num("x", N(4));
        } else if (op == "wrap") {
            std::vector<T*> m;
            for (int i = 0; i < N(2); i++)
                m.push_back(own(N(3), N(4) + i * N(3)));
            b[n].reset(new B(N(2), N(3), m));
            j.num("n", N(2)).num("size", N(3)).num("x", N(4));
        } else if (op == "dup") { // a from n
            b[n].reset(new B(at(a[2]), N(3)));
            j.str("b", a[2]).num("n", N(3));
        } else if (op == "clone") { // a from
            b[n].reset(new B(at(a[2])));
            j.str("b", a[2]);
        } else if (op == "assign") { // a from
            at(n) = at(a[2]);
            j.str("b", a[2]);
        } else if (op == "slice") { // a from begin end
            b[n].reset(new B(at(a[2]), N(3), N(4)));
            j.str("b", a[2]).num("i", N(3)).num("j", N(4));
        } else if (op == "cat") {
            b[n].reset(new B(at(a[2]), at(a[3])));
            j.str("b", a[2]).str("b2", a[3]);
        } else if (op == "shuf") { // a from n map...
            std::vector<int> m;
            for (size_t i = 4; i < a.size(); i++)
                m.push_back(N(i));
            vec::Vector<T> map(gf, m.size());
            for (size_t i = 0; i < m.size(); i++)
                map.set(i, m[i]);
            b[n].reset(new B(at(a[2]), map, N(3)));
            j.str("b", a[2]).num("n", N(3)).nums("map", m);
        } else if (op == "fill") {
            at(n).fill(N(2), N(3));
            j.num("i", N(2)).num("x", N(3));
        } else if (op == "zero") {
            at(n).zero_fill();
        } else if (op == "poke") { // a i j x
            at(n).get(N(2))[N(3)] = N(4);
            j.num("i", N(2)).num("j", N(3)).num("x", N(4));
        } else if (op == "copy") {
            at(n).copy(at(a[2]));
            j.str("b", a[2]);
        } else if (op == "put") { // a i x: from a buffer of the caller's
            at(n).copy(N(2), own(at(n).get_size(), N(3)));
            j.num("i", N(2)).num("x", N(3));
        } else if (op == "swap") {
            at(n).swap(N(2), N(3));
            j.num("i", N(2)).num("j", N(3));
        } else if (op == "sep") {
            at(n).separate_even_odd();
        } else if (op == "sep2") { // a even odd
            at(n).separate_even_odd(at(a[2]), at(a[3]));
            j.str("b", a[2]).str("b2", a[3]);
        } else if (op == "set") { // a i x: another buffer of the caller's
            at(n).set(N(2), own(at(n).get_size(), N(3)));
            j.num("i", N(2)).num("x", N(3));
        } else if (op == "eq") {
            bool r = at(n) == at(a[2]);
            j.str("b", a[2]).num("r", r);
        } else if (op == "cast") { // the buffers as bytes
            std::unique_ptr<std::vector<uint8_t*>> p(
                vec::cast_mem_of_vecp<T, uint8_t>(&at(n)));
            bool r = p->size() == static_cast<size_t>(at(n).get_n());
            for (size_t i = 0; r && i < p->size(); i++)
                r = (*p)[i] == reinterpret_cast<uint8_t*>(at(n).get(i));
            j.num("r", r);
        } else if (op == "drop") {
            b[n].reset();
        } else
            throw std::runtime_error("script: bufs " + op);
        event(j);
    }
};

std::unique_ptr<PartI> h::buffers_part(const std::string& t)
{
    if (t == "u16")
        return std::unique_ptr<PartI>(new BuffersPart<uint16_t>());
    if (t == "u32")
        return std::unique_ptr<PartI>(new BuffersPart<uint32_t>());
    if (t == "u64")
        return std::unique_ptr<PartI>(new BuffersPart<uint64_t>());
    return std::unique_ptr<PartI>(new BuffersPart<__uint128_t>());
}

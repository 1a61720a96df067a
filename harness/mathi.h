// Fields, transforms, matrices and polynomials for one element type.
#pragma once
#include "common.h"

namespace h {

struct MathI {
    virtual ~MathI() {}
    virtual void run(const Args& a) = 0;
};

// a natural number in base 8192, least significant digit first
inline std::string nat(u128 v)
{
    std::string o = "[";
    for (bool f = true; v; v >>= 13, f = false)
        o += (f ? "" : ",") + std::to_string(unsigned(v & 8191));
    return o + "]";
}
inline std::string snat(__int128 v)
{
    return "{\"s\":" + std::to_string(v < 0 ? -1 : v > 0)
           + ",\"m\":" + nat(v < 0 ? -static_cast<u128>(v) : v) + "}";
}

// The classes of fields of the specification (GF.tla)
struct Cls {
    char c;     // p, q, n: prime; b, w: binary; l: lanes modulo 65537
    u128 p;     // cardinal of the prime field
    unsigned n; // bits or lanes
    std::string str() const
    {
        return std::string(1, c);
    }
    static std::string small(u128 v)
    {
        return v >> 30 ? "-1" : std::to_string(unsigned(v));
    }
    std::string el(u128 v) const
    {
        switch (c) {
        case 'p':
        case 'b':
            return small(v);
        case 'q':
            return "[" + small(v >> 16) + ","
                   + std::to_string(unsigned(v & 0xffff)) + "]";
        case 'w':
            if (n < 128 && (v >> n))
                return "[-1]";
            return limbs(v, n / 16);
        case 'l': {
            std::string o = "[";
            for (unsigned i = 0; i < n; i++) {
                o += (i ? "," : "") + small(v & 0xffffffffu);
                v >>= 16;
                v >>= 16;
            }
            if (v && n < 4)
                o += ",-1";
            return o + "]";
        }
        default:
            return nat(v);
        }
    }
};

template <typename T>
std::unique_ptr<MathI> make_math(const std::string& f, char kind, u128 par);

std::unique_ptr<MathI> math_u16(const std::string&, char, u128);
std::unique_ptr<MathI> math_u32(const std::string&, char, u128);
std::unique_ptr<MathI> math_u64(const std::string&, char, u128);
std::unique_ptr<MathI> math_u128(const std::string&, char, u128);

struct ArithI {
    static bool run(const Args& a);
};

} // namespace h

// Common parts of the conformance harnesses: events are written as one JSON
// object per line, buffers are bounded by inaccessible pages, and each group
// of commands runs in a forked child so that a crash becomes an event.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace h {

typedef unsigned __int128 u128;
typedef std::vector<std::string> Args;

// ---- deterministic pseudo random numbers (splitmix64)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    void fill(uint8_t* p, size_t n)
    {
        for (size_t i = 0; i < n; i++)
            p[i] = static_cast<uint8_t>(next() >> 17);
    }
};

// ---- content identity
inline std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    const uint8_t* b = static_cast<const uint8_t*>(p);
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; i++) {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    return s;
}
inline std::string digest(const void* p, size_t n)
{
    if (n <= 16)
        return "x" + hex(p, n);
    const uint8_t* b = static_cast<const uint8_t*>(p);
    uint64_t h1 = 0xcbf29ce484222325ULL, h2 = 0x84222325cbf29ce4ULL ^ n;
    for (size_t i = 0; i < n; i++) {
        h1 = (h1 ^ b[i]) * 0x100000001b3ULL;
        h2 = (h2 + b[i] + 1) * 0x9e3779b97f4a7c15ULL;
        h2 ^= h2 >> 29;
    }
    char buf[64];
    snprintf(
        buf,
        sizeof buf,
        "h%zu:%016llx%016llx",
        n,
        (unsigned long long)h1,
        (unsigned long long)h2);
    return buf;
}
inline std::string digest(const std::string& s)
{
    return digest(s.data(), s.size());
}
inline std::string unhex(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += static_cast<char>(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

// ---- buffers bounded by inaccessible pages on both sides
class GBuf {
    uint8_t* base = nullptr;
    size_t total = 0;

  public:
    uint8_t* p = nullptr;
    size_t len = 0;
    uint8_t* lo = nullptr; // accessible range
    uint8_t* hi = nullptr;
    GBuf() {}
    // place: 0 = end as close to the guard as 16-byte alignment allows,
    // 1 = begin at the guard, 2 = as 0 with 32 bytes, otherwise the end is
    // flush against the guard
    GBuf(size_t n, int place = 0) { alloc(n, place); }
    GBuf(const GBuf&) = delete;
    GBuf& operator=(const GBuf&) = delete;
    GBuf(GBuf&& o) noexcept { *this = std::move(o); }
    GBuf& operator=(GBuf&& o) noexcept
    {
        std::swap(base, o.base);
        std::swap(total, o.total);
        std::swap(p, o.p);
        std::swap(len, o.len);
        std::swap(lo, o.lo);
        std::swap(hi, o.hi);
        return *this;
    }
    ~GBuf()
    {
        if (base)
            munmap(base, total);
    }
    void alloc(size_t n, int place)
    {
        const size_t pg = 4096;
        size_t in = (n + 32 + pg - 1) / pg * pg;
        total = in + 2 * pg;
        base = static_cast<uint8_t*>(mmap(
            nullptr,
            total,
            PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS,
            -1,
            0));
        if (base == MAP_FAILED) {
            base = nullptr;
            throw std::runtime_error("mmap");
        }
        mprotect(base, pg, PROT_NONE);
        mprotect(base + pg + in, pg, PROT_NONE);
        lo = base + pg;
        hi = lo + in;
        len = n;
        if (place == 1)
            p = lo;
        else if (place == 0)
            p = reinterpret_cast<uint8_t*>(
                (reinterpret_cast<uintptr_t>(hi) - n) & ~uintptr_t(15));
        else if (place == 2) // aligned for any vector unit
            p = reinterpret_cast<uint8_t*>(
                (reinterpret_cast<uintptr_t>(hi) - n) & ~uintptr_t(31));
        else // odd alignments: flush against the guard
            p = hi - n;
        memset(lo, 0xC7, in);
    }
    // bytes around the buffer are as they were
    bool intact() const
    {
        for (const uint8_t* q = lo; q < p; q++)
            if (*q != 0xC7)
                return false;
        for (const uint8_t* q = p + len; q < hi; q++)
            if (*q != 0xC7)
                return false;
        return true;
    }
    std::string str() const
    {
        return std::string(reinterpret_cast<char*>(p), len);
    }
    void set(const std::string& s)
    {
        memcpy(p, s.data(), std::min(len, s.size()));
    }
};

// ---- JSON
class J {
    std::string s;
    bool first = true;
    void sep()
    {
        if (!first)
            s += ',';
        first = false;
    }

  public:
    explicit J(const std::string& ev)
    {
        s = "{";
        str("e", ev);
    }
    static std::string quote(const std::string& v)
    {
        std::string o = "\"";
        for (char ch : v) {
            unsigned char c = static_cast<unsigned char>(ch);
            if (c == '"' || c == '\\') {
                o += '\\';
                o += ch;
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += ch;
        }
        return o + "\"";
    }
    J& raw(const std::string& k, const std::string& v)
    {
        sep();
        s += quote(k) + ":" + v;
        return *this;
    }
    J& str(const std::string& k, const std::string& v)
    {
        return raw(k, quote(v));
    }
    J& num(const std::string& k, long long v)
    {
        return raw(k, std::to_string(v));
    }
    template <typename C>
    J& nums(const std::string& k, const C& v)
    {
        return raw(k, narr(v));
    }
    template <typename C>
    static std::string narr(const C& v)
    {
        std::string o = "[";
        bool f = true;
        for (auto const& x : v) {
            if (!f)
                o += ',';
            f = false;
            o += std::to_string(static_cast<long long>(x));
        }
        return o + "]";
    }
    J& strs(const std::string& k, const std::vector<std::string>& v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++)
            o += (i ? "," : "") + quote(v[i]);
        return raw(k, o + "]");
    }
    J& raws(const std::string& k, const std::vector<std::string>& v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++)
            o += (i ? "," : "") + v[i];
        return raw(k, o + "]");
    }
    std::string done() { return s + "}\n"; }
};

// A number of any size as an array of 16-bit limbs, least significant first.
inline std::string limbs(u128 v, unsigned n)
{
    std::string o = "[";
    for (unsigned i = 0; i < n; i++) {
        o += (i ? "," : "") + std::to_string(unsigned(v & 0xffff));
        v >>= 16;
    }
    return o + "]";
}
inline u128 parse_u128(const std::string& s)
{
    u128 v = 0;
    if (s.size() > 2 && s[0] == '0' && s[1] == 'x') {
        for (size_t i = 2; i < s.size(); i++) {
            char c = s[i];
            v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
        }
    } else
        for (char c : s)
            v = v * 10 + (c - '0');
    return v;
}

extern FILE* out;
extern thread_local std::string* sink; // events of one thread
inline void emit(J& j)
{
    std::string s = j.done();
    if (sink)
        *sink += s;
    else
        fwrite(s.data(), 1, s.size(), out);
}
inline void emit(J&& j)
{
    emit(static_cast<J&>(j));
}

inline Args split(const std::string& line)
{
    Args a;
    std::istringstream is(line);
    std::string t;
    while (is >> t)
        a.push_back(t);
    return a;
}
inline long long I(const std::string& s)
{
    return atoll(s.c_str());
}

// The interpreter of one harness: a command line -> events
struct Interp {
    virtual ~Interp() {}
    virtual void run(const Args& a) = 0;
};
typedef std::function<std::unique_ptr<Interp>()> Factory;

// script: lines; "group <name>" starts a group
int main_loop(int argc, char** argv, const Factory& f);

} // namespace h

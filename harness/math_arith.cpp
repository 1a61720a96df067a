#include "mathi.h"
#include "quadiron.h"

namespace h {
using namespace quadiron;

static __int128 parse_s(const std::string& s)
{
    return s[0] == '-' ? -static_cast<__int128>(parse_u128(s.substr(1)))
                       : static_cast<__int128>(parse_u128(s));
}

template <typename C>
static std::string nats(const C& c)
{
    std::string o = "[";
    bool f = true;
    for (auto v : c) {
        o += (f ? "" : ",") + nat(v);
        f = false;
    }
    return o + "]";
}

template <typename T>
static void arith_t(const std::string& type, const Args& a)
{
    const std::string& op = a[2];
    std::vector<std::string> w(a.begin() + 3, a.end());
    std::vector<std::string> args;
    std::vector<T> x;
    for (auto const& s : w) {
        args.push_back(snat(parse_s(s)));
        x.push_back(T(parse_s(s)));
    }
    typedef SignedDoubleSizeVal<T> S;
    std::string r = "[]";
    try {
        if (op == "sqrt")
            r = "[" + nat(arith::sqrt<T>(x[0])) + "]";
        else if (op == "exp")
            r = "[" + nat(arith::exp<T>(x[0], x[1])) + "]";
        else if (op == "exp_mod")
            r = "[" + nat(arith::exp_mod<T>(x[0], x[1], x[2])) + "]";
        else if (op == "is_pow2")
            r = "[" + nat(arith::is_power_of_2<T>(int(parse_s(w[0])))) + "]";
        else if (op == "ceil2")
            r = "[" + nat(arith::ceil2<T>(int(x[0]))) + "]";
        else if (op == "log2")
            r = "[" + nat(arith::log2<T>(int(x[0]))) + "]";
        else if (op == "exp2")
            r = "[" + nat(arith::exp2<T>(int(x[0]))) + "]";
        else if (op == "egcd") {
            S b[2], q[2];
            S d = arith::extended_gcd<T>(S(x[0]), S(x[1]), b, q);
            S d2 = arith::extended_gcd<T>(S(x[0]), S(x[1]), nullptr, nullptr);
            r = "[" + snat(d) + "," + snat(b[0]) + "," + snat(b[1]) + ","
                + snat(q[0]) + "," + snat(q[1]) + "," + snat(d2) + "]";
        } else if (op == "crt") { // n values, n moduli
            size_t n = x.size() / 2;
            std::vector<T> v(x.begin(), x.begin() + n),
                m(x.begin() + n, x.end());
            r = "["
                + nat(arith::chinese_remainder<T>(int(n), v.data(), m.data()))
                + "]";
        } else if (op == "jacobi") // n, m, the prime factors of m
            r = "["
                + snat(arith::jacobi<T>(S(parse_s(w[0])), S(parse_s(w[1]))))
                + "]";
        else if (op == "solovay")
            r = "[" + nat(arith::solovay_strassen1<T>(x[0], x[1])) + "]";
        else if (op == "is_prime")
            r = "[" + nat(arith::is_prime<T>(x[0])) + "]";
        else if (op == "distinct")
            r = nats(arith::factor_distinct_prime<T>(x[0]));
        else if (op == "proper")
            r = nats(arith::get_proper_divisors<T>(x[0]));
        else if (op == "proper2")
            r = nats(arith::get_proper_divisors<T>(
                x[0], arith::factor_distinct_prime<T>(x[0])));
        else if (op == "factor") {
            std::vector<T> p;
            std::vector<int> e;
            arith::factor_prime<T>(x[0], &p, &e);
            r = "[" + nats(p) + "," + J::narr(e) + "]";
        } else if (op == "factors")
            r = nats(arith::get_prime_factors<T>(x[0]));
        else if (op == "coprimes")
            r = nats(arith::get_coprime_factors<T>(x[0]));
        else if (op == "divisors")
            r = nats(arith::get_all_divisors<T>(x[0]));
        else if (op == "gcd")
            r = "[" + nat(arith::gcd<T>(x[0], x[1])) + "]";
        else if (op == "len")
            r = "[" + nat(arith::get_code_len<T>(x[0], x[1])) + "]";
        else if (op == "high")
            r = "[" + nat(arith::get_code_len_high_compo<T>(x[0], x[1])) + "]";
        else
            throw std::runtime_error("script: arith " + op);
    } catch (DomainError const&) {
        r = "\"domain\"";
    }
    emit(J("arith").str("t", type).str("op", op).raws("a", args).raw("r", r));
}

bool ArithI::run(const Args& a)
{
    if (a[0] != "arith")
        return false;
    if (a[1] == "u32")
        arith_t<uint32_t>(a[1], a);
    else if (a[1] == "u64")
        arith_t<uint64_t>(a[1], a);
    else
        throw std::runtime_error("script: type");
    return true;
}

} // namespace h

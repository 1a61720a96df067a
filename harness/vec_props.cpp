// Properties as text
#include "vec.h"
#include "property.h"

using namespace h;
using quadiron::Properties;

struct PropsPart : PartI {
    std::map<std::string, Properties> ps;

    static std::string digits(unsigned long long v)
    {
        std::string s = std::to_string(v), o = "[";
        for (size_t i = 0; i < s.size(); i++)
            o += (i ? "," : "") + std::string(1, s[i]);
        return o + "]";
    }
    static std::string list(const Properties& p)
    {
        std::string o = "[";
        for (auto const& x : p.get_map())
            o += (o.size() > 1 ? ",[" : "[") + digits(x.first) + ","
                 + digits(x.second) + "]";
        return o + "]";
    }
    static std::string codes(const std::string& t)
    {
        std::vector<int> v;
        for (char c : t)
            v.push_back(static_cast<unsigned char>(c));
        return J::narr(v);
    }
    void run(const Args& a) override
    {
        const std::string& op = a[0];
        Properties& p = ps[a[1]];
        if (op == "new") {
            ps[a[1]] = Properties();
            emit(J("pnew").str("p", a[1]));
        } else if (op == "add") {
            size_t pos = parse_u128(a[2]);
            uint32_t mark = parse_u128(a[3]);
            p.add(pos, mark);
            emit(J("padd").str("p", a[1]).raw("x", digits(pos))
                     .raw("m", digits(mark)).raw("l", list(p)));
        } else if (op == "clear" || op == "sort") {
            if (op == "sort")
                p.sort();
            else
                p.clear();
            emit(J("p" + op).str("p", a[1]).raw("l", list(p)));
        } else if (op == "copy") {
            ps[a[2]] = p;
            emit(J("pcopy").str("p", a[1]).str("q", a[2])
                     .raw("l", list(ps[a[2]])));
        } else if (op == "write") {
            std::ostringstream os;
            os << p;
            emit(J("pwrite").str("p", a[1]).raw("t", codes(os.str()))
                     .raw("l", list(p)).num("ok", os.good()));
        } else if (op == "read") { // hex
            std::istringstream is(unhex(a.size() > 2 ? a[2] : ""));
            is >> p;
            emit(J("pread").str("p", a[1]).raw("t", codes(is.str()))
                     .raw("l", list(p)));
        } else if (op == "round") { // write p, read into q
            std::ostringstream os;
            os << p;
            std::istringstream is(os.str());
            is >> ps[a[2]];
            emit(J("pround").str("p", a[1]).str("q", a[2])
                     .raw("l", list(ps[a[2]])));
        } else if (op == "at") { // index, location
            size_t i = I(a[2]);
            size_t x = parse_u128(a[3]);
            emit(J("pat").str("p", a[1]).num("i", i).raw("x", digits(x))
                     .raw("loc", digits(p.location(i)))
                     .raw("m", digits(p.marker(i)))
                     .num("is", p.is_marked(i, x))
                     .num("below", p.in_range(i, 0, x))
                     .num("from", p.in_range(i, x, ~size_t(0)))
                     .raw("l", list(p)));
        } else
            throw std::runtime_error("script: props " + op);
    }
};

std::unique_ptr<PartI> h::props_part()
{
    return std::unique_ptr<PartI>(new PropsPart());
}

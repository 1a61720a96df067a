// Fields, transforms, linear algebra, polynomials, integer arithmetic.
#include "mathi.h"

using namespace h;

struct MathInterp : Interp {
    std::map<std::string, std::unique_ptr<MathI>> f;
    void run(const Args& a) override
    {
        if (ArithI::run(a))
            return;
        if (a[0] == "field") { // field F type kind par
            u128 p = parse_u128(a[4]);
            if (a[2] == "u16")
                f[a[1]] = math_u16(a[1], a[3][0], p);
            else if (a[2] == "u32")
                f[a[1]] = math_u32(a[1], a[3][0], p);
            else if (a[2] == "u64")
                f[a[1]] = math_u64(a[1], a[3][0], p);
            else if (a[2] == "u128")
                f[a[1]] = math_u128(a[1], a[3][0], p);
            else
                throw std::runtime_error("script: type");
            return;
        }
        if (a.size() < 2 || !f.count(a[0]))
            throw std::runtime_error("script: field " + a[0]);
        f[a[0]]->run(Args(a.begin() + 1, a.end()));
    }
};

int main(int argc, char** argv)
{
    return main_loop(argc, argv, [] {
        return std::unique_ptr<Interp>(new MathInterp());
    });
}

#include "math_impl.h"
namespace h {
std::unique_ptr<MathI> math_u64(const std::string& f, char k, u128 p)
{
    return std::make_unique<MathT<uint64_t>>(f, k, p);
}
} // namespace h

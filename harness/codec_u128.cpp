#include "codec_impl.h"
std::unique_ptr<ICodec> codec_u128(const CodecCfg& c)
{
    auto r = make_nf4<__uint128_t>(c);
    return r ? std::move(r) : make_gf2<__uint128_t>(c);
}

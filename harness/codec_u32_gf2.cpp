#include "codec_impl.h"
std::unique_ptr<ICodec> codec_u32_gf2(const CodecCfg& c)
{
    auto r = make_gf2<uint32_t>(c);
    return r ? std::move(r) : make_gfp<uint32_t>(c);
}

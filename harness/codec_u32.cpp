#include "codec_impl.h"
std::unique_ptr<ICodec> codec_u32_gf2(const CodecCfg& c);
std::unique_ptr<ICodec> codec_u32(const CodecCfg& c)
{
    auto r = make_fnt<uint32_t>(c);
    if (!r)
        r = make_nf4<uint32_t>(c);
    return r ? std::move(r) : codec_u32_gf2(c);
}

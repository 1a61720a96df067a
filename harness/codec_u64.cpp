#include "codec_impl.h"
std::unique_ptr<ICodec> codec_u64(const CodecCfg& c)
{
    auto r = make_nf4<uint64_t>(c);
    if (!r)
        r = make_gf2<uint64_t>(c);
    return r ? std::move(r) : make_gfp<uint64_t>(c);
}

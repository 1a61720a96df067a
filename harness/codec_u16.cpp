#include "codec_impl.h"
std::unique_ptr<ICodec> codec_u16(const CodecCfg& c)
{
    return make_fnt<uint16_t>(c);
}

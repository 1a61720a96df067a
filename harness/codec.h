// One codec instance of the library behind a type-independent interface.
#pragma once
#include "common.h"
#include <iosfwd>

struct PropList {
    std::vector<std::pair<uint64_t, uint32_t>> v;
};

struct Counters {
    uint64_t nenc, ndec, cenc, cdec, uenc, udec;
};

struct ICodec {
    virtual ~ICodec() {}
    virtual unsigned n_outputs() = 0;
    virtual unsigned real_outputs() = 0;
    virtual unsigned code_len() = 0;
    virtual unsigned fft_len() = 0;
    virtual h::u128 card() = 0;
    virtual Counters counters() = 0;
    virtual void reset(bool enc) = 0;
    // properties kept by the caller and given to the library as is
    struct Props {
        virtual ~Props() {}
        virtual PropList get(unsigned i) const = 0;
        virtual void set(unsigned i, const PropList&) = 0;
        virtual std::string text(unsigned i) const = 0;
        virtual void read(unsigned i, const std::string& text) = 0;
        virtual std::unique_ptr<Props> clone() const = 0;
    };
    virtual std::unique_ptr<Props> new_props(unsigned n) = 0;
    virtual void enc_streams(
        bool vertical,
        const std::vector<std::istream*>& in,
        std::vector<std::ostream*>& outs,
        Props& props) = 0;
    virtual bool dec_streams(
        bool vertical,
        const std::vector<std::istream*>& data,
        const std::vector<std::istream*>& par,
        Props& props,
        std::vector<std::ostream*>& outs) = 0;
    virtual void enc_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        Props& props,
        std::vector<bool>& wanted,
        size_t len) = 0;
    // word by word or packet by packet, at any offset
    virtual void enc_raw(
        bool packets,
        uint64_t base,
        const std::vector<std::string>& in,
        std::vector<std::string>& out,
        Props& props) = 0;
    struct RawDec {
        virtual ~RawDec() {}
        // decodes word or packet x; false after the last one
        virtual bool step(size_t x, std::vector<std::string>& out) = 0;
    };
    // frags: the fragments used and their contents, in increasing order
    virtual std::unique_ptr<RawDec> dec_raw(
        bool packets,
        uint64_t base,
        const std::vector<std::pair<unsigned, std::string>>& frags,
        Props& props) = 0;
    virtual bool dec_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        Props& props,
        std::vector<int>& missing,
        std::vector<bool>& wanted,
        size_t len) = 0;
};

struct CodecCfg {
    std::string kind;
    int tbits;
    unsigned ws, k, m;
    size_t pkt;
};

typedef std::unique_ptr<ICodec> (*CodecFactory)(const CodecCfg&);
std::unique_ptr<ICodec> codec_u16(const CodecCfg&);
std::unique_ptr<ICodec> codec_u32(const CodecCfg&);
std::unique_ptr<ICodec> codec_u64(const CodecCfg&);
std::unique_ptr<ICodec> codec_u128(const CodecCfg&);

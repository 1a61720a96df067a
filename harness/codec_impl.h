// Binding of ICodec to the public interface of quadiron::fec::FecCode<T>.
#pragma once
#include "codec.h"
#include <sstream>
#include <quadiron.h>

namespace q = quadiron;

struct PropsImpl : ICodec::Props {
    std::vector<q::Properties> v;
    PropList get(unsigned i) const override
    {
        PropList l;
        for (auto const& p : v[i].get_map())
            l.v.push_back({p.first, p.second});
        return l;
    }
    void set(unsigned i, const PropList& l) override
    {
        v[i].clear();
        for (auto const& p : l.v)
            v[i].add(p.first, p.second);
    }
    std::string text(unsigned i) const override
    {
        std::ostringstream os;
        os << v[i];
        return os.str();
    }
    void read(unsigned i, const std::string& t) override
    {
        std::istringstream is(t);
        is >> v[i];
    }
    std::unique_ptr<Props> clone() const override
    {
        auto p = std::unique_ptr<PropsImpl>(new PropsImpl);
        p->v = v;
        return std::unique_ptr<Props>(p.release());
    }
};

template <typename T>
T word_at(const std::string& s, size_t i, unsigned ws)
{
    T v = 0;
    if ((i + 1) * ws <= s.size())
        memcpy(&v, s.data() + i * ws, ws);
    return v;
}
template <typename T>
void add_word(std::string& s, const T& v, unsigned ws)
{
    s.append(reinterpret_cast<const char*>(&v), ws);
}

template <typename T>
struct RawDecT : ICodec::RawDec {
    q::fec::FecCode<T>& f;
    bool packets;
    uint64_t base;
    std::vector<std::string> in;
    std::vector<q::Properties>& props;
    size_t n; // words
    q::vec::Vector<T> ids;
    std::unique_ptr<q::vec::Vector<T>> words, output;
    std::unique_ptr<q::vec::Buffers<T>> wordsb, outputb;
    std::unique_ptr<q::fec::DecodeContext<T>> ctx;

    RawDecT(
        q::fec::FecCode<T>& f,
        bool packets,
        uint64_t base,
        const std::vector<std::pair<unsigned, std::string>>& frags,
        std::vector<q::Properties>& props)
        : f(f), packets(packets), base(base), props(props),
          ids(f.get_gf(), f.n_data)
    {
        bool sys = f.type == q::fec::FecType::SYSTEMATIC;
        for (unsigned i = 0; i < f.n_data; i++) {
            unsigned id = frags[i].first;
            if (sys && id < f.n_data)
                f.decode_add_data(i, id);
            else
                f.decode_add_parities(i, sys ? id - f.n_data : id);
            ids.set(i, id);
            in.push_back(frags[i].second);
        }
        f.decode_build();
        n = in[0].size() / f.word_size;
        if (packets) {
            wordsb = std::make_unique<q::vec::Buffers<T>>(
                f.n_data, f.pkt_size);
            outputb = std::make_unique<q::vec::Buffers<T>>(
                f.n_data, f.pkt_size);
            ctx = f.init_context_dec(ids, props, f.pkt_size, outputb.get());
        } else {
            words = std::make_unique<q::vec::Vector<T>>(
                f.get_gf(), sys ? f.n_data : f.code_len);
            output = std::make_unique<q::vec::Vector<T>>(f.get_gf(), f.n_data);
            ctx = f.init_context_dec(ids, props);
        }
    }
    bool step(size_t x, std::vector<std::string>& out) override
    {
        const unsigned ws = f.word_size;
        const size_t w = packets ? f.pkt_size : 1;
        if (x * w >= n)
            return false;
        const off_t at = base + x * w;
        if (packets) {
            for (unsigned i = 0; i < f.n_data; i++)
                for (size_t j = 0; j < w; j++)
                    wordsb->get(i)[j] = word_at<T>(in[i], x * w + j, ws);
            f.decode(*ctx, *outputb, props, at, *wordsb);
            for (unsigned i = 0; i < f.n_data; i++)
                for (size_t j = 0; j < w && x * w + j < n; j++)
                    add_word(out[i], outputb->get(i)[j], ws);
        } else {
            words->zero_fill();
            for (unsigned i = 0; i < f.n_data; i++)
                words->set(i, word_at<T>(in[i], x, ws));
            f.decode(*ctx, *output, props, at, *words);
            for (unsigned i = 0; i < f.n_data; i++)
                add_word(out[i], output->get(i), ws);
        }
        return true;
    }
};

template <typename T>
struct CodecT : ICodec {
    std::unique_ptr<q::fec::FecCode<T>> f;
    unsigned n_outputs() override { return f->n_outputs; }
    unsigned real_outputs() override
    {
        return static_cast<unsigned>(f->get_n_outputs());
    }
    unsigned code_len() override { return f->code_len; }
    unsigned fft_len() override { return static_cast<unsigned>(f->n); }
    h::u128 card() override
    {
        return static_cast<h::u128>(f->get_gf().card());
    }
    Counters counters() override
    {
        return {f->n_encode_ops,
                f->n_decode_ops,
                f->total_encode_cycles,
                f->total_decode_cycles,
                f->total_enc_usec,
                f->total_dec_usec};
    }
    void reset(bool enc) override
    {
        if (enc)
            f->reset_stats_enc();
        else
            f->reset_stats_dec();
    }
    std::unique_ptr<Props> new_props(unsigned n) override
    {
        auto p = std::unique_ptr<PropsImpl>(new PropsImpl);
        p->v.resize(n);
        return std::unique_ptr<Props>(p.release());
    }
    static std::vector<q::Properties>& P(Props& p)
    {
        return static_cast<PropsImpl&>(p).v;
    }
    void enc_streams(
        bool vertical,
        const std::vector<std::istream*>& in,
        std::vector<std::ostream*>& outs,
        Props& props) override
    {
        if (vertical)
            f->encode_streams_vertical(in, outs, P(props));
        else
            f->encode_streams_horizontal(in, outs, P(props));
    }
    bool dec_streams(
        bool vertical,
        const std::vector<std::istream*>& data,
        const std::vector<std::istream*>& par,
        Props& props,
        std::vector<std::ostream*>& outs) override
    {
        if (vertical)
            return f->decode_streams_vertical(data, par, P(props), outs);
        return f->decode_streams_horizontal(data, par, P(props), outs);
    }
    void enc_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        Props& props,
        std::vector<bool>& wanted,
        size_t len) override
    {
        f->encode_blocks_vertical(data, par, P(props), wanted, len);
    }
    void enc_raw(
        bool packets,
        uint64_t base,
        const std::vector<std::string>& in,
        std::vector<std::string>& out,
        Props& props) override
    {
        const unsigned ws = f->word_size;
        const size_t n = in[0].size() / ws;
        if (packets) {
            q::vec::Buffers<T> words(f->n_data, f->pkt_size);
            q::vec::Buffers<T> output(f->get_n_outputs(), f->pkt_size);
            for (size_t x = 0; x < n; x += f->pkt_size) {
                for (unsigned i = 0; i < f->n_data; i++)
                    for (size_t j = 0; j < f->pkt_size; j++)
                        words.get(i)[j] = word_at<T>(in[i], x + j, ws);
                f->encode(output, P(props), off_t(base + x), words);
                for (unsigned i = 0; i < f->n_outputs; i++)
                    for (size_t j = 0; j < f->pkt_size && x + j < n; j++)
                        add_word(out[i], output.get(i)[j], ws);
            }
        } else {
            q::vec::Vector<T> words(f->get_gf(), f->n_data);
            q::vec::Vector<T> output(f->get_gf(), f->get_n_outputs());
            for (size_t x = 0; x < n; x++) {
                for (unsigned i = 0; i < f->n_data; i++)
                    words.set(i, word_at<T>(in[i], x, ws));
                f->encode(output, P(props), off_t(base + x), words);
                for (unsigned i = 0; i < f->n_outputs; i++)
                    add_word(out[i], output.get(i), ws);
            }
        }
    }
    std::unique_ptr<RawDec> dec_raw(
        bool packets,
        uint64_t base,
        const std::vector<std::pair<unsigned, std::string>>& frags,
        Props& props) override
    {
        return std::unique_ptr<RawDec>(
            new RawDecT<T>(*f, packets, base, frags, P(props)));
    }
    bool dec_blocks(
        std::vector<uint8_t*>& data,
        std::vector<uint8_t*>& par,
        Props& props,
        std::vector<int>& missing,
        std::vector<bool>& wanted,
        size_t len) override
    {
        return f->decode_blocks_vertical(
            data, par, P(props), missing, wanted, len);
    }
};

template <typename T, typename C, typename... A>
std::unique_ptr<ICodec> wrap(A... a)
{
    auto c = std::unique_ptr<CodecT<T>>(new CodecT<T>);
    c->f = std::unique_ptr<q::fec::FecCode<T>>(new C(a...));
    return std::unique_ptr<ICodec>(c.release());
}

template <typename T>
std::unique_ptr<ICodec> make_fnt(const CodecCfg& c)
{
    if (c.kind == "fnts")
        return wrap<T, q::fec::RsFnt<T>>(
            q::fec::FecType::SYSTEMATIC, c.ws, c.k, c.m, c.pkt);
    if (c.kind == "fntn")
        return wrap<T, q::fec::RsFnt<T>>(
            q::fec::FecType::NON_SYSTEMATIC, c.ws, c.k, c.m, c.pkt);
    return nullptr;
}
template <typename T>
std::unique_ptr<ICodec> make_nf4(const CodecCfg& c)
{
    if (c.kind == "nf4")
        return wrap<T, q::fec::RsNf4<T>>(c.ws, c.k, c.m, c.pkt);
    return nullptr;
}
template <typename T>
std::unique_ptr<ICodec> make_gf2(const CodecCfg& c)
{
    if (c.kind == "g2v")
        return wrap<T, q::fec::RsGf2n<T>>(
            c.ws, c.k, c.m, q::fec::RsMatrixType::VANDERMONDE);
    if (c.kind == "g2c")
        return wrap<T, q::fec::RsGf2n<T>>(
            c.ws, c.k, c.m, q::fec::RsMatrixType::CAUCHY);
    if (c.kind == "g2f")
        return wrap<T, q::fec::RsGf2nFft<T>>(c.ws, c.k, c.m);
    if (c.kind == "g2a")
        return wrap<T, q::fec::RsGf2nFftAdd<T>>(c.ws, c.k, c.m);
    return nullptr;
}
template <typename T>
std::unique_ptr<ICodec> make_gfp(const CodecCfg& c)
{
    if (c.kind == "gpf")
        return wrap<T, q::fec::RsGfpFft<T>>(c.ws, c.k, c.m);
    return nullptr;
}

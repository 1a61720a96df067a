// Interpreter of codec scripts (quadiron::fec::FecCode). See DESIGN.md.
#include "codec.h"
#include "data.h"
#include <algorithm>
#include <sstream>
using namespace h;

struct Obj {
    CodecCfg cfg;
    std::string d;
    unsigned code_len = 0, nout = 0;
    bool sys = false;
    std::vector<std::string> out; // payload of each output
    std::vector<PropList> props;
    std::vector<bool> want;
};

static std::string props_json(const PropList& l)
{
    std::string s = "[";
    for (size_t i = 0; i < l.v.size(); i++) {
        s += (i ? ",[" : "[")
             + (l.v[i].first >> 30 ? "-1" : std::to_string(l.v[i].first)) + ","
             + std::to_string(l.v[i].second) + "]";
    }
    return s + "]";
}

// An interface of the library: sh, sv streams, bl blocks; wd:BASE and pk:BASE
// words and packets one by one, the first one at offset BASE.
struct Api {
    std::string name;
    uint64_t base = 0;
    explicit Api(const std::string& s) : name(s.substr(0, 2))
    {
        if (s.size() > 3)
            base = parse_u128(s.substr(3));
    }
    bool raw() const { return name == "wd" || name == "pk"; }
};

static PropList moved(PropList l, uint64_t by)
{
    for (auto& p : l.v)
        p.first += by;
    return l;
}

static std::vector<bool> bits(const std::string& s)
{
    std::vector<bool> v;
    for (char c : s)
        v.push_back(c == '1');
    return v;
}

struct CodecInterp : Interp, DataCmds {
    std::map<std::string, std::unique_ptr<ICodec>> codecs;
    std::map<std::string, CodecCfg> cfgs;
    std::map<std::string, Obj> objs;
    uint64_t opno = 0;

    static bool is_sys(const std::string& kind)
    {
        return kind == "fnts" || kind == "g2v" || kind == "g2c";
    }

    ICodec& C(const std::string& c)
    {
        auto it = codecs.find(c);
        if (it == codecs.end())
            throw std::logic_error("script: no codec " + c);
        return *it->second;
    }

    void run(const Args& a) override
    {
        opno++;
        const std::string& op = a[0];
        if (op == "codec")
            codec(a);
        else if (op == "drop")
            codecs.erase(a[1]);
        else if (op == "data")
            data(a);
        else if (op == "poke")
            poke(a);
        else if (op == "fill")
            fill(a);
        else if (op == "show")
            show(a);
        else if (op == "enc")
            enc(a);
        else if (op == "dec")
            dec(a);
        else if (op == "decs")
            decs(a);
        else if (op == "cols")
            cols(a);
        else if (op == "stats")
            stats(a);
        else if (op == "reset") {
            C(a[1]).reset(a[2] == "enc");
            emit(J("reset").str("c", a[1]).str("dir", a[2]));
        } else
            throw std::logic_error("script: unknown command " + op);
    }

    // codec c kind tbits ws k m pkt
    void codec(const Args& a)
    {
        CodecCfg f;
        f.kind = a[2];
        f.tbits = I(a[3]);
        f.ws = I(a[4]);
        f.k = I(a[5]);
        f.m = I(a[6]);
        f.pkt = I(a[7]);
        CodecFactory mk = f.tbits == 16   ? codec_u16
                          : f.tbits == 32 ? codec_u32
                          : f.tbits == 64 ? codec_u64
                                          : codec_u128;
        std::unique_ptr<ICodec> c = mk(f);
        if (!c)
            throw std::logic_error("script: no such codec");
        emit(J("new")
                 .str("c", a[1])
                 .str("kind", f.kind)
                 .num("t", f.tbits)
                 .num("ws", f.ws)
                 .num("k", f.k)
                 .num("m", f.m)
                 .num("pkt", f.pkt)
                 .num("sys", is_sys(f.kind))
                 .num("nout", c->n_outputs())
                 .num("clen", c->code_len())
                 .num("rout", c->real_outputs())
                 .num("n", c->fft_len())
                 .raw("card", limbs(c->card(), 8)));
        codecs[a[1]] = std::move(c);
        cfgs[a[1]] = f;
    }

    void counters(J& j, const std::string& c)
    {
        Counters k = C(c).counters();
        j.num("nenc", k.nenc).num("ndec", k.ndec);
    }
    void stats(const Args& a)
    {
        J j("stats");
        j.str("c", a[1]);
        Counters k = C(a[1]).counters();
        j.num("nenc", k.nenc).num("ndec", k.ndec);
        // totals are measures: only whether they are zero is observable
        j.num("ez", k.cenc == 0 && k.uenc == 0);
        j.num("dz", k.cdec == 0 && k.udec == 0);
        emit(j);
    }

    // enc c d o api want [place] [stale]
    void enc(const Args& a)
    {
        ICodec& c = C(a[1]);
        Data& d = datas.at(a[2]);
        const CodecCfg& f = cfgs.at(a[1]);
        const Api raw(a[4]);
        const std::string& api = raw.name;
        std::vector<bool> want = bits(a[5]);
        int place = a.size() > 6 ? I(a[6]) : 0;
        bool stale = a.size() > 7 && I(a[7]);
        bool nullp = a.size() > 8 && I(a[8]);
        unsigned nout = c.n_outputs();
        if (want.size() != nout || d.frag.size() != f.k)
            throw std::logic_error("script: bad enc");
        Obj o;
        o.cfg = f;
        o.d = a[2];
        o.code_len = c.code_len();
        o.nout = nout;
        o.sys = is_sys(f.kind);
        o.want = want;
        std::unique_ptr<ICodec::Props> props = c.new_props(nout);
        if (stale && !raw.raw()) { // what an earlier use of the same vector left
            Rng r(opno);
            for (unsigned i = 0; i < nout; i++) {
                PropList l;
                l.v.push_back({r.below(7), 1});
                l.v.push_back({1000 + r.below(7), 1});
                props->set(i, l);
            }
        }
        std::vector<std::string> outd(nout), pre(nout);
        bool din = true, edges = true;
        if (raw.raw()) {
            c.enc_raw(api == "pk", raw.base, d.frag, outd, *props);
            for (unsigned i = 0; i < nout; i++)
                if (!want[i])
                    outd[i].clear();
        } else if (api == "bl") {
            std::vector<GBuf> db, pb(nout);
            std::vector<uint8_t*> dp, pp(nout, nullptr);
            for (unsigned i = 0; i < f.k; i++) {
                db.emplace_back(d.len, place);
                db.back().set(d.frag[i]);
                dp.push_back(db.back().p);
            }
            Rng r(opno * 77 + 5);
            for (unsigned i = 0; i < nout; i++) {
                if (!want[i] && nullp)
                    continue;
                pb[i].alloc(d.len, place);
                r.fill(pb[i].p, d.len);
                pp[i] = pb[i].p;
                pre[i] = pb[i].str();
            }
            std::vector<bool> w(want);
            c.enc_blocks(dp, pp, *props, w, d.len);
            for (unsigned i = 0; i < f.k; i++) {
                din = din && db[i].str() == d.frag[i];
                edges = edges && db[i].intact();
            }
            for (unsigned i = 0; i < nout; i++) {
                if (!pb[i].p)
                    continue;
                outd[i] = pb[i].str();
                edges = edges && pb[i].intact();
            }
        } else {
            std::vector<std::unique_ptr<std::istringstream>> is;
            std::vector<std::unique_ptr<std::ostringstream>> os;
            std::vector<std::istream*> ip;
            std::vector<std::ostream*> op;
            for (unsigned i = 0; i < f.k; i++) {
                is.emplace_back(new std::istringstream(d.frag[i]));
                ip.push_back(is.back().get());
            }
            for (unsigned i = 0; i < nout; i++) {
                os.emplace_back(want[i] ? new std::ostringstream : nullptr);
                op.push_back(os.back().get());
            }
            c.enc_streams(api == "sv", ip, op, *props);
            for (unsigned i = 0; i < nout; i++)
                if (want[i])
                    outd[i] = os[i]->str();
        }
        std::vector<std::string> dg, pg, pj;
        for (unsigned i = 0; i < nout; i++) {
            dg.push_back(digest(outd[i]));
            pg.push_back(digest(pre[i]));
            o.props.push_back(moved(props->get(i), -raw.base));
            pj.push_back(props_json(o.props.back()));
        }
        o.out = outd;
        objs[a[3]] = o;
        J j("enc");
        j.str("c", a[1]).str("d", a[2]).str("o", a[3]).str("api", api);
        j.num("len", d.len);
        std::vector<int> wi(want.begin(), want.end());
        j.nums("want", wi);
        std::vector<int> ol;
        for (auto const& s : outd)
            ol.push_back(s.size());
        j.nums("olen", ol);
        j.strs("out", dg).strs("pre", pg).raws("props", pj);
        j.num("din", din).num("edges", edges);
        counters(j, a[1]);
        emit(j);
    }

    // dec c o api avail want props place null
    void dec(const Args& a)
    {
        ICodec& c = C(a[1]);
        Obj& o = objs.at(a[2]);
        Data& d = datas.at(o.d);
        const CodecCfg& f = cfgs.at(a[1]);
        const Api raw(a[3]);
        std::vector<bool> av = bits(a[4]), want = bits(a[5]);
        std::string pm = a.size() > 6 ? a[6] : "orig";
        int place = a.size() > 7 ? I(a[7]) : 0;
        bool nullp = a.size() > 8 && I(a[8]);
        int again = a.size() > 9 ? I(a[9]) : 0;
        if (av.size() != o.code_len || want.size() != f.k)
            throw std::logic_error("script: bad dec");
        std::unique_ptr<ICodec::Props> props = c.new_props(o.nout);
        unsigned base = o.sys ? f.k : 0;
        for (unsigned i = 0; i < o.nout; i++) {
            if (!av[base + i] && nullp)
                continue; // properties of absent fragments may be unknown
            PropList l = moved(o.props[i], raw.base);
            if (pm == "shuf") {
                Rng r(opno + i);
                for (size_t x = l.v.size(); x > 1; x--)
                    std::swap(l.v[x - 1], l.v[r.below(x)]);
            } else if (pm == "rev")
                std::reverse(l.v.begin(), l.v.end());
            props->set(i, l);
            if (pm == "text") {
                std::string t = props->text(i);
                props->set(i, PropList());
                props->read(i, t);
            }
        }
        for (int round = 0; round <= again; round++)
            dec_once(a, c, o, d, f, raw, av, want, *props, place, nullp);
    }

    // the k fragments to decode with
    static std::vector<std::pair<unsigned, std::string>>
    chosen(const Obj& o, const Data& d, const std::vector<bool>& av, Rng r)
    {
        unsigned k = o.cfg.k, base = o.sys ? k : 0;
        std::vector<unsigned> ids;
        for (unsigned i = 0; i < o.code_len; i++)
            if (av[i])
                ids.push_back(i);
        if (ids.size() < k)
            throw std::logic_error("script: too few fragments");
        while (ids.size() > k)
            ids.erase(ids.begin() + r.below(ids.size()));
        std::vector<std::pair<unsigned, std::string>> v;
        for (unsigned i : ids)
            v.emplace_back(i, i < base ? d.frag[i] : o.out[i - base]);
        return v;
    }

    // decs c pk|wd:BASE seed  o avail  o avail ...: step by step, in turns
    void decs(const Args& a)
    {
        ICodec& c = C(a[1]);
        const Api raw(a[2]);
        Rng r(uint64_t(I(a[3])));
        struct One {
            std::string o, av;
            Obj* obj;
            std::unique_ptr<ICodec::Props> props;
            std::unique_ptr<ICodec::RawDec> dec;
            std::vector<std::string> out;
            size_t x = 0;
            bool more = true;
        };
        std::vector<One> v;
        for (size_t i = 4; i + 1 < a.size(); i += 2) {
            v.emplace_back();
            One& x = v.back();
            x.o = a[i];
            x.av = a[i + 1];
            x.obj = &objs.at(x.o);
            x.props = c.new_props(x.obj->nout);
            for (unsigned j = 0; j < x.obj->nout; j++)
                x.props->set(j, moved(x.obj->props[j], raw.base));
            x.out.resize(x.obj->cfg.k);
        }
        size_t left = v.size();
        while (left) {
            One& x = v[r.below(v.size())];
            if (!x.more)
                continue;
            if (!x.dec)
                x.dec = c.dec_raw(
                    raw.name == "pk",
                    raw.base,
                    chosen(*x.obj, datas.at(x.obj->d), bits(x.av), r),
                    *x.props);
            x.more = x.dec->step(x.x++, x.out);
            left -= !x.more;
        }
        for (One& x : v) {
            std::vector<bool> av = bits(x.av);
            decoded(
                a[1],
                x.o,
                raw.name,
                datas.at(x.obj->d).len,
                av,
                std::vector<bool>(x.obj->cfg.k, true),
                true,
                x.out,
                std::vector<std::string>(x.out.size()),
                true,
                true,
                true);
        }
    }

    void dec_once(
        const Args& a,
        ICodec& c,
        Obj& o,
        Data& d,
        const CodecCfg& f,
        const Api& raw,
        const std::vector<bool>& av,
        const std::vector<bool>& want,
        ICodec::Props& props,
        int place,
        bool nullp)
    {
        const std::string& api = raw.name;
        const size_t len = d.len;
        unsigned base = o.sys ? f.k : 0;
        std::vector<std::string> outd(f.k), pre(f.k);
        bool in = true, edges = true, ret;
        std::vector<PropList> pb4;
        for (unsigned i = 0; i < o.nout; i++) {
            PropList l = props.get(i);
            std::sort(l.v.begin(), l.v.end());
            pb4.push_back(l);
        }
        if (raw.raw()) {
            auto x = c.dec_raw(
                api == "pk", raw.base, chosen(o, d, av, Rng(opno)), props);
            for (size_t i = 0; x->step(i, outd); i++)
                ;
            for (unsigned i = 0; i < f.k; i++)
                if (!want[i])
                    outd[i].clear();
            ret = true;
        } else if (api == "bl") {
            std::vector<GBuf> db(f.k), pb(o.nout);
            std::vector<uint8_t*> dp(f.k, nullptr), pp(o.nout, nullptr);
            std::vector<int> missing(o.code_len);
            for (unsigned i = 0; i < o.code_len; i++)
                missing[i] = !av[i];
            Rng r(opno * 91 + 3);
            for (unsigned i = 0; i < f.k; i++) {
                bool have = o.sys && av[i];
                if (!have && !want[i] && nullp)
                    continue;
                db[i].alloc(len, place);
                if (have)
                    db[i].set(d.frag[i]);
                else
                    r.fill(db[i].p, len);
                dp[i] = db[i].p;
                pre[i] = db[i].str();
            }
            for (unsigned i = 0; i < o.nout; i++) {
                if (!av[base + i] && nullp)
                    continue;
                pb[i].alloc(len, place);
                if (av[base + i])
                    pb[i].set(o.out[i]);
                else // must not be read
                    mprotect(pb[i].lo, pb[i].hi - pb[i].lo, PROT_NONE);
                pp[i] = pb[i].p;
            }
            std::vector<bool> w(want);
            ret = c.dec_blocks(dp, pp, props, missing, w, len);
            for (unsigned i = 0; i < f.k; i++) {
                if (!dp[i])
                    continue;
                outd[i] = db[i].str();
                edges = edges && db[i].intact();
            }
            for (unsigned i = 0; i < o.nout; i++) {
                if (!pp[i] || !av[base + i])
                    continue;
                in = in && pb[i].str() == o.out[i];
                edges = edges && pb[i].intact();
            }
        } else {
            std::vector<std::unique_ptr<std::istringstream>> is;
            std::vector<std::unique_ptr<std::ostringstream>> os;
            std::vector<std::istream*> di, pi;
            std::vector<std::ostream*> op;
            for (unsigned i = 0; i < f.k; i++) {
                bool have = o.sys && av[i];
                is.emplace_back(
                    have ? new std::istringstream(d.frag[i]) : nullptr);
                di.push_back(is.back().get());
            }
            for (unsigned i = 0; i < o.nout; i++) {
                is.emplace_back(
                    av[base + i] ? new std::istringstream(o.out[i]) : nullptr);
                pi.push_back(is.back().get());
            }
            for (unsigned i = 0; i < f.k; i++) {
                os.emplace_back(want[i] ? new std::ostringstream : nullptr);
                op.push_back(os.back().get());
            }
            ret = c.dec_streams(api == "sv", di, pi, props, op);
            for (unsigned i = 0; i < f.k; i++)
                if (want[i])
                    outd[i] = os[i]->str();
        }
        bool pin = true;
        for (unsigned i = 0; i < o.nout; i++) {
            PropList l = props.get(i);
            std::sort(l.v.begin(), l.v.end());
            pin = pin && l.v == pb4[i].v;
        }
        decoded(a[1], a[2], api, len, av, want, ret, outd, pre, in, edges, pin);
    }

    void decoded(
        const std::string& c,
        const std::string& o,
        const std::string& api,
        size_t len,
        const std::vector<bool>& av,
        const std::vector<bool>& want,
        bool ret,
        const std::vector<std::string>& outd,
        const std::vector<std::string>& pre,
        bool in,
        bool edges,
        bool pin)
    {
        std::vector<std::string> dg, pg;
        std::vector<int> ol;
        for (size_t i = 0; i < outd.size(); i++) {
            dg.push_back(digest(outd[i]));
            pg.push_back(digest(pre[i]));
            ol.push_back(outd[i].size());
        }
        std::vector<int> wi(want.begin(), want.end()),
            ai(av.begin(), av.end());
        J j("dec");
        j.str("c", c).str("o", o).str("api", api).num("len", len);
        j.nums("avail", ai).nums("want", wi).num("ret", ret).nums("olen", ol);
        j.strs("out", dg).strs("pre", pg);
        j.num("din", in).num("edges", edges).num("pin", pin);
        counters(j, c);
        emit(j);
    }

    static std::string word(const std::string& s, unsigned ws, size_t i)
    {
        uint8_t b[16] = {0};
        memcpy(b, s.data() + i * ws, ws);
        if (ws <= 2)
            return std::to_string(b[0] | b[1] << 8);
        std::string o = "[";
        for (unsigned x = 0; x < ws; x += 2)
            o += (x ? "," : "") + std::to_string(b[x] | b[x + 1] << 8);
        return o + "]";
    }
    // cols o first count step
    void cols(const Args& a)
    {
        Obj& o = objs.at(a[1]);
        Data& d = datas.at(o.d);
        unsigned ws = o.cfg.ws;
        size_t n = d.len / ws;
        size_t first = I(a[2]), count = I(a[3]), step = I(a[4]);
        std::vector<std::string> dw, fw;
        std::vector<size_t> at;
        for (size_t i = first; i < n && at.size() < count; i += step) {
            at.push_back(i);
            std::string x = "[", y = "[";
            for (unsigned f = 0; f < o.cfg.k; f++)
                x += (f ? "," : "") + word(d.frag[f], ws, i);
            for (unsigned f = 0; f < o.nout; f++)
                y += (f ? "," : "")
                     + (o.want[f] ? word(o.out[f], ws, i) : std::string("-1"));
            dw.push_back(x + "]");
            fw.push_back(y + "]");
        }
        // marks of each fragment, restricted to the columns shown
        std::vector<std::string> mk;
        for (unsigned f = 0; f < o.nout; f++) {
            std::string s = "[";
            std::vector<std::string> m;
            for (auto const& p : o.props[f].v)
                if (std::binary_search(at.begin(), at.end(), p.first))
                    m.push_back(
                        "[" + std::to_string(p.first) + ","
                        + std::to_string(p.second) + "]");
            for (size_t i = 0; i < m.size(); i++)
                s += (i ? "," : "") + m[i];
            mk.push_back(s + "]");
        }
        std::vector<int> wi(o.want.begin(), o.want.end());
        emit(J("cols")
                 .str("o", a[1])
                 .str("kind", o.cfg.kind)
                 .num("ws", ws)
                 .num("k", o.cfg.k)
                 .num("m", o.cfg.m)
                 .nums("want", wi)
                 .nums("at", at)
                 .raws("d", dw)
                 .raws("f", fw)
                 .raws("marks", mk));
    }
};

int main(int argc, char** argv)
{
    return main_loop(argc, argv, [] {
        return std::unique_ptr<Interp>(new CodecInterp);
    });
}

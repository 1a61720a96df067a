// Interpreter of scripts over the C API (quadiron_fnt32_*) and over the
// metadata header of fragments.
#include "data.h"
#include <algorithm>
#include <quadiron.h>
extern "C" {
#include <quadiron_c.h>
}
using namespace h;
namespace q = quadiron;

struct Inst {
    struct QuadironFnt32* p;
    int ws, k, m, sys;
};
struct Store {
    Inst in; // parameters
    size_t bs, msz;
    std::string d;
    std::vector<std::string> orig, cur; // header and payload
    std::vector<bool> have;
};

static std::string bytes_json(const std::string& s)
{
    std::string o = "[";
    for (size_t i = 0; i < s.size(); i++)
        o += (i ? "," : "") + std::to_string((uint8_t)s[i]);
    return o + "]";
}

struct CapiInterp : Interp, DataCmds {
    std::map<std::string, Inst> insts;
    std::map<std::string, Store> stores;
    uint64_t opno = 0;

    ~CapiInterp()
    {
        for (auto& i : insts)
            if (i.second.p)
                quadiron_fnt32_delete(i.second.p);
    }

    void run(const Args& a) override
    {
        opno++;
        const std::string& op = a[0];
        // an encoding that failed leaves nothing to work on
        if ((op == "lose" || op == "find" || op == "corrupt")
            && !stores.count(a[1]))
            return;
        if ((op == "rec" || op == "dec") && !stores.count(a[2]))
            return;
        if (op == "inst")
            inst(a);
        else if (op == "del") {
            quadiron_fnt32_delete(insts.at(a[1]).p);
            insts.erase(a[1]);
        } else if (op == "msize")
            emit(J("msize").num("bs", I(a[2])).num(
                "r",
                quadiron_fnt32_get_metadata_size(
                    insts.at(a[1]).p, I(a[2]))));
        else if (op == "data")
            data(a);
        else if (op == "poke")
            poke(a);
        else if (op == "fill")
            fill(a);
        else if (op == "show")
            show(a);
        else if (op == "enc")
            enc(a);
        else if (op == "lose") {
            stores.at(a[1]).have[I(a[2])] = false;
            emit(J("lose").str("s", a[1]).num("i", I(a[2]) + 1));
        } else if (op == "find") {
            Store& s = stores.at(a[1]);
            s.have[I(a[2])] = true;
            s.cur[I(a[2])] = s.orig[I(a[2])];
            emit(J("find").str("s", a[1]).num("i", I(a[2]) + 1));
        } else if (op == "corrupt")
            corrupt(a);
        else if (op == "rec")
            rec(a);
        else if (op == "dec")
            dec(a);
        else if (op == "ser")
            ser(a);
        else if (op == "deser")
            deser(a);
        else
            throw std::logic_error("script: unknown command " + op);
    }

    // inst i ws k m sys
    void inst(const Args& a)
    {
        Inst n;
        n.ws = I(a[2]);
        n.k = I(a[3]);
        n.m = I(a[4]);
        n.sys = I(a[5]);
        n.p = quadiron_fnt32_new(n.ws, n.k, n.m, n.sys);
        emit(J("inst")
                 .str("i", a[1])
                 .num("ws", n.ws)
                 .num("k", n.k)
                 .num("m", n.m)
                 .num("sys", n.sys)
                 .num("ok", n.p != nullptr));
        if (n.p)
            insts[a[1]] = n;
    }

    static std::string frag(const std::string& b, size_t msz)
    {
        return "[" + J::quote("x" + hex(b.data(), msz)) + ","
               + J::quote(digest(b.data() + msz, b.size() - msz)) + "]";
    }

    // enc i d s wantbits [place] [nullp]
    void enc(const Args& a)
    {
        Inst& n = insts.at(a[1]);
        Data& d = datas.at(a[2]);
        std::string wb = a[4];
        int place = a.size() > 5 ? I(a[5]) : 0;
        bool nullp = a.size() > 6 && I(a[6]);
        Store s;
        s.in = n;
        s.bs = d.len;
        s.d = a[2];
        s.msz = quadiron_fnt32_get_metadata_size(n.p, s.bs);
        unsigned nout = n.sys ? n.m : n.k + n.m;
        unsigned len = n.k + n.m;
        if (wb.size() != nout || d.frag.size() != (size_t)n.k)
            throw std::logic_error("script: bad enc");
        // fragment of each output
        unsigned base = n.sys ? n.k : 0;
        std::vector<GBuf> b(len);
        std::vector<uint8_t*> p(len, nullptr);
        std::vector<int> want(nout);
        std::vector<std::string> pre(len);
        Rng r(opno * 131 + 7);
        for (unsigned i = 0; i < nout; i++)
            want[i] = wb[i] == '1' ? 1 + (opno % 3) : 0;
        for (unsigned i = 0; i < len; i++) {
            if (i >= (unsigned)n.k && nullp && !want[i - base])
                continue;
            b[i].alloc(s.msz + s.bs, place);
            r.fill(b[i].p, b[i].len);
            if (i < (unsigned)n.k)
                memcpy(b[i].p + s.msz, d.frag[i].data(), s.bs);
            p[i] = b[i].p;
            pre[i] = b[i].str();
        }
        // what the C++ interface makes of the same data
        q::fec::RsFnt<uint32_t> fec(
            n.sys ? q::fec::FecType::SYSTEMATIC
                  : q::fec::FecType::NON_SYSTEMATIC,
            n.ws,
            n.k,
            n.m,
            16 + opno % 7);
        std::vector<std::vector<uint8_t>> rb(nout), db;
        std::vector<uint8_t*> rp(nout), dp;
        for (auto const& f : d.frag) {
            db.push_back(std::vector<uint8_t>(f.begin(), f.end()));
            db.back().push_back(0);
        }
        for (auto& x : db)
            dp.push_back(x.data());
        for (unsigned i = 0; i < nout; i++) {
            rb[i].resize(s.bs + 1);
            rp[i] = rb[i].data();
        }
        std::vector<q::Properties> props(nout);
        std::vector<bool> all(nout, true);
        fec.encode_blocks_vertical(dp, rp, props, all, s.bs);

        int ret = quadiron_fnt32_encode(
            n.p, p.data(), p.data() + n.k, want.data(), s.bs);
        bool edges = true;
        std::vector<std::string> fr, fp, rj, hb;
        for (unsigned i = 0; i < len; i++) {
            edges = edges && (!p[i] || b[i].intact());
            std::string c = p[i] ? b[i].str() : std::string(s.msz, '\0');
            fr.push_back(frag(c, s.msz));
            fp.push_back(
                frag(p[i] ? pre[i] : std::string(s.msz, '\0'), s.msz));
            hb.push_back(bytes_json(c.substr(0, s.msz)));
            s.cur.push_back(c);
            s.have.push_back(true);
        }
        for (unsigned i = 0; i < nout; i++) {
            std::string l = "[";
            bool f = true;
            for (auto const& x : props[i].get_map()) {
                l += (f ? "" : ",") + limbs(x.first, 2);
                f = false;
            }
            rj.push_back(
                "{\"p\":" + J::quote(digest(rb[i].data(), s.bs))
                + ",\"at\":" + l + "]}");
        }
        s.orig = s.cur;
        J j("enc");
        j.str("i", a[1]).str("d", a[2]).str("s", a[3]).num("ret", ret);
        for (auto& w : want)
            w = w != 0;
        j.nums("want", want).num("bs", s.bs).num("msz", s.msz);
        j.raws("frag", fr).raws("pre", fp).raws("hb", hb).raws("ref", rj);
        j.num("edges", edges);
        emit(j);
        if (ret == 0)
            stores[a[3]] = s;
        else
            stores.erase(a[3]);
    }

    // corrupt s i magic|count|max|n
    void corrupt(const Args& a)
    {
        Store& s = stores.at(a[1]);
        std::string& c = s.cur[I(a[2])];
        Rng r(opno);
        uint32_t cap = s.msz / 4 - 2, v;
        if (a[3] == "magic")
            c[r.below(4)] ^= 1 << r.below(8);
        else {
            v = a[3] == "count"  ? cap + 1 + r.below(9)
                : a[3] == "max"  ? 0xffffffffu - r.below(3)
                : a[3] == "wrap" ? 0x40000000u * (1 + r.below(3)) + r.below(4)
                                 : cap + 1;
            for (int x = 0; x < 4; x++)
                c[4 + x] = v >> (24 - 8 * x);
        }
        emit(J("corrupt").str("s", a[1]).num("i", I(a[2]) + 1));
    }

    struct Bufs {
        std::vector<GBuf> b;
        std::vector<uint8_t*> p;
        std::vector<std::string> pre;
        std::vector<int> missing;
    };
    // what must not be touched: null, inaccessible
    void place(Store& s, Bufs& x, const std::vector<bool>& out, int pl, int nl)
    {
        unsigned len = s.in.k + s.in.m;
        x.b.resize(len);
        x.p.assign(len, nullptr);
        x.pre.resize(len);
        x.missing.resize(len);
        Rng r(opno * 17 + 3);
        for (unsigned i = 0; i < len; i++) {
            x.missing[i] = s.have[i] ? 0 : 1;
            if (!s.have[i] && !out[i] && nl)
                continue;
            x.b[i].alloc(s.msz + s.bs, pl);
            x.p[i] = x.b[i].p;
            if (s.have[i])
                x.b[i].set(s.cur[i]);
            else
                r.fill(x.b[i].p, x.b[i].len);
            x.pre[i] = x.b[i].str();
            if (!s.have[i] && !out[i])
                mprotect(x.b[i].lo, x.b[i].hi - x.b[i].lo, PROT_NONE);
        }
    }
    void after(Store& s, Bufs& x, const std::vector<bool>& out, J& j)
    {
        std::vector<std::string> fr, fp;
        bool edges = true;
        for (size_t i = 0; i < x.p.size(); i++) {
            if (!s.have[i] && !out[i]) { // not accessible
                fr.push_back("[\"\",\"\"]");
                fp.push_back("[\"\",\"\"]");
                continue;
            }
            edges = edges && x.b[i].intact();
            fr.push_back(frag(x.b[i].str(), s.msz));
            fp.push_back(frag(x.pre[i], s.msz));
        }
        j.raws("frag", fr).raws("pre", fp).num("edges", edges);
    }

    // rec i s dest [place] [null]
    void rec(const Args& a)
    {
        Inst& n = insts.at(a[1]);
        Store& s = stores.at(a[2]);
        unsigned dest = I(a[3]);
        std::vector<bool> out(s.have.size(), false);
        out[dest] = true;
        Bufs x;
        place(s, x, out, a.size() > 4 ? I(a[4]) : 0, a.size() > 5 && I(a[5]));
        int ret = quadiron_fnt32_reconstruct(
            n.p,
            x.p.data(),
            x.p.data() + n.k,
            x.missing.data(),
            dest,
            s.bs);
        J j("rec");
        j.str("i", a[1]).str("s", a[2]).num("dest", dest + 1).num("ret", ret);
        after(s, x, out, j);
        emit(j);
        if (ret == 0) {
            s.cur[dest] = x.b[dest].str();
            s.have[dest] = true;
        }
    }

    // dec i s [place] [null] [keep]
    void dec(const Args& a)
    {
        Inst& n = insts.at(a[1]);
        Store& s = stores.at(a[2]);
        std::vector<bool> out(s.have.size(), false);
        for (int i = 0; i < n.k; i++)
            out[i] = true;
        Bufs x;
        place(s, x, out, a.size() > 3 ? I(a[3]) : 0, a.size() > 4 && I(a[4]));
        bool keep = a.size() > 5 && I(a[5]) && n.sys;
        int ret = quadiron_fnt32_decode(
            n.p, x.p.data(), x.p.data() + n.k, x.missing.data(), s.bs);
        J j("dec");
        j.str("i", a[1]).str("s", a[2]).num("ret", ret).num("keep", keep);
        after(s, x, out, j);
        emit(j);
        if (ret == 0 && keep)
            for (int i = 0; i < n.k; i++) {
                s.cur[i] = x.b[i].str();
                s.have[i] = true;
            }
    }

    // ser n_dwords place pos...
    void ser(const Args& a)
    {
        unsigned nd = I(a[1]);
        int pl = I(a[2]);
        q::Properties p;
        std::string l = "[";
        for (size_t i = 3; i < a.size(); i++) {
            u128 v = parse_u128(a[i]);
            p.add(static_cast<size_t>(v), 1);
            l += (i > 3 ? "," : "") + limbs(v, 2);
        }
        GBuf b(nd * 4, pl);
        Rng r(opno);
        r.fill(b.p, b.len);
        std::string pre = b.str();
        int ret = p.fnt_serialize(reinterpret_cast<uint32_t*>(b.p), nd);
        emit(J("ser")
                 .num("nd", nd)
                 .raw("at", l + "]")
                 .num("ret", ret)
                 .raw("pre", bytes_json(pre))
                 .raw("h", bytes_json(b.str()))
                 .num("edges", b.intact())
                 .num("cnt", p.get_map().size()));
    }

    // deser place hexbytes|-
    void deser(const Args& a)
    {
        std::string c = a[2] == "-" ? "" : unhex(a[2]);
        unsigned nd = c.size() / 4;
        GBuf b(nd * 4, I(a[1]));
        b.set(c);
        q::Properties p;
        int ret =
            p.fnt_deserialize(reinterpret_cast<const uint32_t*>(b.p), nd);
        std::string l = "[";
        bool f = true;
        bool marks = true;
        size_t n = 0;
        for (auto const& x : p.get_map()) {
            if (n++ < 64)
                l += (f ? "" : ",") + limbs(x.first, 2);
            f = false;
            marks = marks && x.second == 1 && (x.first >> 32) == 0;
        }
        emit(J("deser")
                 .num("nd", nd)
                 .raw("h", bytes_json(c))
                 .num("ret", ret)
                 .raw("at", l + "]")
                 .num("cnt", n)
                 .num("marks", marks)
                 .num("same", b.str() == c && b.intact()));
    }
};

int main(int argc, char** argv)
{
    return main_loop(argc, argv, [] {
        return std::unique_ptr<Interp>(new CapiInterp);
    });
}

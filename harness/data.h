// Contents of data fragments, made by the commands data and poke.
#pragma once
#include "common.h"

struct Data {
    size_t len = 0;
    std::vector<std::string> frag;
};

struct DataCmds {
    std::map<std::string, Data> datas;

    // data d k len seed mode [ws]
    void data(const h::Args& a)
    {
        Data d;
        unsigned k = h::I(a[2]);
        d.len = h::I(a[3]);
        h::Rng r(h::I(a[4]));
        const std::string& mode = a[5];
        for (unsigned i = 0; i < k; i++) {
            std::string s(d.len, '\0');
            uint8_t* p = reinterpret_cast<uint8_t*>(&s[0]);
            if (mode == "ff")
                memset(p, 0xff, d.len);
            else if (mode == "rnd")
                r.fill(p, d.len);
            else if (mode == "sparse") { // mostly zeros
                for (size_t j = 0; j < d.len; j++)
                    if (r.below(8) == 0)
                        p[j] = r.next() >> 9;
            } else if (mode == "mix") { // runs of extreme values
                size_t j = 0;
                while (j < d.len) {
                    size_t n = 1 + r.below(9);
                    unsigned what = r.below(4);
                    for (; n && j < d.len; n--, j++)
                        p[j] = what == 0   ? 0
                               : what == 1 ? 0xff
                               : what == 2 ? (j & 1 ? 0x00 : 0x01)
                                           : r.next() >> 9;
                }
            } // else zeros
            d.frag.push_back(s);
        }
        datas[a[1]] = d;
    }
    void poke(const h::Args& a)
    {
        Data& d = datas.at(a[1]);
        std::string& s = d.frag.at(h::I(a[2]));
        std::string b = h::unhex(a[4]);
        size_t off = h::I(a[3]);
        if (off + b.size() > s.size())
            throw std::logic_error("script: poke outside");
        s.replace(off, b.size(), b);
    }
    // fill d fragment hex: the bytes repeated over the whole fragment
    void fill(const h::Args& a)
    {
        std::string& s = datas.at(a[1]).frag.at(h::I(a[2]));
        std::string b = h::unhex(a[3]);
        for (size_t i = 0; i < s.size(); i++)
            s[i] = b[i % b.size()];
    }
    void show(const h::Args& a)
    {
        Data& d = datas.at(a[1]);
        std::vector<std::string> v;
        for (auto const& s : d.frag)
            v.push_back(h::digest(s));
        h::emit(h::J("data").str("d", a[1]).num("len", d.len).strs("frag", v));
    }

};

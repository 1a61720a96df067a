------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The codecs of the library as a state machine.  The state is what a user *)
(* can rely on: the instances that exist and their operation counters, the *)
(* data sets, the encoded objects, and `memo`, the fragments each code is  *)
(* known to produce for a given content.  memo is how "the fragments are a *)
(* function of the code and of the data" is stated: the first encoding of  *)
(* a content with a code may return anything, any other one - by any       *)
(* instance, in any state, through any interface, with any packet size, in *)
(* any build - must return the same.  What that function is, is the matter *)
(* of RSCode (events "cols").                                              *)
(*                                                                         *)
(* An action is an operation of the library, its parameters are the        *)
(* arguments and the observed results; it is enabled when the results are  *)
(* the ones the specification permits.  A = {aspects} selects the rules    *)
(* that are enforced, so that each property is decided by its own rules:   *)
(*   rec    at least k fragments: decoding succeeds with the data          *)
(*   fail   fewer: decoding fails, nothing is written                      *)
(*   len    outputs are as long as inputs                                  *)
(*   mem    only wanted outputs are written, inputs unchanged              *)
(*   fun    the fragments are a function (memo)                            *)
(*   words  the fragments are the defining codeword                        *)
(*   marks  properties list exactly the symbols that do not fit            *)
(*   stats  operation counters                                             *)
(*   new    parameters of the instance                                     *)
(***************************************************************************)
EXTENDS RSCode

CONSTANT A                  \* aspects

VARIABLES codecs, datas, objs, memo
cvars == <<codecs, datas, objs, memo>>

On(a) == a \in A
Bit(s) == {i \in DOMAIN s : s[i] = 1}
CeilDiv(a, b) == IF a = 0 THEN 0 ELSE ((a - 1) \div b) + 1

CodecInit ==
    /\ codecs = << >>
    /\ datas = << >>
    /\ objs = << >>
    /\ memo = << >>

(* A function with one more or one changed entry.                          *)
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f

-----------------------------------------------------------------------------
(* p: record with kind, t, ws, k, m, pkt.  o: nout, clen, rout, n          *)
New(c, p, o) ==
    /\ On("new") =>
         /\ o.nout = NOutputs(p.kind, p.k, p.m)
         /\ o.clen = CodeLen(p.kind, p.k, p.m)
         /\ o.rout = RealOutputs(p.kind, p.ws, p.k, p.m)
         /\ p.kind \notin {"g2v", "g2c"} => o.n = CodeLenN(p.kind, p.ws, p.k, p.m)
    /\ codecs' = Put(codecs, c,
                     [kind |-> p.kind, ws |-> p.ws, k |-> p.k, m |-> p.m,
                      pkt |-> p.pkt, sys |-> IsSys(p.kind),
                      nout |-> NOutputs(p.kind, p.k, p.m),
                      nenc |-> 0, ndec |-> 0, ez |-> TRUE, dz |-> TRUE])
    /\ UNCHANGED <<datas, objs, memo>>

NewData(d, len, frags) ==
    /\ datas' = Put(datas, d, [len |-> len, frag |-> frags])
    /\ UNCHANGED <<codecs, objs, memo>>

(* The interfaces: streams, horizontal ("sh") and vertical ("sv"), blocks  *)
(* ("bl"), and words ("wd") and packets ("pk") one by one at the offsets   *)
(* the caller gives, which are not counted.                                *)
Raw(api) == api \in {"wd", "pk"}
\* the words or packets counted, when `before` were
Ops(c, api, len, before) ==
    IF Raw(api) THEN before
    ELSE IF api = "sh" THEN len \div c.ws ELSE CeilDiv(len \div c.ws, c.pkt)

Key(c, d) == <<c.kind, c.ws, c.k, c.m, d.len, d.frag>>

(* Positions of words of the fragment, in increasing order, once each.     *)
Positions(props, n) ==
    \A x \in DOMAIN props :
       /\ 0 <= props[x][1] /\ props[x][1] < n /\ props[x][2] > 0
       /\ x > 1 => props[x-1][1] < props[x][1]

(* r: out, pre (contents of the outputs after and before), props, olen,    *)
(* din (inputs unchanged), edges (nothing outside of the buffers changed), *)
(* nenc, ndec                                                              *)
Encode(cn, dn, on, api, want, r) ==
    LET c == codecs[cn]
        d == datas[dn]
        W == Bit(want)
        key == Key(c, d)
        known == IF Has(memo, key) THEN memo[key] ELSE << >>
        res == TLCEval([i \in W |-> <<r.out[i], r.props[i]>>])
    IN /\ On("len") => \A i \in W : r.olen[i] = d.len
       /\ On("fun") => \A i \in W : Has(known, i) => known[i] = res[i]
       /\ On("mem") => /\ r.din = 1 /\ r.edges = 1
                       /\ \A i \in DOMAIN want \ W : r.out[i] = r.pre[i]
       /\ On("marks") => TLCEval(\A i \in W : Positions(r.props[i], d.len \div c.ws))
       /\ On("stats") => /\ r.nenc = Ops(c, api, d.len, c.nenc)
                         /\ r.ndec = c.ndec
       /\ codecs' = [codecs EXCEPT ![cn].nenc = r.nenc, ![cn].ndec = r.ndec,
                                ![cn].ez = @ /\ Raw(api)]
       /\ memo' = Put(memo, key, known @@ res)
       /\ objs' = Put(objs, on, [kind |-> c.kind, ws |-> c.ws, k |-> c.k,
                                 m |-> c.m, sys |-> c.sys, d |-> d])
       /\ UNCHANGED datas

(* r: ret, out, pre, olen, din, edges, pin (properties unchanged),         *)
(* nenc, ndec                                                              *)
Decode(cn, on, api, avail, want, r) ==
    LET c == codecs[cn]
        o == objs[on]
        W == Bit(want)
        av == Bit(avail)
        allData == o.sys /\ 1..(o.k) \subseteq av
        enough == Cardinality(av) >= o.k
    IN /\ enough /\ ~allData /\ On("rec") =>
            /\ r.ret = 1
            /\ \A i \in W : r.out[i] = o.d.frag[i]
       /\ allData /\ On("fail") => r.ret = 1 /\ r.out = r.pre
       /\ ~enough /\ On("fail") => r.ret = 0 /\ r.out = r.pre
       /\ On("len") => \A i \in W :
              r.olen[i] = IF api # "bl" /\ (allData \/ ~enough) THEN 0
                          ELSE o.d.len
       /\ On("mem") => /\ r.din = 1 /\ r.edges = 1 /\ r.pin = 1
                       /\ \A i \in DOMAIN want \ W : r.out[i] = r.pre[i]
       /\ On("stats") =>
            /\ r.nenc = c.nenc
            /\ IF enough /\ ~allData THEN r.ndec = Ops(c, api, o.d.len, c.ndec)
               ELSE r.ndec \in {0, c.ndec}
       /\ codecs' = [codecs EXCEPT ![cn].nenc = r.nenc, ![cn].ndec = r.ndec,
                                ![cn].dz = @ /\ Raw(api)]
       /\ UNCHANGED <<datas, objs, memo>>

Reset(cn, dir) ==
    /\ codecs' = IF dir = "enc"
                 THEN [codecs EXCEPT ![cn].nenc = 0, ![cn].ez = TRUE]
                 ELSE [codecs EXCEPT ![cn].ndec = 0, ![cn].dz = TRUE]
    /\ UNCHANGED <<datas, objs, memo>>

(* Reading the counters.  ez, dz: the totals of time are zero, as they are *)
(* for sure after a reset.                                                 *)
Stats(cn, r) ==
    /\ On("stats") =>
         /\ r.nenc = codecs[cn].nenc
         /\ r.ndec = codecs[cn].ndec
         /\ codecs[cn].ez => r.ez = 1
         /\ codecs[cn].dz => r.dz = 1
    /\ UNCHANGED cvars

(* Columns of an object: words `d` of the data fragments and `f` of the    *)
(* outputs at the positions `at`, and the properties of each output        *)
(* restricted to these positions.                                          *)
MarksOf(at, f) ==      \* f[x] = [v, mark] for each column x
    LET ks == SelectSeq(Upto(Len(at)), LAMBDA x: f[x].mark # 0)
    IN [x \in 1..Len(ks) |-> <<at[ks[x]], f[ks[x]].mark>>]
Columns(on, want, at, ds, fs, marks, gen) ==
    LET o == objs[on]
    IN /\ On("words") \/ On("marks") =>
            \A i \in Bit(want) :
              LET exp == TLCEval([x \in 1..Len(at) |-> OutWord(o.kind, o.ws, gen[i], ds[x])])
              IN /\ On("words") => \A x \in 1..Len(at) : exp[x].v = fs[x][i]
                 /\ On("marks") => marks[i] = MarksOf(at, exp)
       /\ UNCHANGED cvars
=============================================================================

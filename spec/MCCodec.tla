------------------------------ MODULE MCCodec -------------------------------
(***************************************************************************)
(* Codec with an environment that may return wrong results: the fragments  *)
(* and the return values proposed are arbitrary in a small set, and only   *)
(* what Codec accepts happens.  Checked: what a user gets in any accepted  *)
(* history (Agree and the assertions), i.e. that the rules of    *)
(* Codec imply the properties; and that an ideal library is never refused  *)
(* (Live): the rules are not too strong.                                   *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Kind, K, M, Lens, Vals
All == {"rec", "fail", "len", "mem", "fun", "stats"}

VARIABLE returned
mcvars == <<codecs, datas, objs, memo, returned>>

NOut == NOutputs(Kind, K, M)
Insts == {"a", "b"}
Apis == IF Kind = "fnts" THEN {"sv", "bl"} ELSE {"sh", "bl"}
P(pkt) == [kind |-> Kind, t |-> 32, ws |-> 2, k |-> K, m |-> M, pkt |-> pkt]
O == [nout |-> NOut, clen |-> K + M, rout |-> NOut, n |-> K + M]
Frag(d) == [i \in 1..K |-> d \o ToString(i)]
BitSeqs(n) == [1..n -> {0, 1}]
Old(n) == [i \in 1..n |-> "old"]

MCInit ==
    /\ codecs = ("a" :> [kind |-> Kind, ws |-> 2, k |-> K, m |-> M, pkt |-> 1,
                         sys |-> IsSys(Kind), nout |-> NOut, nenc |-> 0,
                         ndec |-> 0, ez |-> TRUE, dz |-> TRUE]
              @@ "b" :> [kind |-> Kind, ws |-> 2, k |-> K, m |-> M, pkt |-> 2,
                         sys |-> IsSys(Kind), nout |-> NOut, nenc |-> 0,
                         ndec |-> 0, ez |-> TRUE, dz |-> TRUE])
    /\ \E n \in Lens :
         datas = ("d" :> [len |-> 2 * n, frag |-> Frag("d")])
    /\ objs = << >> /\ memo = << >>
    /\ returned = {}

OutsOf(api, want, w, n, v, old) ==  \* v where wanted
    [i \in 1..n |-> IF want[i] = 1 THEN v[i]
                    ELSE IF w # 0 THEN "junk" ELSE old[i]]

MCEnc ==
    \E c \in Insts, api \in Apis, want \in BitSeqs(NOut), w \in {0, 1} :
    \E v \in [1..NOut -> Vals], ne \in 0..3 :
      LET old == IF api = "bl" THEN Old(NOut) ELSE [i \in 1..NOut |-> "x"]
          r == [out |-> OutsOf(api, want, w, NOut, v, old), pre |-> old,
                props |-> [i \in 1..NOut |-> << >>],
                olen |-> [i \in 1..NOut |-> datas["d"].len],
                din |-> 1, edges |-> 1, nenc |-> ne, ndec |-> codecs[c].ndec]
      IN /\ Encode(c, "d", "o", api, want, r)
         /\ Assert(\A i \in 1..NOut : want[i] = 0 => r.out[i] = r.pre[i], "Untouched")
         /\ Assert(ne = (IF api = "sh" THEN datas["d"].len \div 2
                         ELSE CeilDiv(datas["d"].len \div 2, codecs[c].pkt)), "Counted")
         /\ returned' = returned \cup {<<i, v[i]>> : i \in Bit(want)}

\* with k fragments the data wanted, and only it, comes out
Decoded(avail, want, r) ==
    LET av == Bit(avail)
        all == IsSys(Kind) /\ 1..K \subseteq av
    IN /\ r.ret = 1 <=> Cardinality(av) >= K
       /\ \A i \in 1..K :
            IF want[i] = 1 /\ Cardinality(av) >= K /\ ~all
            THEN r.out[i] = datas["d"].frag[i]
            ELSE r.out[i] = r.pre[i]

MCDec ==
    /\ "o" \in DOMAIN objs
    /\ \E c \in Insts, api \in Apis, avail \in BitSeqs(K + M),
          want \in BitSeqs(K), ret \in {0, 1}, good \in {0, 1}, w \in {0, 1},
          nd \in 0..3 :
      LET old == IF api = "bl" THEN Old(K) ELSE [i \in 1..K |-> "x"]
          v == IF good = 1 THEN datas["d"].frag ELSE old
          pre == IF api = "bl"
                 THEN [i \in 1..K |-> IF IsSys(Kind) /\ avail[i] = 1
                                      THEN datas["d"].frag[i] ELSE "old"]
                 ELSE old
          out == [i \in 1..K |-> IF want[i] = 1
                                 THEN (IF good = 1 THEN v[i] ELSE pre[i])
                                 ELSE IF w # 0 THEN "junk" ELSE pre[i]]
          r == [ret |-> ret, out |-> out, pre |-> pre,
                olen |-> [i \in 1..K |->
                    IF api = "bl" \/ out[i] # "x" THEN datas["d"].len ELSE 0],
                din |-> 1, edges |-> 1, pin |-> 1, nenc |-> codecs[c].nenc,
                ndec |-> nd]
      IN /\ Decode(c, "o", api, avail, want, r)
         /\ Assert(Decoded(avail, want, r), "Decoded")
         /\ UNCHANGED returned

MCReset == \E c \in Insts, dir \in {"enc", "dec"} :
              /\ Reset(c, dir)
              /\ Assert(dir = "enc" => codecs'[c].nenc = 0, "Reset")
              /\ Assert(dir = "dec" => codecs'[c].ndec = 0, "Reset")
              /\ UNCHANGED returned

MCNext == MCEnc \/ MCDec \/ MCReset
MCView == <<[c \in Insts |-> <<codecs[c].nenc, codecs[c].ndec>>], datas,
            DOMAIN objs, memo, returned>>

-----------------------------------------------------------------------------
\* any two encodings of the same content agree, whatever happened between
Agree == \A x, y \in returned : x[1] = y[1] => x[2] = y[2]
\* every operation is permitted to an ideal library
Live == \A c \in Insts : ENABLED MCEnc /\ ("o" \in DOMAIN objs => ENABLED MCDec)
=============================================================================

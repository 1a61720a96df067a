--------------------------- MODULE FragmentStore ----------------------------
(***************************************************************************)
(* A user of the C API: instances, and stores of fragments that get lost,  *)
(* corrupted, reconstructed and decoded.  A fragment is <<header, payload>>*)
(* (a string each: its bytes, or a digest).  As in Codec, an action is an  *)
(* operation with what it was observed to return, and is enabled when that *)
(* is permitted.  A = {aspects}:                                           *)
(*   enc    the encoder: header and payload of each fragment               *)
(*   rec    enough fragments: reconstruction and decoding restore          *)
(*   fail   too few, or a corrupted header: -1, nothing changes            *)
(*   mem    the rest is untouched                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Header, TLC

CONSTANT A
VARIABLES insts, datas, stores
svars == <<insts, datas, stores>>
On(a) == a \in A
Put(f, k, v) == (k :> v) @@ f
Lost == <<"", "">>

StoreInit == insts = << >> /\ datas = << >> /\ stores = << >>

NewInst(i, p, ok) ==
    /\ On("enc") => ok = (IF p.ws \in {1, 2} THEN 1 ELSE 0)
    /\ insts' = IF ok = 1 THEN Put(insts, i, [ws |-> p.ws, k |-> p.k, m |-> p.m, sys |-> IF p.sys = 0 THEN 0 ELSE 1])
                ELSE insts
    /\ UNCHANGED <<datas, stores>>
MetaSize(bs) == ((bs \div 65536) + 16) * 4
MSize(bs, r) == (On("enc") => r = MetaSize(bs)) /\ UNCHANGED svars
NewData(d, len, frags) == /\ datas' = Put(datas, d, [len |-> len, frag |-> frags])
                          /\ UNCHANGED <<insts, stores>>

Wide(n) == n.k + n.m
IsOut(n, i) == n.sys = 0 \/ i > n.k         \* fragment i is an output
OutOf(n, i) == IF n.sys = 1 THEN i - n.k ELSE i

(* r: ret, want (of each output), msz, frag, pre, hb (bytes of headers),   *)
(* ref (payload and positions of each output, by the C++ interface), edges *)
Encode(in, dn, sn, r) ==
    LET n == insts[in]
        d == datas[dn]
        nd == r.msz \div 4
        W(i) == r.want[OutOf(n, i)] = 1
        fits == \A i \in 1..Wide(n) :
                    IsOut(n, i) /\ W(i) => Fits(Len(r.ref[OutOf(n, i)].at), nd)
    IN /\ On("enc") =>
            /\ r.msz = MetaSize(d.len)
            /\ r.ret = IF fits THEN 0 ELSE -1
            /\ r.ret = 0 => \A i \in 1..Wide(n) :
                 IF ~IsOut(n, i)
                 THEN r.hb[i] = Serialize(<< >>, nd) /\ r.frag[i][2] = d.frag[i]
                 ELSE W(i) => /\ r.hb[i] = Serialize(r.ref[OutOf(n, i)].at, nd)
                              /\ r.frag[i][2] = r.ref[OutOf(n, i)].p
       /\ On("mem") => /\ r.edges = 1
                       /\ \A i \in 1..Wide(n) :
                            /\ IsOut(n, i) /\ ~W(i) => r.frag[i] = r.pre[i]
                            /\ ~IsOut(n, i) => r.frag[i][2] = r.pre[i][2]
       /\ stores' = IF r.ret = 0 /\ \A x \in DOMAIN r.want : r.want[x] = 1
                    THEN Put(stores, sn, [n |-> n, d |-> d, bad |-> {}, orig |-> r.frag,
                                          cur |-> r.frag, msz |-> r.msz])
                    ELSE [x \in DOMAIN stores \ {sn} |-> stores[x]]
       /\ UNCHANGED <<insts, datas>>

Lose(sn, i) ==
    /\ stores' = [stores EXCEPT ![sn].cur[i] = Lost, ![sn].bad = @ \ {i}]
    /\ UNCHANGED <<insts, datas>>
(* A copy of the fragment is found.                                        *)
Find(sn, i) ==
    /\ stores' = [stores EXCEPT ![sn].cur[i] = stores[sn].orig[i], ![sn].bad = @ \ {i}]
    /\ UNCHANGED <<insts, datas>>
(* The header of an output gets another magic or a count that cannot be.   *)
Corrupt(sn, i) ==
    /\ stores' = [stores EXCEPT ![sn].bad = @ \cup {i}]
    /\ UNCHANGED <<insts, datas>>

Avail(s) == {i \in DOMAIN s.cur : s.cur[i] # Lost}
BadOut(s) == {i \in Avail(s) \cap s.bad : IsOut(s.n, i)}
Enough(s) == Cardinality(Avail(s)) >= s.n.k
Able(s) == Enough(s) /\ BadOut(s) = {}
Untouched(r, I) == \A i \in I : r.frag[i] = r.pre[i]

(* The fragments that are available and sound are what they were first.    *)
Reconstruct(in, sn, dest, r) ==
    LET s == stores[sn]
    IN /\ insts[in] = s.n
       /\ Able(s) /\ On("rec") => r.ret = 0 /\ r.frag[dest] = s.orig[dest]
       /\ ~Able(s) /\ On("fail") => r.ret = -1 /\ Untouched(r, DOMAIN r.frag)
       /\ On("mem") => r.edges = 1 /\ Untouched(r, DOMAIN r.frag \ {dest})
       /\ stores' = IF r.ret = 0
                    THEN [stores EXCEPT ![sn].cur[dest] = r.frag[dest], ![sn].bad = @ \ {dest}]
                    ELSE stores
       /\ UNCHANGED <<insts, datas>>

(* The buffers of the data fragments receive the data.  With keep, those of*)
(* a systematic code remain in the store.                                  *)
Decode(in, sn, r) ==
    LET s == stores[sn]
        n == s.n
    IN /\ insts[in] = n
       /\ Able(s) /\ On("rec") =>
            /\ r.ret = 0
            /\ \A i \in 1..(n.k) : r.frag[i][2] = s.d.frag[i]
            /\ \A i \in 1..(n.k) : n.sys = 1 => r.frag[i] = s.orig[i]
            /\ \A i, x \in 1..(n.k) : r.frag[i][1] = r.frag[x][1]
       /\ ~Able(s) /\ On("fail") => r.ret = -1 /\ Untouched(r, DOMAIN r.frag)
       /\ On("mem") => r.edges = 1 /\ Untouched(r, DOMAIN r.frag \ (1..n.k))
       /\ stores' = IF r.ret = 0 /\ r.keep = 1
                    THEN [stores EXCEPT
                            ![sn].cur = [i \in DOMAIN @ |-> IF i <= n.k THEN r.frag[i] ELSE @[i]],
                            ![sn].bad = @ \ (1..n.k)]
                    ELSE stores
       /\ UNCHANGED <<insts, datas>>

(* What C05 says of the store.                                             *)
Sound == \A sn \in DOMAIN stores :
            LET s == stores[sn]
            IN \A i \in Avail(s) \ s.bad : s.cur[i] = s.orig[i]
=============================================================================

------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The metadata header of a fragment: dwords, big endian; the magic, the   *)
(* number of positions, the positions, zeros.  A header is a sequence of   *)
(* bytes, a position is a pair of 16-bit limbs, the low one first.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Magic == <<70, 78, 84, 49>>         \* FNT1
Dword(l) == <<l[2] \div 256, l[2] % 256, l[1] \div 256, l[1] % 256>>
Limbs(n) == <<n % 65536, n \div 65536>>

Fits(n, nd) == 2 + n <= nd
Serialize(at, nd) ==
    LET n == Dword(Limbs(Len(at)))
    IN [b \in 1..(4 * nd) |->
          LET w == (b - 1) \div 4
              x == ((b - 1) % 4) + 1
          IN IF w = 0 THEN Magic[x]
             ELSE IF w = 1 THEN n[x]
             ELSE IF w - 1 <= Len(at) THEN Dword(at[w - 1])[x]
             ELSE 0]

(* The dword of index w, from 0.                                           *)
Word(h, w) == <<(h[4 * w + 3] * 256) + h[4 * w + 4],
                (h[4 * w + 1] * 256) + h[4 * w + 2]>>
Readable(h, nd) ==
    /\ nd >= 2
    /\ SubSeq(h, 1, 4) = Magic
    /\ LET c == Word(h, 1) IN c[2] = 0 /\ c[1] <= nd - 2
Read(h) == [i \in 1..(Word(h, 1)[1]) |-> Word(h, i + 1)]

-----------------------------------------------------------------------------
(* Observed: r.ret, r.h (bytes after), r.pre (before), r.edges             *)
Written(at, nd, r) ==
    /\ r.ret = IF Fits(Len(at), nd) THEN 0 ELSE -1
    /\ r.h = IF Fits(Len(at), nd) THEN Serialize(at, nd) ELSE r.pre
    /\ r.edges = 1 /\ r.cnt = Len(at)
(* r.ret, r.at (positions read), r.same (the header is as it was), r.marks *)
Got(h, nd, r) ==
    /\ r.ret = IF Readable(h, nd) THEN 0 ELSE -1
    /\ r.ret = 0 => /\ r.cnt = Word(h, 1)[1]
                    /\ r.at = SubSeq(Read(h), 1, IF r.cnt < 64 THEN r.cnt ELSE 64)
                    /\ r.marks = 1
    /\ r.same = 1
=============================================================================

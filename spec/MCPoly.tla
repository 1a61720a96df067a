------------------------------- MODULE MCPoly -------------------------------
(***************************************************************************)
(* The operations of PolyAlg obey polynomial algebra: states are pairs of  *)
(* polynomials over a small field.                                         *)
(***************************************************************************)
EXTENDS PolyAlg

CONSTANTS Deg
VARIABLES fi, cs, ds, go
vars == <<fi, cs, ds, go>>
Fs == << FP(3), FP(5), FB(4), FL(1) >>
Els(f) == CASE f.c = "p" -> 0..(f.p - 1) [] f.c = "b" -> {0, 1, 2, 9}
            [] f.c = "l" -> {<<0>>, <<1>>, <<65536>>}
Room == 2 * Deg + 4
Poly(f, c) == [c |-> [i \in 1..Room |-> IF i <= Len(c) THEN c[i] ELSE Zero(f)],
               d |-> Len(c) - 1, any |-> FALSE]
Init == fi \in DOMAIN Fs /\ cs = << >> /\ ds = << >> /\ go = 0
Next == \/ go = 0 /\ cs' \in [1..(Deg + 1) -> Els(Fs[fi])] /\ go' = 1 /\ UNCHANGED <<fi, ds>>
        \/ go = 1 /\ ds' \in [1..Deg -> Els(Fs[fi])] /\ go' = 2 /\ UNCHANGED <<fi, cs>>
All(f) == IF f.c = "b" THEN 0..15 ELSE Els(f)
Good ==
    go = 2 =>
    LET f == Fs[fi]
        p == Poly(f, cs)
        q == Poly(f, ds)
        top == 2 * Deg
        pq == PDeg(PMul(f, p, q, top), top)
        sum(u, v) == [i \in 1..Room |-> Add(f, u.c[i], v.c[i])]
        dp == PDerive(f, p)
        dq == PDerive(f, q)
    IN /\ \A x \in All(f) :
            /\ PEval(f, pq, x) = Mul(f, PEval(f, p, x), PEval(f, q, x))
            /\ PEval(f, PNeg(f, p), x) = Neg(f, PEval(f, p, x))
            /\ \A a \in Els(f) : PEval(f, PMulX(f, p, a), x) =
                 Mul(f, PEval(f, p, x), Add(f, x, a))
       \* truncated product
       /\ \A t \in 0..top : \A i \in 1..(t + 1) : PMul(f, p, q, t).c[i] = pq.c[i]
       /\ \A t \in 0..top : \A i \in (t + 2)..Room : PMul(f, p, q, t).c[i] = p.c[i]
       \* product rule
       /\ PDerive(f, pq).c = sum(PMul(f, dp, q, top), PMul(f, p, dq, top))
       /\ dp.d = p.d - 1
=============================================================================

----------------------------- MODULE Transform ------------------------------
(***************************************************************************)
(* Fourier transforms over a field, from their definition (property C9).   *)
(* A transform is a record: n its length, kind "dft" with P = the powers   *)
(* w^0 .. w^(n-1) of its root of unity, or kind "pts" with P the points of *)
(* evaluation.                                                             *)
(***************************************************************************)
EXTENDS GF

Padded(f, x, n) ==
    TLCEval([i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE Zero(f)])

(* The definition.                                                         *)
DFTDef(f, x, P) ==      \* X[k] = sum of x[j] w^(jk)
    LET n == Len(P)
    IN TLCEval([k \in 1..n |->
         SumF(f, TLCEval([j \in 1..n |-> Mul(f, x[j], P[(((j - 1) * (k - 1)) % n) + 1])]))])
EvalsAt(f, x, P) == TLCEval([k \in DOMAIN P |-> Eval(f, x, P[k])])

(* The same by splitting on the least prime factor of the length: the      *)
(* inputs j, j + r, j + 2r, ... are transformed with the root w^r.         *)
(* MCTransform checks that it equals DFTDef.                               *)
LeastFactor(n) ==
    IF n % 2 = 0 THEN 2
    ELSE LET d == {i \in 2..200 : i * i <= n /\ n % i = 0}
         IN IF d = {} THEN n ELSE CHOOSE i \in d : \A j \in d : i <= j
RECURSIVE Split(_, _, _)
Split(f, x, P) ==       \* Len(x) divides Len(P)
    LET n == Len(x)
        s == Len(P) \div n
        r == LeastFactor(n)
    IN IF n = 1 THEN x
       ELSE LET m == n \div r
                Y == TLCEval([j \in 1..r |->
                       Split(f, TLCEval([t \in 1..m |-> x[(t - 1) * r + j]]), P)])
            IN TLCEval([k \in 1..n |->
                 IF r = 2
                 THEN Add(f, Y[1][((k - 1) % m) + 1],
                             Mul(f, P[(k - 1) * s + 1], Y[2][((k - 1) % m) + 1]))
                 ELSE FoldLeft(LAMBDA acc, j:
                        Add(f, acc, Mul(f, P[((((j - 1) * (k - 1)) % n) * s) + 1],
                                           Y[j][((k - 1) % m) + 1])),
                        Zero(f), Upto(r))])
DFT(f, x, P) == IF Len(P) <= 8 THEN DFTDef(f, x, P) ELSE Split(f, x, P)

Forward(f, t, x) == IF t.kind = "dft" THEN DFT(f, Padded(f, x, t.n), t.P)
                                      ELSE EvalsAt(f, x, t.P)
Turned(y) ==    \* y[0], y[n-1], ..., y[1]
    TLCEval([k \in DOMAIN y |-> y[((Len(y) - (k - 1)) % Len(y)) + 1]])

(* Is out the result of the operation on the input x?                      *)
ResultOK(f, t, op, x, out) ==
    /\ Len(out) = t.n
    /\ CASE op = "fft" -> out = Forward(f, t, x)
         [] op = "ifft" -> Forward(f, t, out) = Padded(f, x, t.n)
         \* the summation with the inverse root; for the transform at points
         \* it is the inverse transform
         [] op = "inv" /\ t.kind = "dft" -> out = Turned(Forward(f, t, x))
         [] op = "inv" /\ t.kind = "pts" -> Forward(f, t, out) = Padded(f, x, t.n)
         \* a root of unity of order 1 whatever the length: input (a, 0, 0...)
         [] OTHER -> FALSE

(* The subspace spanned by a basis: point i is the sum of the elements of  *)
(* the bits of i.                                                          *)
Span(f, B) ==
    FoldLeft(LAMBDA acc, b: acc \o TLCEval([i \in DOMAIN acc |-> Add(f, acc[i], b)]),
             <<Zero(f)>>, B)
DefaultBasis(f, m) ==
    TLCEval([i \in 1..m |-> IF i = m THEN One(f) ELSE Pow(f, Root(f), i)])

(* Expansion of a polynomial at x^t - x (characteristic 2): the blocks of  *)
(* t coefficients h_0, h_1, ... stand for the sum of h_i (x^t + x)^i.      *)
Blocks(f, s, t) ==
    LET k == (Len(s) + t - 1) \div t
    IN TLCEval([i \in 1..k |-> Padded(f,
         SubSeq(s, (i - 1) * t + 1, IF i * t < Len(s) THEN i * t ELSE Len(s)), t)])
Recombine(f, s, t) ==
    LET h == Blocks(f, s, t)
        k == Len(h)
        n == k * t
        at(a, i) == IF i >= 1 THEN a[i] ELSE Zero(f)
        step(acc, i) == TLCEval([c \in 1..n |->      \* acc (x^t + x) + h_i
              LET v == Add(f, at(acc, c - t), at(acc, c - 1))
              IN IF c <= t THEN Add(f, v, h[i][c]) ELSE v])
    IN FoldLeft(LAMBDA acc, i: step(acc, k + 1 - i),
                TLCEval([c \in 1..n |-> Zero(f)]), Upto(k))
TaylorOK(f, e) ==
    /\ e.inok = 1
    /\ IF e.inv = 1 THEN Recombine(f, e.in, e.t) = Padded(f, e.out, Len(e.in))
       ELSE LET r == Recombine(f, e.out, e.t)
            IN r = Padded(f, e.in, Len(r))
=============================================================================

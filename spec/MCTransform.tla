---------------------------- MODULE MCTransform -----------------------------
(***************************************************************************)
(* The transforms of the specification.  One state: a field, a length, an  *)
(* input.  The fast summation equals the definition (both are linear, so   *)
(* unit vectors decide it), turning the result gives the summation with    *)
(* the inverse root, and the inverse transform exists and is what          *)
(* ResultOK accepts, alone.                                                *)
(***************************************************************************)
EXTENDS FieldOps, Transform

CONSTANTS MaxN
VARIABLES fi, n, x, go
vars == <<fi, n, x, go>>

Fs == << FP(17), FP(97), FP(257), FP(65537), FB(4), FB(8), FQ, FL(2), FB(32), FP(7) >>
F(i) == Fs[i]
OrderOk(f, k) == IF f.c = "l" THEN 65536 % k = 0
                 ELSE BDivides(NatOf(k), Card1(f))
Gen(f) == CASE f.c = "p" -> (CHOOSE g \in 1..(f.p - 1) : IsPrimitive(f, g))
            [] OTHER -> Root(f)
RootN(f, k) == IF f.c = "l" THEN Embed(f, Pow(Lane, 3, 65536 \div k))
               ELSE PowNat(f, Gen(f), BDiv(Card1(f), NatOf(k)))
Unit(f, k, j) == [i \in 1..k |-> IF i = j THEN One(f) ELSE Zero(f)]
Mixed(f, k) == [i \in 1..k |-> Embed(f, (i * i + 3 * i) % 7)]

Init == /\ fi \in DOMAIN Fs /\ n \in {k \in 1..MaxN : OrderOk(Fs[fi], k)}
        /\ x = 0 /\ go = 0
Next == /\ go = 0 /\ go' = 1 /\ UNCHANGED <<fi, n>>
        /\ x' \in 0..n
Good ==
    go = 1 =>
    LET f == F(fi)
        w == RootN(f, n)
        P == Powers(f, w, n)
        Q == Powers(f, Inv(f, w), n)
        v == IF x = 0 THEN Mixed(f, n) ELSE Unit(f, n, x)
        t == [n |-> n, kind |-> "dft", P |-> P]
        y == DFTDef(f, v, P)
        z == DFTDef(f, y, Q)        \* n times v
    IN /\ Split(f, v, P) = y
       /\ EvalsAt(f, v, P) = y
       /\ Split(f, v, Q) = DFTDef(f, v, Q)
       /\ Turned(y) = DFTDef(f, v, Q)
       /\ \A i \in 1..n : z[i] = (IF f.c \in {"b", "w"} THEN v[i]
                                  ELSE Mul(f, Embed(f, n), v[i]))
       /\ ResultOK(f, t, "fft", v, y) /\ ResultOK(f, t, "ifft", y, v)
       /\ ResultOK(f, t, "inv", v, DFTDef(f, v, Q))
       /\ n > 1 /\ y # v => ~ResultOK(f, t, "fft", v, v)
       /\ Cardinality({P[i] : i \in 1..n}) = n

(* The additive one: the points are the distinct elements of a subspace,   *)
(* in the order of the bits; the recombination is the polynomial algebra.  *)
SpanOK(f, m) == LET B == DefaultBasis(f, m)
                    S == Span(f, B)
                IN /\ Len(S) = 2^m /\ Cardinality({S[i] : i \in DOMAIN S}) = 2^m
                   /\ \A i \in 0..(2^m - 1) :
                        S[i + 1] = FoldLeft(LAMBDA acc, b:
                           IF (i \div 2^(b - 1)) % 2 = 1 THEN Add(f, acc, B[b]) ELSE acc,
                           Zero(f), Upto(m))
ASSUME \A m \in 1..4 : SpanOK(FB(8), m) /\ SpanOK(FB(16), m) /\ SpanOK(FB(32), m)
\* f(y) = sum h_i(y) (y^t + y)^i at enough points y
RecombineOK(f, s, t) ==
    LET r == Recombine(f, s, t)
        h == Blocks(f, s, t)
    IN \A y \in {Embed(f, i) : i \in 0..40} :
         Eval(f, r, y) = SumF(f, [i \in DOMAIN h |->
            Mul(f, Eval(f, h[i], y),
                   Pow(f, Add(f, Pow(f, y, t), y), i - 1))])
ASSUME \A t \in 2..5, k \in 1..13 :
         RecombineOK(FB(8), [i \in 1..k |-> (i * 37 + t) % 256], t)
=============================================================================

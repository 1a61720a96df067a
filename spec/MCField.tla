------------------------------ MODULE MCField -------------------------------
(***************************************************************************)
(* The fields of the specification are fields: their axioms on all the     *)
(* elements of small ones and on chosen elements of the others; the roots  *)
(* are primitive, the orders' factors right (Pratt certificates).          *)
(***************************************************************************)
EXTENDS FieldOps, Arith

CONSTANT Deep       \* all the triples of the small fields
Samples(f) ==
    CASE f.c = "p" /\ f.p <= Deep -> 0..(f.p - 1)
      [] f.c = "b" /\ f.n <= 3 -> 0..(2^f.n - 1)
      [] f.c = "b" /\ f.n = 4 /\ Deep >= 16 -> 0..15
      [] f.c = "p" -> {x \in {0, 1, 2, 3, 255, 256, 32768, 65535, 65536} : x < f.p}
      [] f.c = "b" -> {x \in {0, 1, 2, 3, 7, 15, 133, 255, 32769, 65535} : x < 2^f.n}
      [] f.c = "q" -> {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<65536, 24576>>, <<32768, 12288>>,
                       <<0, 65535>>, <<65535, 65535>>, <<12345, 54321>>, <<65536, 0>>}
      [] f.c = "w" -> LET L == f.n \div 16
                          e(i, v) == [x \in 1..L |-> IF x = i THEN v ELSE 0]
                      IN {Zero(f), One(f), [x \in 1..L |-> 65535], [x \in 1..L |-> 4097 * x]}
                         \cup (IF Deep < 16 THEN {} ELSE
                               {e(1, 2), e(L, 32768), e(1, 65535), e(L, 1)})
      [] f.c = "n" -> {Zero(f), One(f), Card1(f), BDiv(f.p, <<3>>)}
                      \cup (IF Deep < 16 THEN {} ELSE {BDiv(Card1(f), <<2>>), <<8191>>})
      [] f.c = "l" -> {Zero(f), One(f), Embed(f, 65536),
                       [x \in 1..f.n |-> x], [x \in 1..f.n |-> 65537 - x]}
Fields ==
    << FP(2), FP(3), FP(5), FP(7), FP(17), FP(31), FP(257), FP(65521), FP(65537),
       FQ, FB(4), FB(8), FB(16), FB(32), FB(64), FB(128), FL(1), FL(2), FL(4) >>
    \o [i \in DOMAIN BigPrimes |-> FN(BigPrimes[i].p)] \o <<FB(1), FB(2), FB(3)>>

Axioms(f, a, b, c) ==
    /\ IsEl(f, Add(f, a, b)) /\ IsEl(f, Mul(f, a, b)) /\ IsEl(f, Neg(f, a))
    /\ Add(f, a, b) = Add(f, b, a) /\ Mul(f, a, b) = Mul(f, b, a)
    /\ Add(f, Add(f, a, b), c) = Add(f, a, Add(f, b, c))
    /\ Mul(f, Mul(f, a, b), c) = Mul(f, a, Mul(f, b, c))
    /\ Mul(f, a, Add(f, b, c)) = Add(f, Mul(f, a, b), Mul(f, a, c))
    /\ Add(f, a, Zero(f)) = a /\ Mul(f, a, One(f)) = a /\ Add(f, a, Neg(f, a)) = Zero(f)
    /\ Sub(f, Add(f, a, b), b) = a
Inverses(f, a) ==
    /\ IF f.c = "l" THEN \A i \in DOMAIN a : a[i] # 0 => Inv(f, a)[i] \in 1..65536
       ELSE a # Zero(f) => Mul(f, a, Inv(f, a)) = One(f)
    /\ f.c # "l" => PowNat(f, a, BAdd(Card1(f), <<1>>)) = a
    /\ \A e \in 0..5 : f.c # "l" => PowNat(f, a, NatOf(e)) = Pow(f, a, e)

\* linear reference for the products of GF(2^n), n <= 8: shift and reduce
RECURSIVE ShiftMul(_, _, _)
ShiftMul(f, a, b) ==
    IF b = 0 THEN 0
    ELSE LET d == 2 * a
             r == IF d >= 2^f.n
                  THEN d ^^ (CASE f.n = 1 -> 3 [] f.n = 2 -> Poly2 [] f.n = 3 -> Poly3
                               [] f.n = 4 -> Poly4 [] f.n = 8 -> Poly8 [] f.n = 16 -> Poly16)
                  ELSE d
         IN (IF b % 2 = 1 THEN a ELSE 0) ^^ ShiftMul(f, r, b \div 2)

CertPrime(x) == BSmall(x) /\ PrimeInt(ToInt(x))
\* p is prime: an element of order p - 1 modulo p
Pratt(p, g, fs) ==
    /\ BProd(fs) = BSub(p, <<1>>)
    /\ BPowMod(g, BSub(p, <<1>>), p) = <<1>>
    /\ \A i \in DOMAIN fs : /\ CertPrime(fs[i])
                            /\ BPowMod(g, BDiv(BSub(p, <<1>>), fs[i]), p) # <<1>>
ASSUME \A i \in DOMAIN BigPrimes : Pratt(BigPrimes[i].p, BigPrimes[i].g, BigPrimes[i].fs)
ASSUME Pratt(F128, <<3>>, << <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>,
                             <<5>>, <<47>>, <<373>>, NatOf(2998279) >>)
ASSUME Pratt(<<1, 3, 64>>, <<3>>, OrderPrimes(FQ))
ASSUME \A i \in DOMAIN Fields : LET f == Fields[i] IN
         f.c \notin {"n", "l"} =>
           /\ BProd(OrderPrimes(f)) = Card1(f)
           /\ \A x \in {OrderPrimes(f)[j] : j \in DOMAIN OrderPrimes(f)} :
                x = F128 \/ CertPrime(x)
ASSUME \A f \in {FP(257), FP(65537)} \cup {Fields[i] : i \in 10..16} \cup {FB(1), FB(2), FB(3)} : IsPrimitive(f, Root(f))
ASSUME \A i \in 1..9 : PrimeInt(Fields[i].p)

VARIABLES i, a, b, go
vars == <<i, a, b, go>>
Init == /\ i \in DOMAIN Fields
        /\ a = Zero(Fields[i]) /\ b = a /\ go = 0
Next == \/ go = 0 /\ a' \in Samples(Fields[i]) /\ go' = 1 /\ UNCHANGED <<i, b>>
        \/ go = 1 /\ b' \in Samples(Fields[i]) /\ go' = 2 /\ UNCHANGED <<i, a>>
Good == LET f == Fields[i] IN
        /\ go = 1 => Inverses(f, a)
        /\ go = 2 => \A c \in Samples(f) : Axioms(f, a, b, c)
        /\ go = 2 /\ f.c = "b" /\ f.n <= 16 => Mul(f, a, b) = ShiftMul(f, a, b)
=============================================================================

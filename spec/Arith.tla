------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* The integer helpers, by their mathematical definitions (property C12).  *)
(* Arguments are records [s |-> sign, m |-> magnitude], results BigNat.    *)
(***************************************************************************)
EXTENDS BigNat, Primes

Least(x) == x.m     \* of an argument that is not negative

RECURSIVE NoDivisor(_, _)
NoDivisor(n, d) ==      \* n has no divisor in d, d+1, ..., sqrt(n); integers
    IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE NoDivisor(n, d + 1)
RECURSIVE RootBelow(_, _, _)
RootBelow(n, lo, hi) ==     \* floor of the square root, in lo..hi-1
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF m * m <= n THEN RootBelow(n, m, hi) ELSE RootBelow(n, lo, m)
PrimeInt(n) == n >= 2 /\ IF n < 5000 THEN NoDivisor(n, 2)
                         ELSE n % 2 # 0 /\ \A i \in 1..(RootBelow(n, 1, 46340) \div 2) :
                                n % (2 * i + 1) # 0
HasSmallFactor(n) == \E d \in 2..1000 : BDivS(n, d)[2] = << >>
PrimeNat(n) ==
    IF BSmall(n) THEN PrimeInt(ToInt(n))
    ELSE IF n \in {BigPrimes[i].p : i \in DOMAIN BigPrimes} THEN TRUE
    ELSE IF HasSmallFactor(n) THEN FALSE
    ELSE Assert(FALSE, <<"cannot tell whether a number is prime", n>>)

Ascending(s) == \A i \in 2..Len(s) : BLt(s[i - 1], s[i])

(* The primes of n are ps: distinct primes whose product divides n, and n  *)
(* has no other prime factor.                                              *)
RECURSIVE Strip(_, _)
Strip(n, p) == LET q == BDivMod(n, p) IN IF q[2] = << >> THEN Strip(q[1], p) ELSE n
RECURSIVE Mult(_, _)
Mult(n, p) == LET q == BDivMod(n, p) IN IF q[2] = << >> THEN 1 + Mult(q[1], p) ELSE 0
PrimesAre(n, ps) ==
    /\ Ascending(ps)
    /\ \A i \in DOMAIN ps : PrimeNat(ps[i]) /\ BDivides(ps[i], n)
    /\ FoldLeft(Strip, n, ps) = <<1>>
\* the distinct primes of a number that the caller gives with its factors
ExpsOf(n, ps) == TLCEval([i \in DOMAIN ps |-> Mult(n, ps[i])])
Flatten(ps, es) == FoldLeft(LAMBDA acc, i: acc \o TLCEval([x \in 1..es[i] |-> ps[i]]),
                            << >>, BRange(1, Len(ps)))
RECURSIVE Uniq(_)
Uniq(s) == IF Len(s) < 2 THEN s
           ELSE IF s[1] = s[2] THEN Uniq(Tail(s)) ELSE <<s[1]>> \o Uniq(Tail(s))

(* Jacobi symbol: the product of the Legendre symbols, by Euler's          *)
(* criterion, over the prime factors qs of m (with multiplicity).          *)
Legendre(n, q) ==
    LET r == IF n.s >= 0 THEN BMod(n.m, q)
             ELSE LET x == BMod(n.m, q) IN IF x = << >> THEN x ELSE BSub(q, x)
    IN IF r = << >> THEN 0
       ELSE IF BPowMod(r, BDiv(q, <<2>>), q) = <<1>> THEN 1 ELSE -1
Jacobi(n, qs) == FoldLeft(LAMBDA acc, q: acc * Legendre(n, q), 1, qs)

Signed(x) == IF x.s < 0 THEN [p |-> << >>, n |-> x.m] ELSE [p |-> x.m, n |-> << >>]
\* a x + b y = g
Identity(a, x, b, y, g) ==
    LET X == Signed(x)  Y == Signed(y)
    IN BAdd(BMul(a, X.p), BMul(b, Y.p)) =
       BAdd(g, BAdd(BMul(a, X.n), BMul(b, Y.n)))
IsGcd(a, b, g) == g = BGcd(a, b)

RECURSIVE DivsOf(_)
DivsOf(fs) == IF fs = << >> THEN {<<1>>}
              ELSE LET D == DivsOf(Tail(fs)) IN D \cup {BMul(Head(fs), d) : d \in D}
RECURSIVE TrialFactors(_, _)
TrialFactors(n, d) ==       \* of an integer, from d up
    IF n = 1 THEN << >>
    ELSE IF d * d > n THEN <<NatOf(n)>>
    ELSE IF n % d = 0 THEN <<NatOf(d)>> \o TrialFactors(n \div d, d)
    ELSE TrialFactors(n, IF d = 2 THEN 3 ELSE d + 2)
\* the factors of an argument: of itself, or given by the script (those of great
\* numbers) and checked
FactorsOf(a) ==
    IF Len(a) > 1 THEN LET qs == [i \in 1..(Len(a) - 1) |-> a[i + 1].m]
                       IN CASE BProd(qs) = a[1].m
                               /\ \A i \in DOMAIN qs : PrimeNat(qs[i]) -> qs
    ELSE TrialFactors(ToInt(a[1].m), 2)

RECURSIVE LowDrop(_, _, _, _)
LowDrop(fs, i, prod, n) ==
    IF i <= Len(fs) /\ BLe(n, BDiv(prod, fs[i]))
    THEN LowDrop(fs, i + 1, BDiv(prod, fs[i]), n) ELSE prod
RECURSIVE TakeFrom(_, _, _, _)
TakeFrom(fs, i, prod, n) ==
    IF BLe(n, prod) \/ i > Len(fs) THEN LowDrop(SubSeq(fs, 1, i - 1), 1, prod, n)
    ELSE TakeFrom(fs, i + 1, BMul(prod, fs[i]), n)

Bool(b) == << IF b THEN <<1>> ELSE << >> >>
ArithOK(op, a, r) ==
    CASE op = "sqrt" ->
           LET x == r[1] IN /\ BLe(BMul(x, x), a[1].m)
                            /\ BLt(a[1].m, BMul(BAdd(x, <<1>>), BAdd(x, <<1>>)))
      [] op = "exp" -> r[1] = BPow(a[1].m, ToInt(a[2].m))
      [] op = "exp_mod" -> r[1] = BPowMod(a[1].m, a[2].m, a[3].m)
      [] op = "is_pow2" ->
           r = Bool(a[1].s > 0 /\ \E e \in 0..40 : BTwoTo(e) = a[1].m)
      [] op = "ceil2" ->
           \E e \in 0..40 : /\ r[1] = BTwoTo(e) /\ BLe(a[1].m, r[1])
                            /\ e > 0 => BLt(BTwoTo(e - 1), a[1].m)
      [] op = "log2" ->
           IF a[1].s = 0 THEN r = "domain"
           ELSE LET e == ToInt(r[1])
                IN BLe(BTwoTo(e), a[1].m) /\ BLt(a[1].m, BTwoTo(e + 1))
      [] op = "exp2" -> r[1] = BTwoTo(ToInt(a[1].m))
      [] op = "egcd" ->
           /\ r[1].s >= 0 /\ IsGcd(a[1].m, a[2].m, r[1].m)
           /\ r[6] = r[1]
           /\ Identity(a[1].m, r[2], a[2].m, r[3], r[1].m)
           /\ r[1].s > 0 => /\ BMul(r[4].m, r[1].m) = a[1].m
                            /\ BMul(r[5].m, r[1].m) = a[2].m
      [] op = "crt" ->
           LET n == Len(a) \div 2
           IN /\ \A i \in 1..n : BMod(r[1], a[n + i].m) = BMod(a[i].m, a[n + i].m)
              /\ BLt(r[1], BProd([i \in 1..n |-> a[n + i].m]))
      [] op = "jacobi" ->
           IF a[2].s < 0 \/ BEven(a[2].m) THEN r = "domain"
           ELSE LET qs == [i \in 1..(Len(a) - 2) |-> a[i + 2].m]
                    j == Jacobi(a[1], qs)
                IN /\ Assert(BProd(qs) = a[2].m /\ \A i \in DOMAIN qs : PrimeNat(qs[i]),
                             <<"wrong factors in the script", a>>)
                   /\ r[1].s = j /\ r[1].m = (IF j = 0 THEN << >> ELSE <<1>>)
      [] op = "solovay" ->        \* a, n, the factors of n
           LET n == a[2].m
               qs == [i \in 1..(Len(a) - 2) |-> a[i + 2].m]
               e == BPowMod(a[1].m, BDiv(n, <<2>>), n)
               j == Jacobi(a[1], qs)
           IN /\ Assert(BProd(qs) = n /\ \A i \in DOMAIN qs : PrimeNat(qs[i]),
                        <<"wrong factors in the script", a>>)
              /\ r = Bool(CASE j = 0 -> e = << >>
                            [] j = 1 -> e = BMod(<<1>>, n)
                            [] j = -1 -> e = BSub(n, <<1>>))
      [] op = "is_prime" -> r = Bool(PrimeNat(a[1].m))
      [] op = "distinct" -> PrimesAre(a[1].m, r)
      [] op \in {"proper", "proper2"} ->
           \* n / p for each prime p < n
           LET ps == Uniq(FactorsOf(a))
               good == SelectSeq(ps, LAMBDA p: BLt(p, a[1].m))
           IN /\ Len(r) = Len(good)
              /\ {r[i] : i \in DOMAIN r} = {BDiv(a[1].m, good[i]) : i \in DOMAIN good}
      [] op = "factor" ->
           /\ PrimesAre(a[1].m, r[1])
           /\ r[2] = ExpsOf(a[1].m, r[1])
      [] op = "factors" ->
           /\ PrimesAre(a[1].m, Uniq(r))
           /\ r = Flatten(Uniq(r), ExpsOf(a[1].m, Uniq(r)))
      [] op = "coprimes" ->     \* the greatest prime powers that divide n
           LET ps == Uniq(FactorsOf(a))
               es == ExpsOf(a[1].m, ps)
           IN /\ Len(r) = Len(ps)
              /\ {r[i] : i \in DOMAIN r} = {BPow(ps[i], es[i]) : i \in DOMAIN ps}
      [] op = "divisors" ->
           /\ Ascending(r)
           /\ {r[i] : i \in DOMAIN r} = DivsOf(FactorsOf(a))
      [] op = "gcd" -> IsGcd(a[1].m, a[2].m, r[1])
      [] op = "len" ->          \* the least divisor of a[1] at least a[2]
           /\ BDivides(r[1], a[1].m) /\ BLe(a[2].m, r[1])
           /\ \A d \in DivsOf(FactorsOf(<<a[1]>> \o SubSeq(a, 3, Len(a)))) :
                BLe(a[2].m, d) => BLe(r[1], d)
      [] op = "high" ->
           r[1] = TakeFrom(FactorsOf(<<a[1]>> \o SubSeq(a, 3, Len(a))), 1, <<1>>, a[2].m)
=============================================================================

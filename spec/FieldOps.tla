------------------------------ MODULE FieldOps ------------------------------
(***************************************************************************)
(* What every operation of a field object must return (properties C10 and  *)
(* C11), from the definitions of GF.                                       *)
(***************************************************************************)
EXTENDS LinAlg, Primes

FieldOf(k, par) ==      \* k = "p", "b", "l"; par a BigNat
    CASE k = "b" -> FB(ToInt(par))
      [] k = "l" -> FL(ToInt(par))
      [] k = "p" /\ par = <<1, 3, 64>> -> FQ           \* 4294991873
      [] k = "p" /\ BLe(par, NatOf(65537)) -> FP(ToInt(par))
      [] OTHER -> FN(par)
Lane == FP(65537)

IsEl(f, a) ==
    CASE f.c = "p" -> a \in 0..(f.p - 1)
      [] f.c = "b" -> a \in 0..(2^(f.n) - 1)
      [] f.c = "q" -> Len(a) = 2 /\ a[1] >= 0 /\ a[2] \in 0..65535 /\ ~QGe(a)
      [] f.c = "w" -> /\ Len(a) = f.n \div 16
                      /\ \A i \in DOMAIN a : a[i] \in 0..65535
      [] f.c = "n" -> BIsNat(a) /\ BLt(a, f.p)
      [] f.c = "l" -> Len(a) = f.n /\ \A i \in DOMAIN a : a[i] \in 0..65536

(* The cardinal less one, and its prime factors with multiplicity, in      *)
(* increasing order, as natural numbers.                                   *)
Card1(f) ==
    CASE f.c = "p" -> NatOf(f.p - 1)
      [] f.c \in {"b", "w"} -> BSub(BTwoTo(f.n), <<1>>)
      [] f.c = "q" -> <<0, 3, 64>>
      [] f.c = "n" -> BSub(f.p, <<1>>)
      [] f.c = "l" -> NatOf(65536)
Char(f) == CASE f.c = "p" -> NatOf(f.p)
             [] f.c \in {"b", "w"} -> <<2>>
             [] f.c = "q" -> <<1, 3, 64>>
             [] f.c = "n" -> f.p
             [] f.c = "l" -> NatOf(65537)
OrderPrimes(f) ==
    CASE f.c = "n" -> (CHOOSE e \in {BigPrimes[i] : i \in DOMAIN BigPrimes} : e.p = f.p).fs
      [] f.c = "l" -> TLCEval([i \in 1..16 |-> <<2>>])
      [] OTHER -> LET s == OrderFactors(f)
                  IN TLCEval([i \in DOMAIN s |-> IF s[i] = -1 THEN F128 ELSE NatOf(s[i])])
Distinct(fs) == SelectSeq(TLCEval([i \in DOMAIN fs |->
                    IF i > 1 /\ fs[i] = fs[i - 1] THEN << >> ELSE fs[i]]),
                  LAMBDA x: x # << >>)

(* a^e, e a natural number (for "l" one exponent for each lane).           *)
PowNat(f, a, e) ==
    IF f.c = "n" THEN BPowMod(a, e, f.p)
    ELSE FoldLeft(LAMBDA acc, bit:
               LET s == Mul(f, acc, acc) IN IF bit = 1 THEN Mul(f, s, a) ELSE s,
             One(f), BBits(e))
PowEl(f, a, e) ==
    IF f.c = "l" THEN TLCEval([i \in DOMAIN a |-> Pow(Lane, a[i], e[i])])
                 ELSE PowNat(f, a, e)

(* a has multiplicative order r; ps the primes that may divide r           *)
HasOrder(f, a, r, ps) ==
    /\ r # << >>
    /\ PowNat(f, a, r) = One(f)
    /\ \A i \in DOMAIN ps :
         BDivides(ps[i], r) => PowNat(f, a, BDiv(r, ps[i])) # One(f)
IsOrder(f, a, r) == LET ps == Distinct(OrderPrimes(f))
                    IN /\ BDivides(r, Card1(f))
                       /\ HasOrder(f, a, r, ps)
IsPrimitive(f, a) ==
    LET ps == Distinct(OrderPrimes(f))
    IN a # Zero(f) /\ \A i \in DOMAIN ps : PowNat(f, a, BDiv(Card1(f), ps[i])) # One(f)
\* in the group generated by the non-zero a: b^ord(a) = 1 (cyclic group)
RECURSIVE OrderFrom(_, _, _, _)
OrderFrom(f, a, r, fs) ==
    IF fs = << >> THEN r
    ELSE LET d == BDiv(r, Head(fs))
         IN OrderFrom(f, a, IF PowNat(f, a, d) = One(f) THEN d ELSE r, Tail(fs))
OrderOf(f, a) == OrderFrom(f, a, Card1(f), OrderPrimes(f))
InGroupOf(f, a, b) == PowNat(f, b, OrderOf(f, a)) = One(f)

RECURSIVE DivisorsOf(_)
DivisorsOf(fs) ==   \* of the product of fs, equal primes side by side
    IF fs = << >> THEN {<<1>>}
    ELSE LET D == DivisorsOf(Tail(fs)) IN D \cup {BMul(Head(fs), d) : d \in D}

(* Code lengths.                                                           *)
LeastDivisor(D, n, r) ==    \* r is the least element of D at least n
    r \in D /\ BLe(n, r) /\ \A d \in D : BLe(n, d) => BLe(r, d)
RECURSIVE DropLowN(_, _, _, _)
DropLowN(fs, i, prod, n) ==
    IF i <= Len(fs) /\ BLe(n, BDiv(prod, fs[i]))
    THEN DropLowN(fs, i + 1, BDiv(prod, fs[i]), n) ELSE prod
RECURSIVE HighFromN(_, _, _, _)
HighFromN(fs, i, prod, n) ==
    IF BLe(n, prod) \/ i > Len(fs) THEN DropLowN(SubSeq(fs, 1, i - 1), 1, prod, n)
    ELSE HighFromN(fs, i + 1, BMul(prod, fs[i]), n)
HighCompoN(fs, n) == HighFromN(fs, 1, <<1>>, n)

-----------------------------------------------------------------------------
(* One operation: the result r of op on a (and b).                         *)
OfInt(f, i) == CASE f.c \in {"p", "l"} -> Embed(f, i % f.p)
                 [] f.c \in {"b", "w"} -> Embed(f, i % 2)
                 [] OTHER -> Embed(f, i)
NoSol == <<-1>>
IsLog(f, a, b, r) ==
    IF f.c = "l"
    THEN IF r = NoSol
         THEN \E i \in DOMAIN a : ~InGroupOf(Lane, a[i], b[i])
         ELSE \A i \in DOMAIN a : r[i] >= 0 /\ Pow(Lane, a[i], r[i]) = b[i]
    ELSE IF r = NoSol THEN ~InGroupOf(f, a, b)
         ELSE BIsNat(r) /\ PowNat(f, a, r) = b
SquareIn(f, a) ==
    IF a = Zero(f) \/ f.c \in {"b", "w"} \/ f.p = 2 THEN 1
    ELSE IF PowNat(f, a, BDiv(Card1(f), <<2>>)) = One(f) THEN 1 ELSE 0
OpOK(f, op, a, b, r) ==
    CASE op = "add" -> r = Add(f, a, b)
      [] op = "sub" -> r = Sub(f, a, b)
      [] op = "neg" -> r = Neg(f, a)
      [] op = "mul" -> r = Mul(f, a, b)
      [] op = "div" -> IsEl(f, r) /\ Mul(f, r, b) = a
      [] op \in {"inv", "inv_bezout", "inv_exp"} -> IsEl(f, r) /\ Mul(f, r, a) = One(f)
      [] op \in {"exp", "exp_quick", "exp_naive"} -> r = PowEl(f, a, b)
      [] op \in {"log", "log_naive"} -> IsLog(f, a, b, r)
      [] op = "replicate" -> r = (IF f.c = "l" THEN Embed(f, a) ELSE a)
      [] op = "qr" -> r = SquareIn(f, a)
      \* the inverse of the integer a, as an element
      [] op = "invn" -> IsEl(f, r) /\ Mul(f, r, OfInt(f, a)) = One(f)
      [] op = "check" -> r = (IF BLe(a, Card1(f)) THEN 1 ELSE 0)
Unary == {"neg", "inv", "inv_bezout", "inv_exp", "replicate", "qr", "invn", "check"}
OpsOK(f, op, a, b, r) ==
    /\ Len(r) = Len(a) /\ (op \notin Unary => Len(b) = Len(a))
    /\ \A i \in DOMAIN a :
         OpOK(f, op, a[i], IF op \in Unary THEN 0 ELSE b[i], r[i])

\* what is drawn at random: elements that are not zero
DrawnOK(f, r) ==
    \A i \in DOMAIN r :
      /\ IsEl(f, r[i])
      /\ IF f.c = "l" THEN \A x \in DOMAIN r[i] : r[i][x] # 0 ELSE r[i] # Zero(f)

OrdsOK(f, op, a, r) ==
    /\ Len(r) = Len(a)
    /\ CASE op = "order" -> \A i \in DOMAIN a : IsOrder(f, a[i], r[i])
         [] op \in {"prim", "isprim"} ->
              \A i \in DOMAIN a : r[i] = (IF IsPrimitive(f, a[i]) THEN 1 ELSE 0)
         [] op = "nth" -> \A i \in DOMAIN a :
              /\ IsEl(f, r[i])
              /\ IF f.c = "l" THEN /\ r[i] = Embed(f, r[i][1])
                                  /\ IsOrder(Lane, r[i][1], a[i])
                              ELSE IsOrder(f, r[i], a[i])
         [] op = "len" -> LET D == TLCEval(DivisorsOf(OrderPrimes(f)))
                          IN \A i \in DOMAIN a : LeastDivisor(D, a[i], r[i])
         [] op = "high" -> LET fs == OrderPrimes(f)
                           IN \A i \in DOMAIN a : r[i] = HighCompoN(fs, a[i])

(* A new field object.                                                     *)
FieldOK(f, e) ==
    /\ e.p = Char(f)
    /\ f.c # "l" => e.h = Card1(f)
    /\ f.c = "l" => e.h = Embed(f, 65536)
    /\ e.unit = One(f)
    /\ e.roots = 1
    /\ e.n = (IF f.c \in {"p", "q", "n"} THEN 1 ELSE f.n)
    /\ f.c # "l" => IsEl(f, e.root) /\ IsPrimitive(f, e.root)

-----------------------------------------------------------------------------
(* Whole buffers, element by element.                                      *)
Each(f, op, c, x, y) ==
    TLCEval([i \in DOMAIN x |->
      CASE op = "mul_coef" -> Mul(f, c, x[i])
        [] op = "add" -> Add(f, x[i], y[i])
        [] op = "sub" -> Sub(f, x[i], y[i])
        [] op = "neg" -> Neg(f, x[i])
        [] op = "had" -> Mul(f, x[i], y[i])])
BufsOp == [mulvec |-> "mul_coef", addv |-> "add", subv |-> "sub", negv |-> "neg"]
BufOK(f, e) == e.in = 1 /\ e.edges = 1 /\ e.r = Each(f, e.op, e.c, e.x, e.y)
BufsOK(f, e) == /\ e.in = 1
                /\ Len(e.r) = Len(e.x)
                /\ \A i \in DOMAIN e.x :
                     e.r[i] = Each(f, BufsOp[e.op], e.u[i], e.x[i], e.y[i])

(* NF4: lanes of 16 bits and a flag whose i-th bit says that lane i is     *)
(* 65536, to lanes of 32 bits and back.                                    *)
Flag(fl, i) == (fl \div 2^(i - 1)) % 2
PackOK(f, e) ==
    LET I == 1..f.n
        flag(x) == FoldLeft(LAMBDA acc, i: acc + (IF x[i] = 65536 THEN 2^(i-1) ELSE 0),
                            0, Upto(f.n))
        lanes(x) == TLCEval([i \in I |-> IF x[i] = 65536 THEN 0 ELSE x[i]])
    IN \A t \in DOMAIN e.a :
         /\ e.p0[t] = e.a[t]
         /\ e.p1[t] = [i \in I |-> IF Flag(e.fl[t], i) = 1 THEN 65536 ELSE e.a[t][i]]
         /\ e.uv[t] = lanes(e.ua[t]) /\ e.uv2[t] = lanes(e.ua[t])
         /\ e.uf[t] = flag(e.ua[t]) /\ e.uf2[t] = flag(e.ua[t])
=============================================================================

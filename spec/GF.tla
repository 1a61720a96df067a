--------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* The finite fields QuadIron computes in.  A field is a record:           *)
(*   c = "p"  the integers modulo a prime p <= 65537;  elements: integers  *)
(*   c = "q"  the integers modulo 4294991873;          elements: <<hi,lo>>,*)
(*            hi * 65536 + lo                                              *)
(*   c = "b"  GF(2^n), n <= 16;                        elements: integers  *)
(*   c = "w"  GF(2^n), n = 32, 64, 128;   elements: n/16 limbs of 16 bits, *)
(*            least significant first                                      *)
(*   c = "n"  the integers modulo any prime;           elements: BigNat    *)
(*   c = "l"  n lanes, each of the integers modulo 65537 (NF4: a ring of   *)
(*            lanes, every operation lane by lane);    elements: sequences *)
(* TLC's integers have 32 bits (31 of them usable), hence the split        *)
(* products below.                                                         *)
(***************************************************************************)
EXTENDS BigNat, Bitwise

FP(p) == [c |-> "p", p |-> p, n |-> 0]
FQ    == [c |-> "q", p |-> 0, n |-> 0]
FN(p) == [c |-> "n", p |-> p, n |-> 0]
FL(n) == [c |-> "l", p |-> 65537, n |-> n]
FB(n) == IF n <= 16 THEN [c |-> "b", p |-> 0, n |-> n]
                    ELSE [c |-> "w", p |-> 0, n |-> n]

Upto(n) == TLCEval([i \in 1..n |-> i])               \* <<1, ..., n>>

-----------------------------------------------------------------------------
(* Carry-less products: by definition on 4 bits, then composed.            *)
CLDef(a, b, n) ==
    FoldLeft(LAMBDA acc, i:
               IF (b \div 2^(i-1)) % 2 = 1 THEN acc ^^ (a * 2^(i-1)) ELSE acc,
             0, Upto(n))
CL4 == [x \in 0..255 |-> CLDef(x \div 16, x % 16, 4)]
CL8 == [x \in 0..65535 |->
         LET a == x \div 256
             b == x % 256
             ah == a \div 16  al == a % 16
             bh == b \div 16  bl == b % 16
         IN ((CL4[ah * 16 + bh] * 256)
             ^^ ((CL4[ah * 16 + bl] ^^ CL4[al * 16 + bh]) * 16))
            ^^ CL4[al * 16 + bl]]
CL16(a, b) ==
    LET ah == a \div 256  al == a % 256
        bh == b \div 256  bl == b % 256
    IN ((CL8[ah * 256 + bh] * 65536)
        ^^ ((CL8[ah * 256 + bl] ^^ CL8[al * 256 + bh]) * 256))
       ^^ CL8[al * 256 + bl]

(* Remainder of the polynomial v of degree at most i by poly, degree n.    *)
RECURSIVE RedBits(_, _, _, _)
RedBits(v, i, n, poly) ==
    IF i < n THEN v
    ELSE RedBits(IF (v \div 2^i) % 2 = 1 THEN v ^^ (poly * 2^(i-n)) ELSE v,
                 i - 1, n, poly)

\* The irreducible polynomials of the library (for n > 16 without x^n)
Poly2 == 7
Poly3 == 11
Poly4 == 19
Poly8 == 285
Poly16 == 69643
PolyW(n) == CASE n = 32 -> 141 [] n = 64 -> 27 [] n = 128 -> 135

Red4   == [h \in 0..7   |-> RedBits(h * 16, 6, 4, Poly4)]
Red8   == [h \in 0..127 |-> RedBits(h * 256, 14, 8, Poly8)]
Red16a == [h \in 0..255 |-> RedBits(h * 65536, 23, 16, Poly16)]
Red16b == [h \in 0..127 |-> RedBits(h * 16777216, 30, 16, Poly16)]

Tab2 == [x \in 0..15 |-> RedBits(CLDef(x \div 4, x % 4, 2), 2, 2, Poly2)]
Tab3 == [x \in 0..63 |-> RedBits(CLDef(x \div 8, x % 8, 3), 4, 3, Poly3)]
MulB4(a, b) == LET t == CL8[a * 256 + b] IN (t % 16) ^^ Red4[t \div 16]
MulB8(a, b) == LET t == CL8[a * 256 + b] IN (t % 256) ^^ Red8[t \div 256]
MulB16(a, b) ==
    LET t == CL16(a, b)
    IN ((t % 65536) ^^ Red16a[(t \div 65536) % 256]) ^^ Red16b[t \div 16777216]

(* Fields of more than 16 bits, on limbs.                                  *)
XorW(a, b) == TLCEval([i \in DOMAIN a |-> a[i] ^^ b[i]])
MulW(n, a, b) ==
    LET L == n \div 16
        c == TLCEval([i \in 1..L |-> TLCEval([j \in 1..L |-> CL16(a[i], b[j])])])
        \* limb s (1..2L) of the product
        lim(s) == FoldLeft(LAMBDA acc, i:
            LET j == s + 1 - i
                x == IF j >= 1 /\ j <= L THEN c[i][j] % 65536 ELSE 0
                y == IF j >= 2 /\ j <= L + 1 THEN c[i][j-1] \div 65536 ELSE 0
            IN (acc ^^ x) ^^ y, 0, Upto(L))
        p == TLCEval([s \in 1..2*L |-> lim(s)])
        r == PolyW(n)
        h == TLCEval([i \in 1..L |-> CL16(p[L + i], r)])   \* at most 23 bits each
        top == CL16(h[L] \div 65536, r)
    IN TLCEval([i \in 1..L |->
         ((p[i] ^^ (h[i] % 65536)) ^^ (IF i = 1 THEN top ELSE h[i-1] \div 65536))])

-----------------------------------------------------------------------------
(* Prime fields.                                                           *)
MulP(p, a, b) ==
    ((((a * (b \div 256)) % p) * 256) + (a * (b % 256))) % p

\* modulo 4294991873 = 65536 * 65536 + 24577; elements <<hi, lo>>
QLow == 24577
QGe(x) == x[1] > 65536 \/ (x[1] = 65536 /\ x[2] >= QLow)
QNorm(x) ==     \* any <<hi, lo>> of moderate size, to the representative
    LET h1 == x[1] + (x[2] \div 65536)
        l1 == x[2] % 65536
        q  == h1 \div 65536
        l2 == l1 - q * QLow
        h3 == (h1 - q * 65536) + (l2 \div 65536)
        l3 == l2 % 65536
        l4 == l3 + QLow                                  \* + p if negative
        y == IF h3 < 0 THEN <<h3 + 65536 + (l4 \div 65536), l4 % 65536>>
                       ELSE <<h3, l3>>
    IN IF QGe(y) THEN LET d == y[2] - QLow
                      IN <<y[1] - 65536 + (d \div 65536), d % 65536>>
       ELSE y
QAdd(a, b) == QNorm(<<a[1] + b[1], a[2] + b[2]>>)
QNeg(a) == IF a = <<0, 0>> THEN a ELSE QNorm(<<65536 - a[1], QLow - a[2]>>)
QMul(a, b) ==
    LET step(acc, d) == QNorm(<<acc[1] * 256 + a[1] * d, acc[2] * 256 + a[2] * d>>)
    IN FoldLeft(step, <<0, 0>>,
                << b[1] \div 65536, (b[1] \div 256) % 256, b[1] % 256,
                   b[2] \div 256, b[2] % 256 >>)

-----------------------------------------------------------------------------
(* Operations of any field.                                                *)
Embed(f, i) ==      \* the element written as the small integer i
    CASE f.c = "q" -> <<i \div 65536, i % 65536>>
      [] f.c = "w" -> TLCEval([x \in 1..(f.n \div 16) |->
                        IF x = 1 THEN i % 65536
                        ELSE IF x = 2 THEN i \div 65536 ELSE 0])
      [] f.c = "n" -> NatOf(i)
      [] f.c = "l" -> TLCEval([x \in 1..f.n |-> i])
      [] OTHER -> i
Zero(f) == Embed(f, 0)
One(f) == Embed(f, 1)
Add(f, a, b) ==
    CASE f.c = "p" -> (a + b) % f.p
      [] f.c = "b" -> a ^^ b
      [] f.c = "w" -> XorW(a, b)
      [] f.c = "q" -> QAdd(a, b)
      [] f.c = "n" -> LET s == BAdd(a, b) IN IF BLt(s, f.p) THEN s ELSE BSub(s, f.p)
      [] f.c = "l" -> TLCEval([x \in 1..f.n |-> (a[x] + b[x]) % 65537])
Neg(f, a) ==
    CASE f.c = "p" -> (f.p - a) % f.p
      [] f.c = "q" -> QNeg(a)
      [] f.c = "n" -> IF a = << >> THEN a ELSE BSub(f.p, a)
      [] f.c = "l" -> TLCEval([x \in 1..f.n |-> (65537 - a[x]) % 65537])
      [] OTHER -> a
Sub(f, a, b) == Add(f, a, Neg(f, b))
Mul(f, a, b) ==
    CASE f.c = "p" -> MulP(f.p, a, b)
      [] f.c = "b" -> (CASE f.n = 8 -> MulB8(a, b)
                         [] f.n = 16 -> MulB16(a, b)
                         [] f.n = 4 -> MulB4(a, b)
                         [] f.n = 3 -> Tab3[a * 8 + b]
                         [] f.n = 2 -> Tab2[a * 4 + b]
                         [] f.n = 1 -> a * b)
      [] f.c = "w" -> MulW(f.n, a, b)
      [] f.c = "q" -> QMul(a, b)
      [] f.c = "n" -> BMulMod(a, b, f.p)
      [] f.c = "l" -> TLCEval([x \in 1..f.n |-> MulP(65537, a[x], b[x])])
Sqr(f, a) == Mul(f, a, a)

RECURSIVE Pow(_, _, _)
Pow(f, a, e) ==
    IF e = 0 THEN One(f)
    ELSE LET h == Pow(f, a, e \div 2)
             s == Mul(f, h, h)
         IN IF e % 2 = 1 THEN Mul(f, s, a) ELSE s

(* The prime factors of the order of the multiplicative group, in          *)
(* increasing order, with their multiplicity.                              *)
RECURSIVE FactorsFrom(_, _)
FactorsFrom(n, d) ==
    IF n = 1 THEN << >>
    ELSE IF d * d > n THEN <<n>>
    ELSE IF n % d = 0 THEN <<d>> \o FactorsFrom(n \div d, d)
    ELSE FactorsFrom(n, d + 1)
OrderFactors(f) ==
    CASE f.c = "p" -> FactorsFrom(f.p - 1, 2)
      [] f.c = "b" -> FactorsFrom(2^(f.n) - 1, 2)
      [] f.c = "q" -> [i \in 1..13 |-> 2] \o <<29, 101, 179>>
      [] f.c = "w" /\ f.n = 32 -> <<3, 5, 17, 257, 65537>>
      [] f.c = "w" /\ f.n = 64 -> <<3, 5, 17, 257, 641, 65537, 6700417>>
      \* the last factor of 2^128-1 is 67280421310721 = 4010225 * 2^24 + 10277121
      [] f.c = "w" /\ f.n = 128 -> <<3, 5, 17, 257, 641, 65537, 274177, 6700417, -1>>
PowFactor(f, a, p) ==
    IF p = -1
    THEN Mul(f, Pow(f, Pow(f, a, 16777216), 4010225), Pow(f, a, 10277121))
    ELSE Pow(f, a, p)

(* The least primitive element, as an integer.  (MCField checks it.)       *)
Root(f) ==
    CASE f.c \in {"p", "q"} -> Embed(f, 3)
      [] f.c = "b" -> IF f.n = 1 THEN 1 ELSE 2
      [] f.c = "w" -> Embed(f, IF f.n = 32 THEN 3 ELSE 2)

(* The multiplicative inverse: a^(q-2).                                    *)
Inv(f, a) ==
    CASE f.c = "p" -> Pow(f, a, f.p - 2)
      [] f.c = "b" -> Pow(f, a, 2^(f.n) - 2)
      [] f.c = "q" -> \* p - 2 = 65536 * 65536 + 24575
            Mul(f, Pow(f, Pow(f, a, 65536), 65536), Pow(f, a, 24575))
      [] f.c = "n" -> BPowMod(a, BSub(f.p, <<2>>), f.p)
      [] f.c = "l" -> Pow(f, a, 65535)
      [] f.c = "w" -> \* 2^n - 2 = 2 + 4 + ... + 2^(n-1)
            LET st == FoldLeft(LAMBDA acc, i:
                                 LET s == Sqr(f, acc[2])
                                 IN <<Mul(f, acc[1], s), s>>,
                               <<One(f), a>>, Upto(f.n - 1))
            IN st[1]
Div(f, a, b) == Mul(f, a, Inv(f, b))

SumF(f, s) == FoldLeft(LAMBDA acc, x: Add(f, acc, x), Zero(f), s)
ProdF(f, s) == FoldLeft(LAMBDA acc, x: Mul(f, acc, x), One(f), s)
DotF(f, x, y) ==
    CASE f.c = "p" ->
           FoldLeft(LAMBDA acc, i: (acc + MulP(f.p, x[i], y[i])) % f.p,
                    0, Upto(Len(x)))
      [] OTHER ->
           FoldLeft(LAMBDA acc, i: Add(f, acc, Mul(f, x[i], y[i])),
                    Zero(f), Upto(Len(x)))

(* Code lengths.  The highly composite length: the prime factors of the    *)
(* order taken in increasing order until the request is reached, then the  *)
(* least of them given up while the request is still reached.              *)
RECURSIVE DropLow(_, _, _, _)
DropLow(fs, i, prod, n) ==
    IF i <= Len(fs) /\ prod \div fs[i] >= n
    THEN DropLow(fs, i + 1, prod \div fs[i], n) ELSE prod
RECURSIVE HighFrom(_, _, _, _)
HighFrom(fs, i, prod, n) ==
    IF prod >= n \/ i > Len(fs) THEN DropLow(SubSeq(fs, 1, i - 1), 1, prod, n)
    ELSE HighFrom(fs, i + 1, prod * fs[i], n)
HighCompo(f, n) == HighFrom(OrderFactors(f), 1, 1, n)

(* The library's element of multiplicative order n (n divides the order,   *)
(* all of the prime factors of n being small).                             *)
RECURSIVE WithoutFactor(_, _)
WithoutFactor(fs, p) ==     \* fs with one occurrence of p removed
    IF Head(fs) = p THEN Tail(fs) ELSE <<Head(fs)>> \o WithoutFactor(Tail(fs), p)
NthRoot(f, n) ==
    LET rest == FoldLeft(WithoutFactor, OrderFactors(f), FactorsFrom(n, 2))
    IN FoldLeft(LAMBDA acc, p: PowFactor(f, acc, p), Root(f), rest)

Powers(f, r, n) ==  \* <<r^0, ..., r^(n-1)>>
    IF n = 0 THEN << >>
    ELSE FoldLeft(LAMBDA acc, i: Append(acc, Mul(f, acc[Len(acc)], r)),
                  <<One(f)>>, Upto(n - 1))

(* Evaluation of a polynomial, coefficients from the constant one up.      *)
Eval(f, c, x) ==
    FoldLeft(LAMBDA acc, i: Add(f, Mul(f, acc, x), c[Len(c) + 1 - i]),
             Zero(f), Upto(Len(c)))

(* The Lagrange basis polynomials of the points pts, evaluated at x (not   *)
(* one of the points).                                                     *)
Lagrange(f, pts, x) ==
    LET K == Len(pts)
        all == FoldLeft(LAMBDA acc, t: Mul(f, acc, Sub(f, x, pts[t])), One(f), Upto(K))
        den(j) == Mul(f, Sub(f, x, pts[j]),
                      FoldLeft(LAMBDA acc, t:
                          IF t = j THEN acc
                          ELSE Mul(f, acc, Sub(f, pts[j], pts[t])),
                        One(f), Upto(K)))
    IN TLCEval([j \in 1..K |-> Div(f, all, den(j))])
=============================================================================

------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size, for TLC's 32-bit integers: sequences of    *)
(* digits in base 8192, least significant first, without leading zeros     *)
(* (zero is the empty sequence).  MCArith checks them against integers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

BB == 8192
BRange(a, b) == TLCEval([i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1])
RECURSIVE BTrim(_)
BTrim(s) == IF s # << >> /\ s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE NatOf(_)
NatOf(i) == IF i = 0 THEN << >> ELSE <<i % BB>> \o NatOf(i \div BB)     \* of an integer
BIsNat(s) == /\ \A i \in DOMAIN s : s[i] \in 0..(BB - 1)
             /\ s # << >> => s[Len(s)] # 0
BSmall(s) == Len(s) < 3 \/ (Len(s) = 3 /\ s[3] < 16)            \* < 2^30
ToInt(s) == FoldRight(LAMBDA d, acc: acc * BB + d, s, 0)        \* BSmall(s)
BEven(s) == s = << >> \/ s[1] % 2 = 0

Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE BCmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpFrom(a, b, Len(a))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BMax2(a, b) == IF BLt(a, b) THEN b ELSE a

\* digits of any (moderate, possibly negative) size to a natural number
BCarry(s) ==
    LET st == FoldLeft(LAMBDA acc, d:
                  LET v == d + acc[2] IN <<Append(acc[1], v % BB), v \div BB>>,
                  <<<< >>, 0>>, s)
    IN BTrim(st[1] \o NatOf(st[2]))
BLen2(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
BAdd(a, b) == BCarry([i \in 1..BLen2(a, b) |-> Dig(a, i) + Dig(b, i)])
BSub(a, b) == BCarry([i \in 1..BLen2(a, b) |-> Dig(a, i) - Dig(b, i)])  \* b <= a
BMulS(a, d) == BCarry([i \in 1..Len(a) |-> a[i] * d])                   \* d <= BB
BMul(a, b) ==   \* at most 31 digits in the shorter one
    IF a = << >> \/ b = << >> THEN << >>
    ELSE BCarry([s \in 1..(Len(a) + Len(b) - 1) |->
           LET lo == IF s > Len(b) THEN s + 1 - Len(b) ELSE 1
               hi == IF s < Len(a) THEN s ELSE Len(a)
           IN FoldLeft(LAMBDA acc, i: acc + a[i] * b[s + 1 - i], 0, BRange(lo, hi))])

(* Long division with the divisor's first digit at least BB/2 (Knuth's     *)
(* Algorithm D): the estimate of a digit is never too small, and at most   *)
(* two too large.                                                          *)
BDivStep(acc, d, v) ==      \* acc = <<quotient digits, high ones first; rest>>
    LET r == IF acc[2] = << >> /\ d = 0 THEN << >> ELSE <<d>> \o acc[2]
        n == Len(v)
        e == (Dig(r, n + 1) * BB + Dig(r, n)) \div v[n]
        q0 == IF e >= BB THEN BB - 1 ELSE e
        q == IF BLe(BMulS(v, q0), r) THEN q0
             ELSE IF BLe(BMulS(v, q0 - 1), r) THEN q0 - 1 ELSE q0 - 2
    IN IF BLt(r, v) THEN <<Append(acc[1], 0), r>>
       ELSE <<Append(acc[1], q), BSub(r, BMulS(v, q))>>
BDivS(a, d) ==          \* by an integer of at most 13 bits: <<quotient, rest>>
    LET st == FoldRight(LAMBDA x, acc:
                 LET v == acc[2] * BB + x IN <<Append(acc[1], v \div d), v % d>>,
                 a, <<<< >>, 0>>)
    IN <<BTrim(Reverse(st[1])), NatOf(st[2])>>
BDivMod(a, b) ==        \* b > 0
    IF BLt(a, b) THEN <<<< >>, a>>
    ELSE IF Len(b) = 1 THEN BDivS(a, b[1])
    ELSE LET d == BB \div (b[Len(b)] + 1)
             v == BMulS(b, d)
             u == BMulS(a, d)
             st == FoldRight(LAMBDA x, acc: BDivStep(acc, x, v), u, <<<< >>, << >>>>)
         IN <<BTrim(Reverse(st[1])), BDivS(st[2], d)[1]>>
BDiv(a, b) == BDivMod(a, b)[1]
BMod(a, b) == BDivMod(a, b)[2]
BDivides(d, a) == BMod(a, d) = << >>
BMulMod(a, b, m) == BMod(BMul(a, b), m)

RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = << >> THEN a ELSE BGcd(b, BMod(a, b))

\* from the top bit of e down
BBits(e) == LET all == FoldRight(LAMBDA d, acc:
                  acc \o [i \in 1..13 |-> (d \div 2^(13 - i)) % 2], e, << >>)
                j == SelectInSeq(all, LAMBDA x: x = 1)
            IN IF j = 0 THEN << >> ELSE SubSeq(all, j, Len(all))
BPowMod(a, e, m) ==
    FoldLeft(LAMBDA acc, bit:
               LET s == BMulMod(acc, acc, m)
               IN IF bit = 1 THEN BMulMod(s, a, m) ELSE s,
             BMod(<<1>>, m), BBits(e))
RECURSIVE BPow(_, _)
BPow(a, e) == IF e = 0 THEN <<1>> ELSE BMul(a, BPow(a, e - 1))  \* e an integer
BProd(s) == FoldLeft(BMul, <<1>>, s)
BTwoTo(e) == [i \in 1..(e \div 13 + 1) |-> IF i = e \div 13 + 1 THEN 2^(e % 13) ELSE 0]
=============================================================================

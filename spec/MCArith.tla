------------------------------ MODULE MCArith -------------------------------
(***************************************************************************)
(* The definitions of BigNat and Arith against the integers, exhaustively  *)
(* on small arguments: a state is a pair of numbers.                       *)
(***************************************************************************)
EXTENDS Arith

CONSTANTS Lim
VARIABLES a, b
Init == a \in 0..Lim /\ b = 0
Next == b < Lim /\ b' = b + 1 /\ UNCHANGED a

Sg(i) == [s |-> IF i > 0 THEN 1 ELSE IF i = 0 THEN 0 ELSE -1,
          m |-> NatOf(IF i < 0 THEN -i ELSE i)]
\* spread over several digits: 7919 is coprime to the base
Big(i) == BMul(NatOf(i), NatOf(7919))
Nats ==
    LET A == Big(a)  B == Big(b)  x == 7919 * a  y == 7919 * b
    IN /\ BIsNat(A) /\ ToInt(A) = x
       /\ ToInt(BAdd(A, B)) = x + y
       /\ BCmp(A, B) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
       /\ y <= x => ToInt(BSub(A, B)) = x - y
       /\ ToInt(BMul(NatOf(a), B)) = a * y
       /\ b > 0 => /\ BDivMod(A, B) = <<NatOf(x \div y), NatOf(x % y)>>
                   \* (A + B^3) = B^3 + A, several digits
                   /\ LET c == BAdd(BMul(BMul(B, B), B), A)
                          d == BDivMod(c, B)
                      IN BAdd(BMul(d[1], B), d[2]) = c /\ BLt(d[2], B)
                   /\ BPowMod(NatOf(a), <<3>>, NatOf(b)) = NatOf((((a * a) % b) * a) % b)
\* greatest common divisor, primality and symbols from first principles
Divs(n) == {d \in 1..n : n % d = 0}
RECURSIVE Gcd0(_, _)
Gcd0(x, y) == IF y = 0 THEN x ELSE LET D == {d \in 1..y : x % d = 0 /\ y % d = 0}
                                   IN CHOOSE d \in D : \A e \in D : e <= d
Defs ==
    /\ BGcd(NatOf(a), NatOf(b)) = NatOf(Gcd0(a, b))
    /\ b = 0 => /\ PrimeInt(a) = (a >= 2 /\ Cardinality(Divs(a)) = 2)
                /\ PrimeNat(NatOf(a)) = PrimeInt(a)
                /\ a > 0 => LET fs == TrialFactors(a, 2)
                            IN /\ BProd(fs) = NatOf(a)
                               /\ \A i \in DOMAIN fs : PrimeNat(fs[i])
                               /\ {ToInt(d) : d \in DivsOf(fs)} = Divs(a)
                               /\ PrimesAre(NatOf(a), Uniq(fs))
    /\ PrimeInt(b) /\ b > 2 =>
         Jacobi(Sg(a), <<NatOf(b)>>) =
           (IF a % b = 0 THEN 0
            ELSE IF \E x \in 1..(b - 1) : (x * x) % b = a % b THEN 1 ELSE -1)
    /\ PrimeInt(b) /\ b > 2 =>
         Jacobi(Sg(-a), <<NatOf(b)>>) =
           (IF a % b = 0 THEN 0
            ELSE IF \E x \in 1..(b - 1) : (x * x + a) % b = 0 THEN 1 ELSE -1)
    \* code lengths
    /\ a > 0 /\ b > 0 /\ b <= a =>
         LET fs == TrialFactors(a, 2)
             h == TakeFrom(fs, 1, <<1>>, NatOf(b))
         IN BDivides(h, NatOf(a)) /\ BLe(NatOf(b), h)
Good == Nats /\ Defs
=============================================================================

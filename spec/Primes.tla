------------------------------- MODULE Primes -------------------------------
(* Big primes with the prime factors of their predecessors and a primitive  *)
(* root, as BigNat numbers.  MCField checks them (Pratt certificates).      *)
EXTENDS Integers, Sequences
BigPrimes == <<
  [p |-> <<3, 8>>,   \* 65539
   g |-> <<2>>,
   fs |-> <<<<2>>, <<3>>, <<3>>, <<11>>, <<331>>>>],
  [p |-> <<8191, 15>>,   \* 131071
   g |-> <<3>>,
   fs |-> <<<<2>>, <<3>>, <<5>>, <<17>>, <<257>>>>],
  [p |-> <<1, 7168, 14>>,   \* 998244353
   g |-> <<3>>,
   fs |-> <<<<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<7>>, <<17>>>>],
  [p |-> <<2567, 7382, 14>>,   \* 1000000007
   g |-> <<5>>,
   fs |-> <<<<2>>, <<1283, 3691, 7>>>>],
  [p |-> <<8191, 8191, 31>>,   \* 2147483647
   g |-> <<7>>,
   fs |-> <<<<2>>, <<3>>, <<3>>, <<7>>, <<11>>, <<31>>, <<151>>, <<331>>>>],
  [p |-> <<1, 0, 48>>,   \* 3221225473
   g |-> <<5>>,
   fs |-> <<<<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<3>>>>],
  [p |-> <<1, 8064, 63>>,   \* 4293918721
   g |-> <<19>>,
   fs |-> <<<<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<3>>, <<3>>, <<5>>, <<7>>, <<13>>>>],
  [p |-> <<8187, 8191, 63>>,   \* 4294967291
   g |-> <<2>>,
   fs |-> <<<<2>>, <<5>>, <<19>>, <<3363, 2759>>>>],
  [p |-> <<8191, 8191, 8191, 8191, 511>>,   \* 2305843009213693951
   g |-> <<37>>,
   fs |-> <<<<2>>, <<3>>, <<3>>, <<5>>, <<5>>, <<7>>, <<11>>, <<13>>, <<31>>, <<41>>, <<61>>, <<151>>, <<331>>, <<1321>>>>],
  [p |-> <<1, 0, 0, 0, 928>>,   \* 4179340454199820289
   g |-> <<3>>,
   fs |-> <<<<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<29>>>>],
  [p |-> <<1, 0, 8128, 8191, 4095>>,   \* 18446744069414584321
   g |-> <<7>>,
   fs |-> <<<<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<2>>, <<3>>, <<5>>, <<17>>, <<257>>, <<1, 8>>>>] >>
F128 == <<4353, 3302, 3132, 122>>       \* 67280421310721, a factor of 2^128-1
=============================================================================

------------------------------- MODULE RSCode -------------------------------
(***************************************************************************)
(* The codes: for each kind, word size w (bytes), n_data k and n_parities  *)
(* m, the generator matrix, i.e. what each output fragment is, word by     *)
(* word, as a function of the data.                                        *)
(*   fnts  systematic Fermat number transform code (RsFnt, SYSTEMATIC)     *)
(*   fntn  non-systematic one                                              *)
(*   nf4   RsNf4: 16-bit lanes of the word, modulo 65537                   *)
(*   g2v, g2c  RsGf2n, Vandermonde and Cauchy                              *)
(*   g2f, g2a  RsGf2nFft, RsGf2nFftAdd                                     *)
(*   gpf   RsGfpFft                                                        *)
(***************************************************************************)
EXTENDS GF

IsSys(kind) == kind \in {"fnts", "g2v", "g2c"}

FieldOf(kind, w) ==
    CASE kind \in {"fnts", "fntn"} -> FP(IF w = 1 THEN 257 ELSE 65537)
      [] kind = "nf4" -> FP(65537)
      [] kind = "gpf" -> (CASE w = 1 -> FP(257) [] w = 2 -> FP(65537)
                            [] w = 4 -> FQ)
      [] OTHER -> FB(8 * w)

RECURSIVE CeilTwo(_, _)
CeilTwo(n, p) == IF p >= n THEN p ELSE CeilTwo(n, 2 * p)

\* length of the transform
CodeLenN(kind, w, k, m) ==
    CASE kind \in {"g2v", "g2c"} -> k + m
      [] kind = "g2a" -> CeilTwo(k + m, 1)
      [] OTHER -> HighCompo(FieldOf(kind, w), k + m)
NOutputs(kind, k, m) == IF IsSys(kind) THEN m ELSE k + m
CodeLen(kind, k, m) == k + m
RealOutputs(kind, w, k, m) ==
    IF IsSys(kind) THEN m ELSE CodeLenN(kind, w, k, m)

(* The additive transform of length 2^d works at the points of the         *)
(* subspace spanned by g^2, ..., g^d, 1 with g the root: point i is the sum*)
(* of the basis elements of the bits of i, g^(d - ... ) as below.          *)
AddBasis(f, d) ==
    TLCEval([i \in 1..d |-> IF i = d THEN One(f) ELSE Pow(f, Root(f), i)])
AddPoint(f, d, i) ==
    LET B == AddBasis(f, d)
    IN FoldLeft(LAMBDA acc, b:
                  IF (i \div 2^(b-1)) % 2 = 1 THEN Add(f, acc, B[b]) ELSE acc,
                Zero(f), Upto(d))
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* rows of the generator of the outputs `which` (numbers from 0)
Row(kind, w, k, m, i) ==
    LET f == FieldOf(kind, w)
        n == CodeLenN(kind, w, k, m)
    IN CASE kind \in {"fntn", "nf4", "gpf", "g2f"} ->
              LET x == Pow(f, NthRoot(f, n), i) IN Powers(f, x, k)
         [] kind = "g2a" -> Powers(f, AddPoint(f, Log2(n), i), k)
         [] kind = "fnts" ->
              LET r == NthRoot(f, n)
              IN Lagrange(f, Powers(f, r, k), Pow(f, r, k + i))
         [] kind = "g2v" ->
              Lagrange(f, TLCEval([t \in 1..k |-> Embed(f, t - 1)]), Embed(f, k + i))
         [] kind = "g2c" ->
              LET c(a, b) == Inv(f, Embed(f, a ^^ (b + m)))
              IN TLCEval([j \in 1..k |->
                    Div(f, Mul(f, c(i, j - 1), c(0, 0)),
                           Mul(f, c(0, j - 1), c(i, 0)))])
Generator(kind, w, k, m) ==
    TLCEval([i \in 1..NOutputs(kind, k, m) |-> Row(kind, w, k, m, i - 1)])

-----------------------------------------------------------------------------
(* Words and symbols.  A word of w <= 2 bytes is an integer, a wider one   *)
(* the sequence of its 16-bit limbs.  The word of an output is a record of *)
(* the stored word and of the marker for symbols that do not fit (0: fits).*)
DotLane(row, d, l) ==   \* NF4: the lane l of the data words
    FoldLeft(LAMBDA acc, j: (acc + MulP(65537, row[j], d[j][l])) % 65537,
             0, Upto(Len(row)))
OutWord(kind, w, row, d) ==
    LET f == FieldOf(kind, w)
    IN CASE kind = "nf4" /\ w = 2 ->
              LET v == DotF(f, row, d)
              IN [v |-> v % 65536, mark |-> v \div 65536]
         [] kind = "nf4" ->
              LET v == TLCEval([l \in 1..(w \div 2) |-> DotLane(row, d, l)])
              IN [v |-> TLCEval([l \in DOMAIN v |-> v[l] % 65536]),
                  mark |-> FoldLeft(LAMBDA acc, l:
                              acc + (v[l] \div 65536) * 2^(l-1),
                            0, Upto(w \div 2))]
         [] f.c = "p" ->
              LET v == DotF(f, row, d)
                  lim == IF w = 1 THEN 256 ELSE 65536
              IN [v |-> v % lim, mark |-> v \div lim]
         [] f.c = "q" ->
              LET v == DotF(f, row, TLCEval([j \in DOMAIN d |-> <<d[j][2], d[j][1]>>]))
              IN [v |-> <<v[2], v[1] % 65536>>, mark |-> v[1] \div 65536]
         [] OTHER -> [v |-> DotF(f, row, d), mark |-> 0]
=============================================================================

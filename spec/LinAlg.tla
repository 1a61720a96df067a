------------------------------- MODULE LinAlg -------------------------------
(* Linear algebra over a field of GF.  A matrix is a sequence of rows.     *)
EXTENDS GF

MatVec(f, M, x) == TLCEval([i \in DOMAIN M |-> DotF(f, M[i], x)])
Column(M, j) == TLCEval([i \in DOMAIN M |-> M[i][j]])
Ident(f, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
                 IF i = j THEN One(f) ELSE Zero(f)])])
MatMul(f, P, Q) ==
    LET cols == TLCEval([j \in 1..Len(Q[1]) |-> Column(Q, j)])
    IN TLCEval([i \in DOMAIN P |-> TLCEval([j \in 1..Len(cols) |->
                 DotF(f, P[i], cols[j])])])

(* One step of the elimination on column j: M has the pivot in row p >= j. *)
Swapped(M, a, b) ==
    TLCEval([i \in DOMAIN M |-> IF i = a THEN M[b] ELSE IF i = b THEN M[a] ELSE M[i]])
Scaled(f, row, c) == TLCEval([x \in DOMAIN row |-> Mul(f, c, row[x])])
AddMul(f, row, c, piv) ==
    TLCEval([x \in DOMAIN row |-> Add(f, row[x], Mul(f, c, piv[x]))])
RECURSIVE GaussJ(_, _, _, _)
\* reduced M with its first n columns made the identity, or <<>> if singular
GaussJ(f, M, j, n) ==
    IF j > n THEN M
    ELSE LET ps == {i \in j..n : M[i][j] # Zero(f)}
         IN IF ps = {} THEN << >>
            ELSE LET p == CHOOSE i \in ps : \A x \in ps : i <= x
                     S == Swapped(M, j, p)
                     r == Scaled(f, S[j], Inv(f, S[j][j]))
                     E == TLCEval([i \in 1..n |->
                            IF i = j THEN r
                            ELSE IF S[i][j] = Zero(f) THEN S[i]
                            ELSE AddMul(f, S[i], Neg(f, S[i][j]), r)])
                 IN GaussJ(f, E, j + 1, n)
NonSingular(f, M) == GaussJ(f, M, 1, Len(M)) # << >>
InverseM(f, M) ==
    LET n == Len(M)
        I == Ident(f, n)
        G == GaussJ(f, TLCEval([i \in 1..n |-> M[i] \o I[i]]), 1, n)
    IN IF G = << >> THEN << >>
       ELSE TLCEval([i \in 1..n |-> SubSeq(G[i], n + 1, 2 * n)])
=============================================================================

------------------------------- MODULE MCCode -------------------------------
(***************************************************************************)
(* Design check: with the generator matrices of RSCode, any k fragments    *)
(* determine the data (MDS), no k - 1 do, and the transform of the data is *)
(* what the marks say.  Every code kind of Kinds with k + m <= MaxN, every *)
(* choice of k fragments.  Emits nothing; the states are the choices.      *)
(***************************************************************************)
EXTENDS RSCode, LinAlg

CONSTANTS Kinds, MaxN       \* Kinds: set of <<kind, w>>

KindsQuick == {<<"fnts",1>>, <<"fntn",1>>, <<"fnts",2>>, <<"nf4",2>>, <<"g2v",1>>,
               <<"g2c",1>>, <<"g2f",1>>, <<"g2a",1>>, <<"gpf",4>>}
KindsMore == KindsQuick \cup {<<"fntn",2>>, <<"g2v",2>>, <<"g2c",2>>, <<"g2f",2>>,
               <<"g2a",2>>, <<"gpf",1>>, <<"gpf",2>>}
KindsWide == {<<"g2v",4>>, <<"g2c",4>>, <<"g2f",4>>, <<"g2a",4>>, <<"g2a",8>>}

VARIABLES kw, k, m, S, rows

Full(kind, w, kk, mm) ==    \* rows of all of the fragments
    LET f == FieldOf(kind, w)
        g == Generator(kind, w, kk, mm)
    IN IF IsSys(kind) THEN Ident(f, kk) \o g ELSE g

Legal(kind, w, n) ==
    kind \in {"g2f"} => n <= 2^(8 * w) - 1

Init == /\ kw \in Kinds
        /\ k \in 1..(MaxN - 1) /\ m \in 1..(MaxN - 1) /\ k + m <= MaxN
        /\ Legal(kw[1], kw[2], k + m)
        /\ S = {}
        /\ rows = Full(kw[1], kw[2], k, m)
\* the choice grows one fragment at a time, in increasing order
Next == /\ Cardinality(S) < k
        /\ \E i \in 1..(k + m) : (\A j \in S : j < i) /\ S' = S \cup {i}
        /\ UNCHANGED <<kw, k, m, rows>>

F == FieldOf(kw[1], kw[2])
Chosen == LET s == SetToSortSeq(S, LAMBDA a, b: a < b)
          IN [i \in DOMAIN s |-> rows[s[i]]]
\* any k fragments determine the data
AnyK == Cardinality(S) = k => NonSingular(F, Chosen)
\* a systematic code keeps a row of the identity for each data fragment, and
\* no row of the parities has a zero (a parity depends on each datum)
Dense == \A i \in DOMAIN rows : \A j \in 1..k :
            rows[i][j] = Zero(F) =>
               \/ IsSys(kw[1]) /\ i <= k
               \/ kw[1] = "g2a" /\ i = 1
Shape == Len(rows) = k + m /\ \A i \in DOMAIN rows : Len(rows[i]) = k
=============================================================================

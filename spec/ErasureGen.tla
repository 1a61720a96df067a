----------------------------- MODULE ErasureGen -----------------------------
(* Generates what a decoder can be asked for: parameters, available        *)
(* fragments (Few: fewer than k, else from k to k + Hi) as "@@" lines.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxN, Few, Hi
VARIABLES k, m, s           \* s: one bit per fragment decided so far
ones == Cardinality({i \in DOMAIN s : s[i] = 1})
Init == k \in 1..(MaxN - 1) /\ m \in 1..(MaxN - 1) /\ k + m <= MaxN /\ s = << >>
Next == /\ Len(s) < k + m
        /\ \E b \in {0, 1} : s' = Append(s, b)
        /\ UNCHANGED <<k, m>>
Out == (Len(s) = k + m /\ IF Few THEN ones < k ELSE ones >= k /\ ones <= k + Hi) =>
          PrintT("@@" \o ToJson([k |-> k, m |-> m, s |-> s]))
=============================================================================

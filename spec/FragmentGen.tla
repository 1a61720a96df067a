---------------------------- MODULE FragmentGen -----------------------------
(* Generates histories of losses and repairs for FragmentStore, as "@@"    *)
(* lines: JSON objects with k, m, sys and the operations.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Shapes, Slack      \* Slack: how many too few
VARIABLES hist, par, av, bad
vars == <<hist, par, av, bad>>
N == par[1] + par[2]
Outs == IF par[3] = 1 THEN (par[1] + 1)..N ELSE 1..N
Log(r) == hist' = Append(hist, r)
Init == /\ par \in Shapes /\ hist = << >> /\ av = 1..(par[1] + par[2]) /\ bad = {}
Able == Cardinality(av) >= par[1] /\ bad \cap av = {}
Lose == \E i \in av : /\ Cardinality(av) > par[1] - Slack
                      /\ av' = av \ {i} /\ bad' = bad \ {i}
                      /\ Log([op |-> "lose", i |-> i])
Find == \E i \in (1..N \ av) \cup bad :
          /\ ~Able /\ av' = av \cup {i} /\ bad' = bad \ {i}
          /\ Log([op |-> "find", i |-> i])
Corrupt == /\ bad = {} /\ Len(hist) % 2 = 0
           /\ \E i \in Outs \cap av : bad' = {i} /\ Log([op |-> "corrupt", i |-> i])
           /\ UNCHANGED av
Rec == \E i \in 1..N :
          /\ IF Able THEN av' = av \cup {i} /\ bad' = bad \ {i} ELSE UNCHANGED <<av, bad>>
          /\ Log([op |-> "rec", i |-> i])
Dec == \E keep \in {0, 1} :
          /\ IF Able /\ keep = 1 /\ par[3] = 1 THEN av' = av \cup 1..(par[1]) ELSE UNCHANGED av
          /\ UNCHANGED bad
          /\ Log([op |-> "dec", keep |-> keep])
Done == /\ Len(hist) = Depth
        /\ PrintT("@@" \o ToJson([k |-> par[1], m |-> par[2], sys |-> par[3], ops |-> hist]))
        /\ Log([op |-> "end"]) /\ UNCHANGED <<av, bad>>
Next == /\ UNCHANGED par
        /\ \/ Len(hist) < Depth /\ (Lose \/ Find \/ Corrupt \/ Rec \/ Dec)
           \/ Done
Small == {<<1, 1, 0>>, <<1, 1, 1>>, <<2, 1, 1>>, <<2, 1, 0>>, <<1, 2, 1>>, <<1, 2, 0>>}
Mid == {<<k, m, s>> : k \in 1..6, m \in 1..5, s \in {0, 1}}
Big == {<<k, m, s>> : k \in {8, 12, 16}, m \in {3, 4, 8}, s \in {0, 1}}
Tiny == {<<2, 1, 0>>, <<2, 1, 1>>}
=============================================================================

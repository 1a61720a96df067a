------------------------------ MODULE MCBuffers -----------------------------
(***************************************************************************)
(* BufferViews on small instances: the rules for what may be done suffice  *)
(* for memory safety (nothing freed is used or freed again), padding stays *)
(* zero, and what a write changes is exactly what aliasing says.           *)
(***************************************************************************)
EXTENDS BufferViews
CONSTANTS Depth, MaxN
VARIABLES S, freed, n, last
Names == {"a", "b", "c"}
Events ==
    [op : {"new", "wrap"}, a : Names, n : 1..MaxN, size : {1}, x : {5}]
    \cup [op : {"dup"}, a : Names, b : Names, n : 0..(MaxN + 1)]
    \cup [op : {"slice"}, a : Names, b : Names, i : 0..1, j : 1..(MaxN + 1)]
    \cup [op : {"cat"}, a : Names, b : Names, b2 : Names]
    \cup [op : {"shuf"}, a : Names, b : Names, n : 1..(MaxN + 1),
          map : {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2, 0>>}]
    \cup [op : {"fill"}, a : Names, i : 0..MaxN, x : {7}]
    \cup [op : {"zero", "sep", "drop"}, a : Names]
    \cup [op : {"copy"}, a : Names, b : Names]
    \cup [op : {"swap"}, a : Names, i : {0}, j : {1}]
    \cup [op : {"sep2"}, a : Names, b : Names, b2 : Names]
    \cup [op : {"set"}, a : Names, i : 0..1, x : {9}]
Init == S = Empty /\ freed = {} /\ n = 0 /\ last = [op |-> "", a |-> ""]
Gone(T) == UNION {S.set[x].own : x \in DOMAIN S.set}
           \ UNION {T.set[x].own : x \in DOMAIN T.set}
Next == /\ n < Depth
        /\ \E e \in Events :
             /\ Legal(S, e)
             /\ S' = Step(S, e) /\ freed' = freed \cup Gone(S') /\ last' = e
        /\ n' = n + 1
Sets == {S.set[x] : x \in DOMAIN S.set}
NoDangling == \A s \in Sets : Ids(s) \cap freed = {} /\ Ids(s) \subseteq DOMAIN S.heap
NoDoubleFree == \A x, y \in DOMAIN S.set : x # y => S.set[x].own \cap S.set[y].own = {}
FreedOnce == \A s \in Sets : s.own \cap freed = {}
PaddingIsZero == \A z \in Pads(S) : S.heap[z] = ZeroBuf(Len(S.heap[z]))
Shapes == \A s \in Sets : \A id \in Ids(s) : Len(S.heap[id]) = s.size
\* a write is seen through the sets that share the buffer, and no others
WriteSeen == [][last'.op \in {"fill"} =>
    LET id == S.set[last'.a].mem[last'.i + 1]
    IN \A x \in DOMAIN S.set : \A k \in DOMAIN S.set[x].mem :
         S'.heap[S'.set[x].mem[k]] =
            IF S.set[x].mem[k] = id THEN [j \in 1..(S.set[x].size) |-> last'.x]
            ELSE S.heap[S.set[x].mem[k]]]_<<S, freed, n, last>>
CopyIndependent == [][last'.op = "dup" =>
    \A x \in DOMAIN S'.set : x # last'.a =>
        Ids(S'.set[x]) \cap Ids(S'.set[last'.a]) = {}]_<<S, freed, n, last>>
=============================================================================

------------------------------ MODULE VectorGen -----------------------------
(***************************************************************************)
(* Generates histories of VectorViews, as "@@" lines, for TLC's simulator. *)
(***************************************************************************)
EXTENDS VectorViews, Json
CONSTANTS Depth, MaxN, Tries
VARIABLES S, hist
Names == {"a", "b", "c", "d", "e", "f", "g"}
P0 == 257                  \* (which elements there are does not matter here)
Makes == <<"new", "new", "lit", "wrap", "dup", "move", "slice", "slice", "slice",
           "view", "view", "view", "ext", "ext">>
Ops == <<"set", "set", "set", "zero", "fill", "scale", "beta", "had", "add", "addo", "mut",
         "muto", "mutl", "copy", "copyn", "copyn", "copyo", "copyf", "neg", "sort", "swap",
         "rand", "eq", "assign", "massign", "vswap", "setmem", "drop", "smap", "smap",
         "smap", "smap", "vmap", "vmap", "vmap", "vlen", "vlen", "vlen", "vvec", "vvec", "vvec",
         "add", "had", "copyf", "copyo", "addo">>
Rnd(s) == RandomElement(s)
Idx == 0..MaxN
Args(op) ==
    CASE op \in {"new", "wrap"} -> [x |-> Rnd(1..(MaxN + 2)), y |-> Rnd(1..900), z |-> 0]
      [] op = "lit" -> [x |-> Rnd(0..900), y |-> Rnd(0..900), z |-> Rnd(0..900)]
      [] op = "setmem" -> [x |-> Rnd(1..900), y |-> 0, z |-> 0]
      [] op = "view" -> [x |-> Rnd(1..MaxN), y |-> Rnd(0..(2 * MaxN)), z |-> Rnd(0..(MaxN + 3))]
      [] op = "vmap" -> [x |-> Rnd(0..(2 * MaxN)), y |-> Rnd(0..(MaxN + 3)), z |-> 0]
      [] op \in {"ext"} -> [x |-> Rnd(0..(MaxN + 4)), y |-> 0, z |-> 0]
      [] op = "set" -> [x |-> Rnd(Idx), y |-> Rnd(0..900), z |-> 0]
      [] op \in {"fill", "scale", "beta"} -> [x |-> Rnd({0, 1, 256, Rnd(0..900)}), y |-> 0, z |-> 0]
      [] op \in {"copyf", "copyn", "copyo", "slice"} ->
            [x |-> Rnd(0..(MaxN + 1)), y |-> Rnd({0, Rnd(Idx)}), z |-> Rnd(0..3)]
      [] op \in {"addo", "muto", "mutl"} -> [x |-> Rnd(0..3), y |-> Rnd(0..4), z |-> 0]
      [] OTHER -> [x |-> Rnd(Idx), y |-> Rnd(Idx), z |-> 0]
Event(op) == LET t == TLCEval(Args(op))
             IN [op |-> op, a |-> Rnd(Names), b |-> Rnd(Names), x |-> t.x, y |-> t.y, z |-> t.z]
\* what is drawn by "rand" does not matter here
Drawn(e) == IF e.op # "rand" THEN e
            ELSE [op |-> e.op, a |-> e.a, got |-> [i \in 1..S.v[e.a].n |-> 1]]
Init == S = Empty /\ hist = << >>
Few == Cardinality(DOMAIN S.v) < 3
Go(e) == Legal(S, e) /\ S' = TLCEval(Step(P0, S, Drawn(e))) /\ hist' = Append(hist, e)
Next ==
    \/ /\ Len(hist) < Depth
       /\ \E t \in 1..Tries :
            \E op \in {IF Few \/ Rnd(1..10) <= 3 THEN Makes[Rnd(DOMAIN Makes)]
                       ELSE Ops[Rnd(DOMAIN Ops)]} :
            \E e \in {Event(op)} : Go(e)
    \/ /\ Len(hist) = Depth
       /\ PrintT("@@" \o ToJson(hist))
       /\ hist' = Append(hist, 0) /\ UNCHANGED S
=============================================================================

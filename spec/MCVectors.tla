------------------------------ MODULE MCVectors -----------------------------
(***************************************************************************)
(* VectorViews on small instances: the rules for what may be done suffice  *)
(* for memory safety; nothing is read or written outside the memories; a   *)
(* write through a view changes exactly what aliases it; copies are        *)
(* independent.  And unpacking undoes packing.                             *)
(***************************************************************************)
EXTENDS VectorViews, Packing
CONSTANTS Depth, P
VARIABLES S, n, last
Names == {"a", "b", "c"}
Ev(op, xs, ys, zs, two) ==
    IF two THEN [op : {op}, a : Names, b : Names, x : xs, y : ys, z : zs]
    ELSE [op : {op}, a : Names, x : xs, y : ys, z : zs]
O == {0}
Events ==
    Ev("new", {3}, {1}, O, FALSE) \cup Ev("wrap", {2}, {2}, O, FALSE)
    \cup UNION {Ev(op, O, O, O, TRUE) :
                  op \in {"dup", "move", "assign", "massign", "vswap", "vvec", "add", "copy"}}
    \cup Ev("setmem", {3}, O, O, FALSE)
    \cup UNION {Ev(op, O, O, O, FALSE) : op \in {"drop", "zero", "neg", "sort"}}
    \cup Ev("slice", {1, 2}, {0, 1}, O, TRUE)
    \cup Ev("smap", {0, 2}, O, O, FALSE)
    \cup Ev("view", {2}, {1, 2}, {2}, TRUE)
    \cup Ev("vmap", {0}, {1}, O, FALSE)
    \cup Ev("vlen", {1}, O, O, FALSE)
    \cup Ev("ext", {1, 4}, O, O, TRUE)
    \cup Ev("set", {1}, {4}, O, FALSE)
    \cup Ev("mut", O, O, O, TRUE) \cup Ev("mutl", {1}, {1}, O, TRUE)
    \cup Ev("copyn", {2}, O, O, TRUE) \cup Ev("copyf", {1}, {1}, {1}, TRUE)
Init == S = Empty /\ n = 0 /\ last = [op |-> "", a |-> ""]
Next == /\ n < Depth
        /\ \E e \in Events : Legal(S, e) /\ S' = Step(P, S, e) /\ last' = e
        /\ n' = n + 1
Vecs == DOMAIN S.v
NoDangling == \A x \in Vecs : \A i \in 0..(S.v[x].n - 1) :
                 LET l == Loc(S, x, i)
                 IN \/ l = <<0, 0>>
                    \/ l[1] \notin S.gone /\ l[2] \in 0..(Len(S.heap[l[1]]) - 1)
Inside == \A x \in Vecs : S.v[x].k = "mem" => /\ S.v[x].m \notin S.gone
                                              /\ S.v[x].off + S.v[x].n <= Len(S.heap[S.v[x].m])
Owners == \A x, y \in Vecs : (x # y /\ S.v[x].k = "mem" /\ S.v[y].k = "mem"
                              /\ S.v[x].own /\ S.v[y].own) => S.v[x].m # S.v[y].m
ZeroBeyond == \A x \in Vecs : S.v[x].k = "ext" =>
                 \A i \in 1..S.v[x].n : i > S.v[S.v[x].b].n => Seen(S, x)[i] = 0
SliceOfBase == \A x \in Vecs : (S.v[x].k = "mem" /\ S.v[x].slice) =>
                 S.v[x].so + S.v[x].n <= S.v[x].bl
InField == \A m \in DOMAIN S.heap : \A i \in DOMAIN S.heap[m] : S.heap[m][i] \in 0..(P - 1)
WriteSeen == [][last'.op = "set" =>
    LET l == Loc(S, last'.a, last'.x)
    IN \A x \in Vecs : \A i \in 1..S.v[x].n :
         Seen(S', x)[i] = IF Loc(S, x, i - 1) = l THEN last'.y % P
                          ELSE Seen(S, x)[i]]_<<S, n, last>>
\* operations on a vector leave alone what does not share its memory
Frame == [][last'.op \in {"add", "mut", "mutl", "copy", "copyn", "copyf", "neg", "sort", "zero"}
            => LET m == S.v[RootOf(S, last'.a)].m
               IN \A x \in Vecs : S.v[RootOf(S, x)].m # m => Seen(S', x) = Seen(S, x)]_<<S, n, last>>
CopyIndependent == [][(last'.op = "dup" /\ S'.v[last'.a].own) =>
    \A x \in DOMAIN S'.v \ {last'.a} : S'.v[RootOf(S', x)].m # S'.v[last'.a].m]_<<S, n, last>>
Bytes == {0, 1, 255}
ASSUME \A ws \in 1..2 : \A t \in ws..3 : \A src \in [1..(2 * ws) -> Bytes] :
          Unpacked(Packed(src, 2, ws, t), ws) = src
=============================================================================

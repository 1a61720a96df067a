----------------------------- MODULE VectorViews ----------------------------
(***************************************************************************)
(* Vectors over the integers modulo a prime, and their views (C20).        *)
(* A state S has                                                           *)
(*   heap : the memories, by number; each a sequence of elements           *)
(*   gone : the memories that were freed                                   *)
(*   v    : name -> a vector, whose field k is                             *)
(*     "mem": n elements of memory m from off on; own: it frees m when it  *)
(*            goes; slice: it is a Slice (of bl elements of which it       *)
(*            starts at so)                                                *)
(*     "view": n elements of vector b, the i-th being the element          *)
(*            (off + step * i) modulo w                                    *)
(*     "ext":  n elements, those of vector b and then zeros                *)
(* An operation is a record with fields op, a (the vector concerned), b    *)
(* (another) and numbers x, y, z.  P is the prime.                         *)
(***************************************************************************)
EXTENDS GF

Empty == [heap |-> << >>, gone |-> {}, v |-> << >>]
Has(S, x) == x \in DOMAIN S.v
Put(f, k, w) == (k :> w) @@ f
MinOf(a, b) == IF a < b THEN a ELSE b
Val(P, x, i) == (x + 5 * i) % P
Pattern(P, x, n) == [i \in 1..n |-> Val(P, x, i - 1)]
Mem(m, n, off, own) == [k |-> "mem", m |-> m, n |-> n, off |-> off, own |-> own,
                        slice |-> FALSE, so |-> 0, bl |-> 0]

(* Where element i (from 0) is: a memory and a place, or <<0, 0>>: zero.   *)
RECURSIVE Loc(_, _, _)
Loc(S, x, i) ==
    LET w == S.v[x]
    IN CASE w.k = "mem" -> <<w.m, w.off + i>>
         [] w.k = "view" -> Loc(S, w.b, (w.off + w.step * i) % w.w)
         [] w.k = "ext" -> IF i < S.v[w.b].n THEN Loc(S, w.b, i) ELSE <<0, 0>>
At(S, l) == IF l[1] = 0 THEN 0 ELSE S.heap[l[1]][l[2] + 1]
Get(S, x, i) == At(S, Loc(S, x, i))
Set(S, x, i, val) == LET l == Loc(S, x, i)
                     IN [S EXCEPT !.heap = [@ EXCEPT ![l[1]] = [@ EXCEPT ![l[2] + 1] = val]]]
Seen(S, x) == [i \in 1..S.v[x].n |-> Get(S, x, i - 1)]
\* what is read from place i of x on: zero beyond
Read0(S, x, i) == IF i < S.v[x].n THEN Get(S, x, i) ELSE 0

\* elements from..from+len-1 of a become F(i), i from 0
Fill(S, a, from, len, F(_)) ==
    LET w == S.v[a]
        c == S.heap[w.m]
    IN [S EXCEPT !.heap = [@ EXCEPT ![w.m] = [j \in DOMAIN c |->
            LET i == j - 1 - w.off - from
            IN IF 0 <= i /\ i < len THEN F(i) ELSE c[j]]]]
\* one after the other, for views that come back to an element
Each(S, a, F(_, _)) == FoldLeft(LAMBDA t, i: Set(t, a, i - 1, F(t, i - 1)),
                                S, Upto(S.v[a].n))

NewMem(S, a, c, own) ==
    [S EXCEPT !.heap = Append(@, c),
              !.v = Put(@, a, Mem(Len(S.heap) + 1, Len(c), 0, own))]
\* the memory of a is freed if a owns it
Release(S, a) == IF Has(S, a) /\ S.v[a].k = "mem" /\ S.v[a].own
                 THEN [S EXCEPT !.gone = @ \cup {S.v[a].m}] ELSE S
Without(S, a) == [S EXCEPT !.v = [x \in DOMAIN @ \ {a} |-> @[x]]]
\* a becomes a copy of b
CopyOf(S, a, b) ==
    LET w == S.v[b]
    IN IF w.own THEN NewMem(S, a, S.heap[w.m], TRUE)
       ELSE [S EXCEPT !.v = Put(@, a, Mem(w.m, w.n, w.off, FALSE))]
Left(bl, off) == IF bl > off THEN bl - off ELSE 0

Step(P, S, e) ==
    LET f == FP(P)
        A(x, y) == Add(f, x, y)
        M(x, y) == Mul(f, x, y)
        R == Release(S, e.a)
    IN
    CASE e.op = "new" -> NewMem(R, e.a, Pattern(P, e.y, e.x), TRUE)
      [] e.op = "wrap" -> NewMem(R, e.a, Pattern(P, e.y, e.x), FALSE)
      [] e.op = "lit" -> NewMem(R, e.a, <<e.x % P, (e.y) % P, (e.z) % P>>, TRUE)
      [] e.op = "dup" -> CopyOf(R, e.a, e.b)
      [] e.op = "move" -> Without([R EXCEPT !.v = Put(@, e.a,
                              [S.v[e.b] EXCEPT !.slice = FALSE])], e.b)
      [] e.op = "assign" -> CopyOf(R, e.a, e.b)
      [] e.op = "massign" -> Without([R EXCEPT !.v = Put(@, e.a, S.v[e.b])], e.b)
      [] e.op = "vswap" -> [S EXCEPT !.v = [@ EXCEPT ![e.a] = S.v[e.b], ![e.b] = S.v[e.a]]]
      [] e.op = "setmem" -> NewMem(R, e.a, Pattern(P, e.x, S.v[e.a].n), FALSE)
      [] e.op = "drop" -> Without(R, e.a)
      \* views
      [] e.op = "slice" ->
            LET w == S.v[e.b]
            IN [R EXCEPT !.v = Put(@, e.a,
                 [Mem(w.m, MinOf(e.x, Left(w.n, e.y)), w.off + e.y, FALSE)
                    EXCEPT !.slice = TRUE, !.so = e.y, !.bl = w.n])]
      [] e.op = "smap" ->
            LET w == S.v[e.a]
            IN [S EXCEPT !.v = Put(@, e.a,
                 [w EXCEPT !.off = w.off - w.so + e.x, !.so = e.x,
                           !.n = MinOf(w.n, Left(w.bl, e.x))])]
      [] e.op = "view" ->
            [R EXCEPT !.v = Put(@, e.a, [k |-> "view", b |-> e.b, n |-> e.x,
                 off |-> e.y, step |-> e.z, w |-> S.v[e.b].n])]
      [] e.op = "vmap" -> [S EXCEPT !.v[e.a].off = e.x, !.v[e.a].step = e.y]
      [] e.op = "vlen" -> [S EXCEPT !.v[e.a].n = e.x]
      [] e.op = "vvec" -> [S EXCEPT !.v[e.a].b = e.b, !.v[e.a].w = S.v[e.b].n]
      [] e.op = "ext" -> [R EXCEPT !.v = Put(@, e.a, [k |-> "ext", b |-> e.b, n |-> e.x])]
      \* elements
      [] e.op = "set" -> Set(S, e.a, e.x, e.y % P)
      [] e.op = "zero" -> Each(S, e.a, LAMBDA t, i: 0)
      [] e.op = "fill" -> Fill(S, e.a, 0, S.v[e.a].n, LAMBDA i: e.x % P)
      [] e.op = "scale" -> Each(S, e.a, LAMBDA t, i: M(Get(t, e.a, i), e.x % P))
      [] e.op = "beta" -> Fill(S, e.a, 0, S.v[e.a].n,
                               LAMBDA i: M(Get(S, e.a, i), Pow(f, e.x % P, i)))
      [] e.op = "had" -> Fill(S, e.a, 0, S.v[e.a].n,
                              LAMBDA i: M(Get(S, e.a, i), Get(S, e.b, i)))
      [] e.op \in {"add", "mut"} -> Fill(S, e.a, 0, S.v[e.b].n,
                              LAMBDA i: A(Get(S, e.a, i), Get(S, e.b, i)))
      [] e.op \in {"addo", "muto"} -> Fill(S, e.a, e.x, S.v[e.b].n,
                              LAMBDA i: A(Get(S, e.a, e.x + i), Get(S, e.b, i)))
      [] e.op = "mutl" -> Fill(S, e.a, e.x, e.y,
                              LAMBDA i: A(Get(S, e.a, e.x + i), Get(S, e.b, i)))
      [] e.op = "copy" -> Fill(S, e.a, 0, S.v[e.b].n, LAMBDA i: Get(S, e.b, i))
      [] e.op = "copyn" -> Fill(S, e.a, 0, e.x, LAMBDA i: Read0(S, e.b, i))
      [] e.op = "copyo" -> Fill(S, e.a, e.y, e.x, LAMBDA i: Read0(S, e.b, i))
      [] e.op = "copyf" -> Fill(S, e.a, e.y, e.x, LAMBDA i: Read0(S, e.b, e.z + i))
      [] e.op = "neg" -> Fill(S, e.a, 0, S.v[e.a].n, LAMBDA i: Neg(f, Get(S, e.a, i)))
      [] e.op = "sort" -> LET c == TLCEval(SortSeq(Seen(S, e.a), LAMBDA x, y: x < y))
                          IN Fill(S, e.a, 0, S.v[e.a].n, LAMBDA i: c[i + 1])
      [] e.op = "swap" -> LET x == Get(S, e.a, e.x)
                              y == Get(S, e.a, e.y)
                          IN Set(Set(S, e.a, e.x, y), e.a, e.y, x)
      [] e.op = "rand" -> Each(S, e.a, LAMBDA t, i: e.got[i + 1])
      [] e.op = "eq" -> S

Equal(S, a, b) == Seen(S, a) = Seen(S, b)

(***************************************************************************)
(* What may be done.  Operations on memory are for vectors and slices; the *)
(* views go by their elements; zero-extended vectors are only read.  A     *)
(* vector is not dropped, moved or given another memory while others use   *)
(* what it had.                                                            *)
(***************************************************************************)
IsMem(S, x) == Has(S, x) /\ S.v[x].k = "mem"
IsVec(S, x) == IsMem(S, x) /\ ~S.v[x].slice
Over(S, x) == {y \in DOMAIN S.v : S.v[y].k # "mem" /\ S.v[y].b = x}
Exts(S, x) == {y \in Over(S, x) : S.v[y].k = "ext"}
Sharing(S, x) == {y \in DOMAIN S.v \ {x} : S.v[y].k = "mem" /\ S.v[y].m = S.v[x].m}
\* the memory of a may go
Frees(S, a) == (IsMem(S, a) /\ S.v[a].own) => Sharing(S, a) = {}
\* the name a may be taken by another, made of those in U
Goes(S, a, U) == Has(S, a) => (a \notin U /\ Over(S, a) = {} /\ Frees(S, a))
\* a may be given the elements of another of length n
Renewed(S, a, n) == /\ IsVec(S, a) /\ Frees(S, a) /\ Exts(S, a) = {}
                    /\ (Over(S, a) # {} => S.v[a].n = n)
Range_(w) == w.off..(w.off + w.n - 1)
Apart(S, a, b) == S.v[a].m # S.v[b].m \/ Range_(S.v[a]) \cap Range_(S.v[b]) = {}
Same(S, a, b) == S.v[a].m = S.v[b].m /\ S.v[a].off = S.v[b].off
Both(S, e) == IsMem(S, e.a) /\ IsMem(S, e.b)
\* what can be read: its memory, after any number of views
RECURSIVE RootOf(_, _)
RootOf(S, x) == IF S.v[x].k = "mem" THEN x ELSE RootOf(S, S.v[x].b)
RECURSIVE Writable(_, _)
Writable(S, x) == CASE S.v[x].k = "mem" -> TRUE
                    [] S.v[x].k = "view" -> Writable(S, S.v[x].b)
                    [] S.v[x].k = "ext" -> FALSE
RECURSIVE Depends(_, _, _)
Depends(S, x, y) == x = y \/ (S.v[x].k # "mem" /\ Depends(S, S.v[x].b, y))
Ready(S, e) == Has(S, e.b) /\ Goes(S, e.a, {e.b})
\* the vectors that read x still find as many elements
Enough(S, x, n) == \A y \in Over(S, x) : S.v[y].k = "view" => S.v[y].w <= n
Fits(S, e, from, len) == from + len <= S.v[e.a].n
Legal(S, e) ==
    CASE e.op \in {"new", "wrap"} -> Goes(S, e.a, {}) /\ e.x > 0
      [] e.op = "lit" -> Goes(S, e.a, {})
      [] e.op = "dup" -> Ready(S, e) /\ IsMem(S, e.b)
      [] e.op = "move" -> Ready(S, e) /\ IsVec(S, e.b) /\ Over(S, e.b) = {}
      [] e.op = "assign" -> IsMem(S, e.b) /\ Renewed(S, e.a, S.v[e.b].n)
                            /\ (e.a # e.b => IsVec(S, e.a))
      [] e.op = "massign" -> /\ e.a # e.b /\ IsVec(S, e.b) /\ Over(S, e.b) = {}
                             /\ Renewed(S, e.a, S.v[e.b].n)
      [] e.op = "vswap" -> /\ e.a # e.b /\ IsVec(S, e.a) /\ IsVec(S, e.b)
                           /\ Exts(S, e.a) \cup Exts(S, e.b) = {}
                           /\ (Over(S, e.a) \cup Over(S, e.b) # {}
                                 => S.v[e.a].n = S.v[e.b].n)
      [] e.op = "setmem" -> IsVec(S, e.a) /\ Renewed(S, e.a, S.v[e.a].n)
      [] e.op = "drop" -> Has(S, e.a) /\ Goes(S, e.a, {})
      [] e.op = "slice" -> Ready(S, e) /\ IsMem(S, e.b) /\ e.y <= S.v[e.b].n
      [] e.op = "smap" -> /\ IsMem(S, e.a) /\ S.v[e.a].slice /\ e.x <= S.v[e.a].bl
                          /\ Over(S, e.a) = {}
      [] e.op = "view" -> Ready(S, e) /\ e.x <= S.v[e.b].n /\ e.x > 0
      [] e.op = "vmap" -> Has(S, e.a) /\ S.v[e.a].k = "view"
      [] e.op = "vlen" -> /\ Has(S, e.a) /\ S.v[e.a].k = "view" /\ e.x <= S.v[e.a].w
                          /\ Enough(S, e.a, e.x)
      [] e.op = "vvec" -> /\ Has(S, e.a) /\ S.v[e.a].k = "view" /\ Has(S, e.b)
                          /\ ~Depends(S, e.b, e.a) /\ S.v[e.a].n <= S.v[e.b].n
                          /\ S.v[e.b].n > 0
      [] e.op = "ext" -> Ready(S, e)
      [] e.op = "set" -> Has(S, e.a) /\ Writable(S, e.a) /\ e.x < S.v[e.a].n
      [] e.op \in {"zero", "scale", "rand"} -> Has(S, e.a) /\ Writable(S, e.a)
      [] e.op \in {"fill", "neg", "sort", "beta"} -> IsMem(S, e.a)
      [] e.op = "swap" -> IsMem(S, e.a) /\ e.x < S.v[e.a].n /\ e.y < S.v[e.a].n
      \* (vector instructions want memory of the library's own)
      [] e.op = "had" -> /\ Both(S, e) /\ S.v[e.a].n = S.v[e.b].n
                         /\ S.v[e.a].own /\ S.v[e.b].own
      [] e.op = "add" -> /\ Both(S, e) /\ S.v[e.a].n = S.v[e.b].n
                         /\ (Apart(S, e.a, e.b) \/ Same(S, e.a, e.b))
      [] e.op = "mut" -> /\ Both(S, e) /\ S.v[e.b].n <= S.v[e.a].n
                         /\ (Apart(S, e.a, e.b) \/ Same(S, e.a, e.b))
      [] e.op \in {"addo", "muto"} -> /\ Both(S, e) /\ Apart(S, e.a, e.b)
                                      /\ Fits(S, e, e.x, S.v[e.b].n)
      [] e.op = "mutl" -> /\ Both(S, e) /\ Apart(S, e.a, e.b)
                          /\ Fits(S, e, e.x, e.y) /\ e.y <= S.v[e.b].n
      [] e.op = "copy" -> /\ Both(S, e) /\ S.v[e.b].n <= S.v[e.a].n
                          /\ (Apart(S, e.a, e.b) \/ Same(S, e.a, e.b))
      [] e.op = "copyn" ->
            /\ IsMem(S, e.a) /\ Has(S, e.b) /\ Fits(S, e, 0, e.x)
            /\ \/ IsMem(S, e.b)
               \/ /\ S.v[e.b].k = "ext" /\ IsMem(S, S.v[e.b].b)
                  /\ S.v[e.b].n >= S.v[S.v[e.b].b].n
            /\ Apart(S, e.a, RootOf(S, e.b))
      [] e.op = "copyo" -> Both(S, e) /\ Apart(S, e.a, e.b) /\ Fits(S, e, e.y, e.x)
      [] e.op = "copyf" -> /\ Both(S, e) /\ Apart(S, e.a, e.b) /\ Fits(S, e, e.y, e.x)
                           /\ e.z <= S.v[e.b].n
      [] e.op = "eq" -> Has(S, e.a) /\ Has(S, e.b)
=============================================================================

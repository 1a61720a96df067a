---------------------------- MODULE BufferViews -----------------------------
(***************************************************************************)
(* Sets of buffers (property C14).  A state S has                          *)
(*   heap : the contents of each allocated buffer, by number;              *)
(*   set  : name -> [size, mem, own, zero] where mem is the sequence of    *)
(*          the numbers of its buffers, own the buffers it allocated (and  *)
(*          frees when it goes), zero its padding buffer (0 if none).      *)
(* The caller's own buffers are owned by no set.                           *)
(* An operation is a record with fields op, a (the name concerned), etc.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Empty == [heap |-> << >>, set |-> << >>]
Has(S, x) == x \in DOMAIN S.set
N(s) == Len(s.mem)
Put(f, k, v) == (k :> v) @@ f
Ids(s) == Range(s.mem)
Fresh(S) == Len(S.heap)             \* buffers are numbered from 1
Pattern(x, size) == [j \in 1..size |-> x + j - 1]
ZeroBuf(size) == [j \in 1..size |-> 0]

(* What is seen through a set: the contents of each of its buffers.        *)
Seen(S, x) == [i \in DOMAIN S.set[x].mem |-> S.heap[S.set[x].mem[i]]]
SetOf(size, mem, own, zero) == [size |-> size, mem |-> mem, own |-> own, zero |-> zero]

(* n new buffers with contents c[1..n] *)
WithNew(S, a, size, c, owned) ==
    LET b == Fresh(S)
        ids == [i \in DOMAIN c |-> b + i]
    IN [heap |-> S.heap \o c,
        set |-> Put(S.set, a, SetOf(size, ids, IF owned THEN Range(ids) ELSE {}, 0))]
Without(S, a) == [S EXCEPT !.set = [x \in DOMAIN @ \ {a} |-> @[x]]]
Write(S, id, c) == [S EXCEPT !.heap = [@ EXCEPT ![id] = c]]
(* c over the beginning of d *)
Over(c, d) == c \o SubSeq(d, Len(c) + 1, Len(d))

(* a set with a padding buffer where mem is 0 *)
Padded(S, a, size, mem) ==
    LET z == Fresh(S) + 1
         IN [heap |-> Append(S.heap, ZeroBuf(size)),
             set |-> Put(S.set, a, SetOf(size, [i \in DOMAIN mem |->
                        IF mem[i] = 0 THEN z ELSE mem[i]], {z}, z))]
View(S, a, size, mem) == [S EXCEPT !.set = Put(@, a, SetOf(size, mem, {}, 0))]

Slice(S, e) ==
    LET b == S.set[e.b]
        n == e.j - e.i
    IN IF e.j <= N(b) THEN View(S, e.a, b.size, SubSeq(b.mem, e.i + 1, e.j))
       ELSE Padded(S, e.a, b.size, [k \in 1..n |->
                IF e.i + k <= N(b) THEN b.mem[e.i + k] ELSE 0])
(* map[i] = o: buffer i of the source is buffer o of the result *)
Shuffled(b, map, n) == [o \in 1..n |->
    LET I == {i \in DOMAIN map : map[i] = o - 1}
    IN IF I = {} THEN 0 ELSE b.mem[CHOOSE i \in I : TRUE]]
Shuffle(S, e) ==
    LET b == S.set[e.b]
        m == Shuffled(b, e.map, e.n)
    IN IF N(b) >= e.n THEN View(S, e.a, b.size, m) ELSE Padded(S, e.a, b.size, m)
Dup(S, e, n) ==
    LET b == S.set[e.b]
    IN WithNew(S, e.a, b.size, [i \in 1..n |->
          IF i <= N(b) THEN S.heap[b.mem[i]] ELSE ZeroBuf(b.size)], TRUE)
EvenFirst(m) == [i \in DOMAIN m |->
    IF i <= Len(m) \div 2 THEN m[2 * i - 1] ELSE m[2 * (i - Len(m) \div 2)]]
Exchange(m, i, j) == [m EXCEPT ![i] = m[j], ![j] = m[i]]
SetMem(S, a, m) == [S EXCEPT !.set = [@ EXCEPT ![a].mem = m]]

Step(S, e) ==
    CASE e.op = "new" ->
            WithNew(S, e.a, e.size, [i \in 1..e.n |->
                                       Pattern(e.x + (i - 1) * e.size, e.size)], TRUE)
      [] e.op = "wrap" ->
            WithNew(S, e.a, e.size, [i \in 1..e.n |->
                                       Pattern(e.x + (i - 1) * e.size, e.size)], FALSE)
      [] e.op = "dup" -> Dup(S, e, IF e.n = 0 THEN N(S.set[e.b]) ELSE e.n)
      [] e.op \in {"clone", "assign"} -> Dup(S, e, N(S.set[e.b]))
      [] e.op = "slice" -> Slice(S, e)
      [] e.op = "cat" -> View(S, e.a, S.set[e.b].size,
                              S.set[e.b].mem \o S.set[e.b2].mem)
      [] e.op = "shuf" -> Shuffle(S, e)
      [] e.op = "fill" -> LET s == S.set[e.a]
                          IN Write(S, s.mem[e.i + 1], [j \in 1..(s.size) |-> e.x])
      [] e.op = "zero" -> LET s == S.set[e.a]
                          IN FoldLeft(LAMBDA t, id: Write(t, id, ZeroBuf(s.size)),
                                      S, s.mem)
      [] e.op = "poke" -> LET id == S.set[e.a].mem[e.i + 1]
                          IN Write(S, id, [S.heap[id] EXCEPT ![e.j + 1] = e.x])
      [] e.op = "put" -> LET s == S.set[e.a]
                         IN Write(S, s.mem[e.i + 1], Pattern(e.x, s.size))
      [] e.op = "copy" -> LET s == S.set[e.a]
                          IN FoldLeft(LAMBDA t, i:
                               Write(t, s.mem[i], Over(t.heap[t.set[e.b].mem[i]],
                                                       t.heap[s.mem[i]])),
                               S, [i \in DOMAIN s.mem |-> i])
      [] e.op = "swap" -> SetMem(S, e.a, Exchange(S.set[e.a].mem, e.i + 1, e.j + 1))
      [] e.op = "sep" -> SetMem(S, e.a, EvenFirst(S.set[e.a].mem))
      [] e.op = "sep2" ->
            LET m == EvenFirst(S.set[e.a].mem)
                h == Len(m) \div 2
            IN SetMem(SetMem(S, e.b, Over(SubSeq(m, 1, h), S.set[e.b].mem)),
                      e.b2, Over(SubSeq(m, h + 1, 2 * h), S.set[e.b2].mem))
      [] e.op = "set" ->
            LET s == S.set[e.a]
            IN [heap |-> Append(S.heap, Pattern(e.x, s.size)),
                set |-> [S.set EXCEPT ![e.a].mem[e.i + 1] = Fresh(S) + 1]]
      [] e.op \in {"eq", "cast"} -> S
      [] e.op = "drop" -> Without(S, e.a)

Equal(S, a, b) == /\ S.set[a].size = S.set[b].size
                  /\ Seen(S, a) = Seen(S, b)

(***************************************************************************)
(* What may be done: a set does not outlive the buffers it shares; padding *)
(* is only read (or zeroed); buffers are copied to others or themselves.   *)
(***************************************************************************)
Freed(S, a) == IF Has(S, a) THEN S.set[a].own ELSE {}
Pads(S) == {S.set[x].zero : x \in DOMAIN S.set} \ {0}
\* a can be replaced or dropped, and the names in U remain used
Goes(S, a, U) == Has(S, a) => /\ a \notin U
                              /\ \A x \in DOMAIN S.set \ {a} :
                                    Ids(S.set[x]) \cap Freed(S, a) = {}
Live(S, e) == e.b \in DOMAIN S.set
\* views may be given other buffers; sets that own all of theirs may not
Viewing(S, a) == S.set[a].own \subseteq {S.set[a].zero}
Permutes(map, n) == \A i, j \in DOMAIN map : map[i] \in 0..(n - 1)
                                              /\ (i # j => map[i] # map[j])
Index(S, e) == Has(S, e.a) /\ e.i < N(S.set[e.a])
Legal(S, e) ==
    CASE e.op \in {"new", "wrap"} -> Goes(S, e.a, {}) /\ e.n > 0
      [] e.op \in {"dup", "clone"} -> Live(S, e) /\ Goes(S, e.a, {e.b})
      [] e.op = "assign" -> Live(S, e) /\ Has(S, e.a) /\ Goes(S, e.a, {})
      [] e.op = "slice" -> /\ Live(S, e) /\ Goes(S, e.a, {e.b})
                           /\ e.i <= N(S.set[e.b]) /\ e.i < e.j
      [] e.op = "cat" -> /\ Live(S, e) /\ Has(S, e.b2) /\ Goes(S, e.a, {e.b, e.b2})
                         /\ S.set[e.b].size = S.set[e.b2].size
      [] e.op = "shuf" -> /\ Live(S, e) /\ Goes(S, e.a, {e.b})
                          /\ Len(e.map) <= e.n /\ Len(e.map) <= N(S.set[e.b])
                          /\ Permutes(e.map, e.n) /\ e.n > 0
                          /\ (N(S.set[e.b]) >= e.n => Len(e.map) = e.n)
      [] e.op \in {"fill", "put"} -> Index(S, e) /\ S.set[e.a].mem[e.i + 1] \notin Pads(S)
      [] e.op = "poke" -> /\ Index(S, e) /\ S.set[e.a].mem[e.i + 1] \notin Pads(S)
                          /\ e.j < S.set[e.a].size
      [] e.op \in {"zero", "cast"} -> Has(S, e.a)
      [] e.op = "copy" -> /\ Live(S, e) /\ Has(S, e.a)
                          /\ N(S.set[e.a]) = N(S.set[e.b])
                          /\ S.set[e.b].size <= S.set[e.a].size
                          /\ Ids(S.set[e.a]) \cap Pads(S) = {}
                          /\ \/ Ids(S.set[e.a]) \cap Ids(S.set[e.b]) = {}
                             \/ S.set[e.a].mem = S.set[e.b].mem
      [] e.op = "swap" -> Index(S, e) /\ e.j < N(S.set[e.a])
      [] e.op = "sep" -> Has(S, e.a) /\ N(S.set[e.a]) % 2 = 0
      [] e.op = "sep2" -> /\ Has(S, e.a) /\ Live(S, e) /\ Has(S, e.b2)
                          /\ N(S.set[e.a]) % 2 = 0
                          /\ Cardinality({e.a, e.b, e.b2}) = 3
                          /\ \A x \in {e.b, e.b2} :
                               /\ Viewing(S, x) /\ S.set[x].size = S.set[e.a].size
                               /\ 2 * N(S.set[x]) >= N(S.set[e.a])
      [] e.op = "set" -> Index(S, e) /\ Viewing(S, e.a)
      [] e.op = "eq" -> Live(S, e) /\ Has(S, e.a)
      [] e.op = "drop" -> Has(S, e.a) /\ Goes(S, e.a, {})
=============================================================================

------------------------------ MODULE BufferGen -----------------------------
(***************************************************************************)
(* Generates histories of BufferViews, as "@@" lines, for TLC's simulator: *)
(* the arguments are drawn at random until they make a legal operation.    *)
(***************************************************************************)
EXTENDS BufferViews, Json, Randomization
CONSTANTS Depth, MaxN, Tries
VARIABLES S, hist
Names == {"a", "b", "c", "d", "e", "f"}
Makes == <<"new", "new", "wrap", "dup", "clone", "slice", "slice", "slice",
           "cat", "shuf", "shuf">>
Ops == <<"fill", "zero", "poke", "poke", "poke", "put", "put",
         "copy", "assign", "assign", "swap", "swap", "sep", "sep", "sep2", "set", "set", "eq", "cast", "drop">>
Rnd(s) == RandomElement(s)
Maps == [n \in 1..5 |-> SetToSeq({p \in [1..n -> 0..(n - 1)] : Cardinality(Range(p)) = n})]
\* a map of some buffers to places among n
MapFor(n, len) == LET p == Rnd(Range(Maps[n])) IN SubSeq(p, 1, IF len < n THEN len ELSE n)
Args(op) ==
    LET i == Rnd(0..5)
        b == Rnd(Names)
        n == Rnd(1..MaxN)
    IN [op |-> op, a |-> Rnd(Names), b |-> b, b2 |-> Rnd(Names),
        n |-> IF op = "dup" THEN Rnd({0, n}) ELSE n,
        size |-> Rnd({3, 3, 3, 1, 4}), x |-> 10 * Rnd(1..90),
        i |-> i, j |-> IF op = "slice" THEN i + Rnd(1..4) ELSE Rnd(0..5),
        map |-> << >>]
WithMap(e) == IF e.op # "shuf" \/ ~Has(S, e.b) THEN e
              ELSE LET n == Rnd(1..5)
                   IN [e EXCEPT !.n = n, !.map = MapFor(n, Rnd({N(S.set[e.b]), 5, 1}))]
\* operations whose operands must fit each other: any that do
Fits(e) == {r \in [op : {e.op}, a : Names, b : Names, b2 : IF e.op = "copy" THEN {"a"} ELSE Names] :
              Legal(S, r)}
Fit(e) == IF e.op \notin {"sep2", "copy", "cat"} THEN e
          ELSE LET F == TLCEval(Fits(e))
               IN IF F = {} THEN e
                  ELSE LET r == TLCEval(Rnd(F))
                       IN [e EXCEPT !.a = r.a, !.b = r.b,
                                    !.b2 = IF e.op = "copy" THEN @ ELSE r.b2]
Init == S = Empty /\ hist = << >>
Go(e) == Legal(S, e) /\ S' = TLCEval(Step(S, e)) /\ hist' = Append(hist, e)
Few == Cardinality(DOMAIN S.set) < 3
Next ==
    \/ /\ Len(hist) < Depth
       /\ \E t \in 1..Tries :
            \E op \in {IF Few \/ Rnd(1..10) <= 3 THEN Makes[Rnd(DOMAIN Makes)]
                       ELSE Ops[Rnd(DOMAIN Ops)]} :
            \E e0 \in {Args(op)} : \E e \in {Fit(WithMap(e0))} : Go(e)
    \/ /\ Len(hist) = Depth
       /\ PrintT("@@" \o ToJson(hist))
       /\ hist' = Append(hist, 0) /\ UNCHANGED S
=============================================================================

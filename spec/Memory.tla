------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Who holds the memory that is allocated (property C22).  An object owns  *)
(* blocks from its creation to its destruction; an operation may give it   *)
(* more the first time it is used, for its own use later, but not again    *)
(* and again; the process may keep some once and for all (tables, streams) *)
(* the first time a history is gone through.  Views own what describes     *)
(* them, not what they look at: dropping one gives back no more than it    *)
(* took.  An object can hand over what it owns to another (moves, swaps).  *)
(*                                                                         *)
(* Held is all that an observer sees: the number of blocks allocated and   *)
(* not given back.  What it can tell from it: Steady, of the counts after  *)
(* the same operation repeated, and Settled, of the counts after the same  *)
(* history repeated when all its objects are gone.  MCMemory checks that   *)
(* no history of the objects as described is ever blamed, and that those   *)
(* of objects which lose blocks, keep some after their end or give back    *)
(* what is not theirs are.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* counts after an operation done three times in a row: the first may be the
\* first ever
Steady(h) == \A i \in 2..(Len(h) - 1) : h[i + 1] = h[i]
\* counts when all is gone, after each run of the same history: the first
\* may be the first ever
Settled(h) == \A i \in 2..(Len(h) - 1) : h[i + 1] = h[i]

CONSTANTS Objs, Ops, Most
VARIABLES own,      \* blocks of each object alive
          done,     \* operations done on it
          kept,     \* by the process
          known     \* operations done at all
mvars == <<own, done, kept, known>>

Alive == DOMAIN own
Held == kept + MapThenSumSet(LAMBDA o : own[o], Alive)
With(f, o, x) == [p \in DOMAIN f \cup {o} |-> IF p = o THEN x ELSE f[p]]
Without(f, o) == [p \in DOMAIN f \ {o} |-> f[p]]

MInit == /\ own = << >> /\ done = << >>
         /\ kept = 0 /\ known = {}
\* what is kept for good, the first time only
Keep(op, c) == /\ op \in known => c = 0
               /\ kept' = kept + c
               /\ known' = known \cup {op}
Create(o, n, c) == /\ o \notin Alive
                   /\ own' = With(own, o, n) /\ done' = With(done, o, {})
                   /\ Keep("new", c)
Operate(o, op, n, c) == /\ o \in Alive
                        /\ op \in done[o] => n = 0
                        /\ own' = [own EXCEPT ![o] = @ + n]
                        /\ done' = [done EXCEPT ![o] = @ \cup {op}]
                        /\ Keep(op, c)
HandOver(o, p, n) == /\ {o, p} \subseteq Alive /\ o # p /\ n <= own[o]
                     /\ own' = [own EXCEPT ![o] = @ - n, ![p] = @ + n]
                     /\ UNCHANGED <<done, kept, known>>
Destroy(o) == /\ o \in Alive
              /\ own' = Without(own, o) /\ done' = Without(done, o)
              /\ UNCHANGED <<kept, known>>
=============================================================================

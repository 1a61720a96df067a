------------------------------ MODULE Threads -------------------------------
(* Instances used by several threads at the same time.                     *)
(*                                                                         *)
(* An operation is not atomic: it begins by filling the working memory of  *)
(* its instance from its arguments, works on it in steps and ends by       *)
(* writing its result. The threads interleave freely between the steps.    *)
(* `Place` gives the working memory an instance uses. Codec.tla lets each  *)
(* operation happen at once; this module justifies that for instances      *)
(* which share no working memory: whatever the schedule, every result is   *)
(* that of the operation alone (Alone), so that the events of one thread   *)
(* may be put before those of another (what the traces of concurrent       *)
(* groups do). MCThreads checks it with `Place` injective, and that it     *)
(* fails as soon as two instances share their working memory.              *)
EXTENDS Integers, Sequences

CONSTANTS Threads,      \* one instance each
          Words,        \* words of an operation
          Vals,         \* contents of a word
          Ops,          \* operations of each thread
          Place         \* thread -> working memory

Places == {Place[t] : t \in Threads}
Args == [1..Words -> Vals]
F(v) == (3 * v + 1) % 7         \* what is computed of a word

VARIABLES mem,          \* place -> words
          pc,           \* thread -> [arg, step] or idle
          done          \* thread -> sequence of <<arg, result>>
vars == <<mem, pc, done>>

Idle == [arg |-> << >>, step |-> 0]

Init == /\ mem = [p \in Places |-> [i \in 1..Words |-> 0]]
        /\ pc = [t \in Threads |-> Idle]
        /\ done = [t \in Threads |-> << >>]

Begin(t) == /\ pc[t] = Idle /\ Len(done[t]) < Ops
            /\ \E a \in Args : pc' = [pc EXCEPT ![t] = [arg |-> a, step |-> 1]]
            /\ UNCHANGED <<mem, done>>
\* steps 1..Words load a word, the next Words steps transform it in place
Step(t) ==
    LET s == pc[t].step
        p == Place[t]
    IN /\ s \in 1..(2 * Words)
       /\ mem' = IF s <= Words
                 THEN [mem EXCEPT ![p][s] = pc[t].arg[s]]
                 ELSE [mem EXCEPT ![p][s - Words] = F(mem[p][s - Words])]
       /\ pc' = [pc EXCEPT ![t].step = s + 1]
       /\ UNCHANGED done
End(t) == /\ pc[t].step = 2 * Words + 1
          /\ done' = [done EXCEPT ![t] = Append(@, <<pc[t].arg, mem[Place[t]]>>)]
          /\ pc' = [pc EXCEPT ![t] = Idle]
          /\ UNCHANGED mem

Next == \E t \in Threads : Begin(t) \/ Step(t) \/ End(t)

Alone == \A t \in Threads : \A i \in 1..Len(done[t]) :
    done[t][i][2] = [j \in 1..Words |-> F(done[t][i][1][j])]
=============================================================================

------------------------------ MODULE CodecGen ------------------------------
(***************************************************************************)
(* Generates histories of codec operations, as "@@" lines (a JSON array of *)
(* operations): instances of two sets of parameters live side by side,     *)
(* are dropped and created again, encode contents of several lengths, and  *)
(* decode objects made by any instance with the same parameters, with just *)
(* enough, more than enough or too few fragments, or with all of the data. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NData
VARIABLES hist, live, obj   \* obj: name -> parameters it was encoded with

Inst == {"a", "b", "c"}
ParOf(i) == IF i = "c" THEN 2 ELSE 1
Put(f, k, v) == (k :> v) @@ f

Init == hist = << >> /\ live = {} /\ obj = << >>
Log(r) == hist' = Append(hist, r)
New == \E i \in Inst \ live :
         /\ live' = live \cup {i} /\ UNCHANGED obj
         /\ Log([op |-> "new", c |-> i, p |-> ParOf(i)])
Drop == \E i \in live :
         /\ Len(hist) % 3 = 0 /\ live' = live \ {i} /\ UNCHANGED obj
         /\ Log([op |-> "drop", c |-> i])
Enc == \E i \in live, d \in 1..NData, o \in {"x", "y", "z"}, w \in {"all", "some"} :
         /\ obj' = Put(obj, o, [p |-> ParOf(i), all |-> w = "all"])
         /\ UNCHANGED live
         /\ Log([op |-> "enc", c |-> i, d |-> d, o |-> o, w |-> w, p |-> ParOf(i)])
Dec == \E i \in live, o \in DOMAIN obj, s \in {"min", "more", "few", "data"},
          again \in {0, 1} :
         /\ obj[o].p = ParOf(i) /\ obj[o].all /\ UNCHANGED <<live, obj>>
         /\ Log([op |-> "dec", c |-> i, o |-> o, s |-> s, again |-> again, p |-> ParOf(i)])
Reset == \E i \in live, dir \in {"enc", "dec"} :
         /\ UNCHANGED <<live, obj>>
         /\ Log([op |-> "reset", c |-> i, dir |-> dir])
Stats == \E i \in live : UNCHANGED <<live, obj>> /\ Log([op |-> "stats", c |-> i])
\* the end of a behaviour, printed once: it is the only successor
Done == /\ Len(hist) = Depth
        /\ PrintT("@@" \o ToJson(hist))
        /\ Log([op |-> "end"]) /\ UNCHANGED <<live, obj>>
Next == \/ Len(hist) < Depth /\ (New \/ Drop \/ Enc \/ Dec \/ Reset \/ Stats)
        \/ Done
=============================================================================

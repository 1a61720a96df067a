---------------------------- MODULE MemoryTrace -----------------------------
(* Are the recorded counts of blocks those of objects that give back what   *)
(* they take?  Only Steady and Settled can be told from them (MCMemory).    *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
M == INSTANCE Memory WITH Objs <- {}, Ops <- {}, Most <- 0, own <- << >>,
                          done <- << >>, kept <- 0, known <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, quiet
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TInit == l = 1 /\ quiet = << >>
TNext ==
    \/ (Is("group") \/ Is("same") \/ Is("end")) /\ quiet' = << >>
    \/ Is("run") /\ UNCHANGED quiet
    \/ Is("op") /\ M!Steady(E.held) /\ UNCHANGED quiet
    \/ Is("quiet") /\ quiet' = Append(quiet, E.held) /\ M!Settled(quiet')
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

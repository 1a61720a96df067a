------------------------------ MODULE MCMemory ------------------------------
(* A history is drawn once and gone through Runs times; the observer notes  *)
(* what is held.  Fault: what a defective object does.                      *)
EXTENDS Memory, TLC
CONSTANTS Length, Runs, Fault
VARIABLES hist,     \* the history: what to do and what it takes
          pc, run, seen, quiet, lost
vars == <<mvars, hist, pc, run, seen, quiet, lost>>

Steps == [a : {"new"}, o : Objs, n : 0..Most]
    \cup [a : {"op"}, o : Objs, op : Ops, n : 0..Most]
    \cup [a : {"move"}, o : Objs, p : Objs]
    \cup [a : {"drop"}, o : Objs]
RECURSIVE Lives(_, _)
Lives(h, i) == IF i = 0 THEN {}
               ELSE LET L == Lives(h, i - 1) IN
                    CASE h[i].a = "new" -> L \cup {h[i].o}
                      [] h[i].a = "drop" -> L \ {h[i].o}
                      [] OTHER -> L
Legal(h, s) == LET L == Lives(h, Len(h)) IN
    CASE s.a = "new" -> s.o \notin L
      [] s.a = "move" -> s.o \in L /\ s.p \in L /\ s.o # s.p
      [] OTHER -> s.o \in L

Init == /\ MInit /\ hist = << >> /\ pc = 0 /\ run = 0
        /\ seen = << >> /\ quiet = << >> /\ lost = 0
Draw == /\ run = 0
        /\ \/ /\ Len(hist) < Length
              /\ \E s \in Steps : Legal(hist, s) /\ hist' = Append(hist, s)
              /\ UNCHANGED run
           \/ hist # << >> /\ run' = 1 /\ UNCHANGED hist
        /\ UNCHANGED <<mvars, pc, seen, quiet, lost>>
\* what the process keeps, once
Costs(op) == IF op \in known THEN {0} ELSE {0, 1}
Do(s) ==
    CASE s.a = "new" -> /\ \E c \in Costs("new") : Create(s.o, s.n, c)
                        /\ UNCHANGED <<seen, lost>>
      [] s.a = "op" ->
           LET n == IF s.op \in done[s.o] THEN 0 ELSE s.n IN
           \* done three times
           \E c \in Costs(s.op) :
              /\ Operate(s.o, s.op, n, c)
              /\ LET h == Held + lost + n + c
                     d == IF Fault = "leak" /\ s.op = CHOOSE x \in Ops : TRUE
                          THEN 1 ELSE 0
                 IN /\ seen' = Append(seen, <<h + d, h + 2 * d, h + 3 * d>>)
                    /\ lost' = lost + 3 * d
      [] s.a = "move" -> /\ HandOver(s.o, s.p, own[s.o])
                         /\ UNCHANGED <<seen, lost>>
      [] OTHER -> /\ Destroy(s.o)
                  /\ lost' = lost + CASE Fault = "end" -> 1
                                      [] Fault = "theirs" -> -1
                                      [] OTHER -> 0
                  /\ UNCHANGED seen
Go == /\ run \in 1..Runs /\ pc < Len(hist)
      /\ Do(hist[pc + 1]) /\ pc' = pc + 1
      /\ UNCHANGED <<hist, run, quiet>>
\* what is left goes
Clear == /\ run \in 1..Runs /\ pc = Len(hist) /\ Alive # {}
         /\ LET o == CHOOSE x \in Alive : TRUE
            IN /\ Destroy(o)
               /\ lost' = lost + CASE Fault = "end" -> 1
                                   [] Fault = "theirs" -> -1
                                   [] OTHER -> 0
         /\ UNCHANGED <<hist, pc, run, seen, quiet>>
Quiet == /\ run \in 1..Runs /\ pc = Len(hist) /\ Alive = {}
         /\ quiet' = Append(quiet, Held + lost)
         /\ run' = run + 1 /\ pc' = 0 /\ seen' = << >>
         /\ UNCHANGED <<mvars, hist, lost>>
Next == Draw \/ Go \/ Clear \/ Quiet

Owned == \A o \in Alive : own[o] >= 0
NothingLeft == Alive = {} => Held = kept
NotBlamed == /\ \A i \in DOMAIN seen : Steady(seen[i])
             /\ Settled(quiet)
=============================================================================

----------------------------- MODULE DumpTrace ------------------------------
(* Are the recorded texts those of Dumps? *)
EXTENDS Dumps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
Bool(b) == IF b THEN 1 ELSE 0

TInit == l = 1
TNext ==
    \/ Is("group") \/ Is("same") \/ Is("end")
    \/ /\ Is("dnum")
       /\ LET t == Signed(E.v.s, E.v.m)
          IN E.t = Shown(t, E.cap) /\ E.bad = Bool(Len(t) > E.cap)
    \/ Is("dhex") /\ E.kept = 1 /\ E.t = HexDump(E.b, E.chars = 1)
    \/ Is("dnull") /\ E.t = << >>
    \/ Is("dbufs") /\ Numerals(E.t) = OfBuffers(E.rows)
    \/ Is("dvec") /\ Numerals(E.t) = OfVector(E.v)
    \/ Is("dmat") /\ Rows(E.t) = [i \in DOMAIN E.rows |-> All(E.rows[i])]
    \/ Is("dpoly") /\ Numerals(E.t) = OfPoly(E.v)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

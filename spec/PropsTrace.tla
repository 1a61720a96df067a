----------------------------- MODULE PropsTrace -----------------------------
(* Are the recorded readings and writings of properties those of PropsText? *)
EXTENDS PropsText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps         \* ps: name -> list of properties

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
Has(k) == k \in DOMAIN ps
P == IF Has(E.p) THEN ps[E.p] ELSE << >>
Q == IF Has(E.q) THEN ps[E.q] ELSE << >>
Set(k, v) == ps' = [x \in DOMAIN ps \cup {k} |-> IF x = k THEN v ELSE ps[x]]
Becomes(v) == v = E.l /\ Set(E.p, v)
Bool(b) == IF b THEN 1 ELSE 0

TInit == l = 1 /\ ps = << >>
TNext ==
    \/ (Is("group") \/ Is("same")) /\ ps' = << >>
    \/ Is("pnew") /\ Set(E.p, << >>)
    \/ Is("padd") /\ Becomes(Append(P, <<E.x, E.m>>))
    \/ Is("pclear") /\ Becomes(<< >>)
    \/ Is("psort") /\ Becomes(Sorted(P))
    \/ Is("pcopy") /\ E.l = P /\ Set(E.q, P)
    \/ Is("pwrite") /\ E.ok = 1 /\ E.t = Write(P) /\ Becomes(P)
    \/ Is("pread") /\ Assert(WellFormed(E.t), "not specified") /\ Becomes(P \o Read(E.t))
    \/ Is("pround") /\ E.l = Q \o P /\ Set(E.q, E.l)
    \/ /\ Is("pat") /\ Becomes(P)
       /\ E.loc = Location(P, E.i) /\ E.m = Marker(P, E.i)
       /\ E.is = Bool(IsMarked(P, E.i, E.x))
       /\ E.below = Bool(Below(P, E.i, E.x)) /\ E.from = Bool(From(P, E.i, E.x))
    \/ Is("end") /\ UNCHANGED ps
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE VectorTrace ----------------------------
(* Are the recorded operations on vectors those of VectorViews, and is the *)
(* recorded packing that of Packing?                                       *)
EXTENDS VectorViews, Packing, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, P

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

\* every vector and view is read after each operation
Observed(s, obs) ==
    /\ DOMAIN obs = DOMAIN s.v
    /\ \A x \in DOMAIN obs :
         /\ obs[x].n = s.v[x].n
         /\ s.v[x].k = "mem" => obs[x].m = s.v[x].n
         /\ obs[x].c = Seen(s, x)
\* what was drawn is in the field
Event == IF E.op # "rand" THEN E
         ELSE [e |-> E.e, op |-> E.op, a |-> E.a, got |-> E.obs[E.a].c]
TVec ==
    /\ Is("vec")
    /\ Assert(Legal(S, E), "not specified")
    /\ E.edges = 1
    /\ E.op = "rand" => \A i \in DOMAIN E.obs[E.a].c : E.obs[E.a].c[i] \in 0..(P - 1)
    /\ S' = TLCEval(Step(P, S, Event))
    /\ Observed(S', E.obs)
    /\ E.op = "eq" => E.r = IF Equal(S, E.a, E.b) THEN 1 ELSE 0
    /\ UNCHANGED P
TPack ==
    /\ Is("pack")
    /\ E.edges = 1
    /\ \A i \in DOMAIN E.src :
         IF i <= E.used
         THEN /\ E.words[i] = Packed(E.src[i], E.size, E.ws, E.t)
              /\ E.back[i] = E.src[i] /\ E.back[i] = Unpacked(E.words[i], E.ws)
         ELSE E.dst[i] = E.dst0[i] /\ E.back[i] = E.back0[i]
    /\ E.src2 = E.src /\ E.dst2 = E.dst
    /\ UNCHANGED <<S, P>>
TInit == l = 1 /\ S = Empty /\ P = 0
TNext == \/ (Is("group") \/ Is("same")) /\ S' = Empty /\ P' = 0
         \/ Is("vfield") /\ S' = Empty /\ P' = E.p
         \/ TVec
         \/ TPack
         \/ Is("end") /\ UNCHANGED <<S, P>>
View2 == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

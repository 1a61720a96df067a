----------------------------- MODULE BufferTrace ----------------------------
(* Are the recorded operations on sets of buffers those of BufferViews?    *)
EXTENDS BufferViews, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

\* every set is read after each operation
Observed(s, obs) ==
    /\ DOMAIN obs = DOMAIN s.set
    /\ \A x \in DOMAIN obs :
         LET b == s.set[x]
             o == obs[x]
         IN /\ o.n = N(b) /\ o.k = N(b) /\ o.s = b.size /\ o.m = N(b) * b.size
            /\ o.c = Seen(s, x)
TBuf ==
    /\ Is("buf")
    /\ Assert(Legal(S, E), "not specified")
    /\ E.edges = 1
    /\ S' = TLCEval(Step(S, E))
    /\ Observed(S', E.obs)
    /\ E.op = "eq" => E.r = IF Equal(S, E.a, E.b) THEN 1 ELSE 0
    /\ E.op = "cast" => E.r = 1
TInit == l = 1 /\ S = Empty
TNext == \/ (Is("group") \/ Is("same")) /\ S' = Empty
         \/ TBuf
         \/ Is("end") /\ UNCHANGED S
View2 == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

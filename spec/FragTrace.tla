------------------------------ MODULE FragTrace -----------------------------
(* Is a recorded use of the C API a behaviour of FragmentStore?            *)
EXTENDS FragmentStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
TInit == StoreInit /\ l = 1
TNext ==
    \/ /\ Is("group") \/ Is("same")
       /\ insts' = << >> /\ datas' = << >> /\ stores' = << >>
    \/ Is("inst") /\ NewInst(E.i, E, E.ok)
    \/ Is("msize") /\ MSize(E.bs, E.r)
    \/ Is("data") /\ NewData(E.d, E.len, E.frag)
    \/ Is("enc") /\ Encode(E.i, E.d, E.s, E)
    \/ Is("lose") /\ Lose(E.s, E.i)
    \/ Is("find") /\ Find(E.s, E.i)
    \/ Is("corrupt") /\ Corrupt(E.s, E.i)
    \/ Is("rec") /\ Reconstruct(E.i, E.s, E.dest, E)
    \/ Is("dec") /\ Decode(E.i, E.s, E)
    \/ Is("ser") /\ (On("hdr") => Written(E.at, E.nd, E)) /\ UNCHANGED svars
    \/ Is("deser") /\ (On("hdr") => Got(E.h, E.nd, E)) /\ UNCHANGED svars
    \/ Is("end") /\ UNCHANGED svars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

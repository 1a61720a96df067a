----------------------------- MODULE CodecTrace -----------------------------
(* Is a recorded execution of the library a behaviour of Codec?            *)
EXTENDS Codec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Wordy == A \cap {"words", "marks"} # {}

VARIABLES l, gens       \* gens: generator matrices already computed
tvars == <<codecs, datas, objs, memo, l, gens>>

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]

TInit == CodecInit /\ l = 1 /\ gens = << >>

TGroup == /\ Is("group")
          /\ codecs' = << >> /\ datas' = << >> /\ objs' = << >> /\ memo' = << >>
          /\ UNCHANGED gens
\* A group may continue with the memo of the previous one (other build)
TSame == /\ Is("same")
         /\ codecs' = << >> /\ datas' = << >> /\ objs' = << >>
         /\ UNCHANGED <<memo, gens>>
TNew == Is("new") /\ New(E.c, E, E) /\ UNCHANGED gens
TData == Is("data") /\ NewData(E.d, E.len, E.frag) /\ UNCHANGED gens
TEnc == Is("enc") /\ Encode(E.c, E.d, E.o, E.api, E.want, E) /\ UNCHANGED gens
TDec == Is("dec") /\ Decode(E.c, E.o, E.api, E.avail, E.want, E) /\ UNCHANGED gens
TReset == Is("reset") /\ Reset(E.c, E.dir) /\ UNCHANGED gens
TStats == /\ Is("stats") /\ Stats(E.c, E)
          /\ UNCHANGED gens
GKey(o) == <<o.kind, o.ws, o.k, o.m>>
TGen == \* computes the generator needed by the next event
    /\ Is("cols")
    /\ Wordy
    /\ ~Has(gens, GKey(objs[E.o]))
    /\ LET o == objs[E.o]
           g == Generator(o.kind, o.ws, o.k, o.m)
       IN /\ gens' = Put(gens, GKey(o), g)
          /\ Columns(E.o, E.want, E.at, E.d, E.f, E.marks, g)
TCols ==
    /\ Is("cols")
    /\ Wordy => Has(gens, GKey(objs[E.o]))
    /\ LET g == IF Has(gens, GKey(objs[E.o])) THEN gens[GKey(objs[E.o])] ELSE << >>
       IN Columns(E.o, E.want, E.at, E.d, E.f, E.marks, g)
    /\ UNCHANGED gens

TEnd == Is("end") /\ UNCHANGED <<codecs, datas, objs, memo, gens>>

TNext == TGroup \/ TSame \/ TNew \/ TData \/ TEnc \/ TDec \/ TReset \/ TStats
         \/ TGen \/ TCols \/ TEnd
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

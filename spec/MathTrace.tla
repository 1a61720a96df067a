----------------------------- MODULE MathTrace ------------------------------
(***************************************************************************)
(* Are the recorded results of the library's field, transform, matrix,     *)
(* polynomial and integer operations the ones of their definitions?        *)
(***************************************************************************)
EXTENDS FieldOps, Transform, PolyAlg, Arith, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, fields, ffts, polys, seen
\* fields: name -> [f, root]; ffts: name -> transform; polys: name -> polynomial
\* seen: the events of the group's first build, for the other builds
vars == <<l, fields, ffts, polys, seen>>

Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
Set(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]
F == fields[E.f].f
Same == UNCHANGED <<fields, ffts, polys, seen>>
Key(n) == E.f \o "/" \o n

TInit == l = 1 /\ fields = << >> /\ ffts = << >> /\ polys = << >>
         /\ seen = [first |-> 0, at |-> 0]
TGroup == Is("group") /\ fields' = << >> /\ ffts' = << >> /\ polys' = << >>
          /\ seen' = [first |-> l + 1, at |-> 0]
\* another build runs the same group: its events equal the first one's, so
\* that they are not computed again
TSame == Is("same") /\ seen' = [seen EXCEPT !.at = seen.first]
         /\ UNCHANGED <<fields, ffts, polys>>
Again == seen.at > 0
TAgain == /\ Again /\ l <= Len(Trace)
          /\ E.e \notin {"group", "same", "end"}
          /\ Trace[seen.at] = E
          /\ l' = l + 1 /\ seen' = [seen EXCEPT !.at = @ + 1]
          /\ UNCHANGED <<fields, ffts, polys>>
First(e) == ~Again /\ Is(e)

\* the fields of the codes have a given generator, the others any
AnyRoot(f) == f.c = "n" \/ (f.c = "p" /\ f.p \notin {257, 65537})
TField ==
    /\ First("field")
    /\ LET f == FieldOf(E.k, E.par)
       IN /\ FieldOK(f, E)
          /\ fields' = Set(fields, E.f,
                [f |-> f, root |-> IF AnyRoot(f) THEN E.root
                                   ELSE Root(IF f.c = "l" THEN Lane ELSE f)])
    /\ UNCHANGED <<ffts, polys, seen>>
TOps == First("ops") /\ OpsOK(F, E.op, E.a, E.b, E.r) /\ Same
TRand == First("rand") /\ DrawnOK(F, E.r) /\ Same
TOrds == First("ords") /\ OrdsOK(F, E.op, E.a, E.r) /\ Same
TBuf == First("buf") /\ BufOK(F, E) /\ Same
TBufs == First("bufs") /\ BufsOK(F, E) /\ Same
TPack == First("pack") /\ PackOK(F, E) /\ Same

\* the library's element of order n
Nth(n) == LET f == F
              r == fields[E.f].root
          IN IF f.c = "l" THEN Embed(f, Pow(Lane, r, 65536 \div n))
             ELSE PowNat(f, r, BDiv(Card1(f), NatOf(n)))
RootOf(e) ==
    CASE e.kind \in {"radix2", "ct", "gt"} -> Nth(e.n)
      [] e.kind \in {"large", "naive"} -> PowNat(F, Nth(e.n), NatOf(e.par))
      [] e.kind = "size2" -> Neg(F, One(F))
      [] e.kind = "single" -> One(F)
TFftNew ==
    /\ First("fftnew")
    /\ E.throws = 0 /\ E.gn = E.n /\ E.gf = 1
    /\ IF E.kind = "add"
       THEN LET m == CHOOSE i \in 1..16 : 2^i = E.n
                B == IF E.betas = << >> THEN DefaultBasis(F, m) ELSE E.betas
            IN /\ E.pts = Span(F, B)
               /\ ffts' = Set(ffts, Key(E.id), [n |-> E.n, kind |-> "pts", P |-> E.pts])
       ELSE ffts' = Set(ffts, Key(E.id),
               [n |-> E.n, kind |-> IF E.kind = "single" THEN "single" ELSE "dft",
                P |-> IF E.kind = "single" THEN << >> ELSE Powers(F, RootOf(E), E.n)])
    /\ UNCHANGED <<fields, polys, seen>>
\* the transform of a constant polynomial, whatever the length
SingleOK(f, n, op, x, out) ==
    IF op = "ifft" THEN out = Padded(f, <<x[1]>>, n)
    ELSE out = TLCEval([i \in 1..n |-> x[1]])
TFft ==
    /\ First("fft")
    /\ E.inok = 1
    /\ LET t == ffts[Key(E.id)]
           f == F
       IN /\ Len(E.out) = Len(E.in)
          /\ \A c \in DOMAIN E.in :
               IF t.kind = "single" THEN SingleOK(f, t.n, E.op, E.in[c], E.out[c])
               ELSE ResultOK(f, t, E.op, E.in[c], E.out[c])
    /\ Same
TTaylor == First("taylor") /\ TaylorOK(F, E) /\ Same
TOmegas ==
    /\ First("omegas")
    /\ E.r = Powers(F, PowNat(F, Nth(E.n), NatOf(E.we)), E.n)
    /\ Same

\* value i as an element
El(i) == Embed(F, i)
\* every square sub-matrix of a generator matrix is non-singular: with any
\* erasure pattern the data can be solved for (all of them for small ones)
AnyErasure(f, M) ==
    IF Len(M) * Len(M[1]) > 20 THEN TRUE
    ELSE \A S \in SUBSET (DOMAIN M) : \A T \in SUBSET (DOMAIN M[1]) :
      Cardinality(S) = Cardinality(T) /\ S # {} =>
        LET s == SetToSortSeq(S, LAMBDA a, b: a < b)
            t == SetToSortSeq(T, LAMBDA a, b: a < b)
        IN NonSingular(f, TLCEval([i \in DOMAIN s |->
                            TLCEval([j \in DOMAIN t |-> M[s[i]][t[j]]])]))
MatOK(f, e) ==
    LET R == e.r
        n == e.rows
    IN /\ e.in = 1
       /\ CASE e.op = "mul" -> e.throws = 0 /\ R = MatVec(f, e.m, e.v)
            [] e.op = "inv" ->
                 IF e.throws = 1 THEN ~NonSingular(f, e.m)
                 ELSE MatMul(f, e.m, R) = Ident(f, n)
            [] e.op = "vander" ->       \* i^j
                 /\ e.throws = 0
                 /\ R = TLCEval([i \in 1..n |-> Powers(f, El(i - 1), e.cols)])
            [] e.op = "vander_ec" ->
                 \* the values at cols + 1, ... of the polynomial with the
                 \* given values at 0, ..., cols - 1
                 /\ e.throws = 0
                 /\ AnyErasure(f, R)
                 /\ R = TLCEval([i \in 1..n |->
                          Lagrange(f, TLCEval([t \in 1..e.cols |-> El(t - 1)]),
                                   El(e.cols + i - 1))])
            [] e.op = "cauchy" ->
                 LET c(i, j) == Inv(f, Add(f, El(i - 1), El(j - 1 + n)))
                 IN /\ e.throws = 0
                    /\ AnyErasure(f, R)
                    /\ R = TLCEval([i \in 1..n |-> TLCEval([j \in 1..e.cols |->
                             Div(f, Mul(f, c(i, j), c(1, 1)),
                                    Mul(f, c(1, j), c(i, 1)))])])
TMat == First("mat") /\ MatOK(F, E) /\ Same

TPoly ==
    /\ First("poly")
    /\ LET P == [x \in {E.id, E.o} |->
                   IF Key(x) \in DOMAIN polys THEN polys[Key(x)] ELSE PNew(F, 1)]
       IN /\ PolyOK(F, P, E)
          /\ polys' = Set(polys, Key(E.id), PStep(F, P, E))
    /\ UNCHANGED <<fields, ffts, seen>>
TArith == First("arith") /\ ArithOK(E.op, E.a, E.r) /\ Same
TEnd == Is("end") /\ Same

TNext == TGroup \/ TSame \/ TAgain \/ TField \/ TOps \/ TRand \/ TOrds \/ TBuf \/ TBufs
         \/ TPack \/ TFftNew \/ TFft \/ TTaylor \/ TOmegas \/ TMat \/ TPoly
         \/ TArith \/ TEnd
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

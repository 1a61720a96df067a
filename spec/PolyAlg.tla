------------------------------ MODULE PolyAlg -------------------------------
(***************************************************************************)
(* Polynomials over a field, as the library's objects (property C18): a    *)
(* buffer c of coefficients, constant one first, and the degree d the      *)
(* object has (-1 for none, d = "any" where only the coefficients are      *)
(* defined, i.e. after a truncated product).                               *)
(***************************************************************************)
EXTENDS GF

PNew(f, n) == [c |-> TLCEval([i \in 1..n |-> Zero(f)]), d |-> -1, any |-> FALSE]
PSet(f, p, i, v) ==
    [p EXCEPT !.c = [@ EXCEPT ![i + 1] = v],
              !.d = IF v # Zero(f) /\ i > @ THEN i ELSE @]
PDeg(p, d) == [p EXCEPT !.d = d, !.any = FALSE]
(* The sum of n copies of a: n modulo the characteristic, in the field.    *)
Times(f, n, a) ==
    CASE f.c \in {"b", "w"} -> (IF n % 2 = 1 THEN a ELSE Zero(f))
      [] f.c \in {"p", "l"} -> Mul(f, Embed(f, n % f.p), a)
      [] OTHER -> Mul(f, Embed(f, n), a)
PDerive(f, p) ==
    [p EXCEPT !.c = TLCEval([i \in DOMAIN @ |->
                      IF i <= p.d THEN Times(f, i, @[i + 1])
                      ELSE IF i = p.d + 1 THEN Zero(f) ELSE @[i]]),
              !.d = p.d - 1]
PEval(f, p, x) == Eval(f, SubSeq(p.c, 1, p.d + 1), x)
(* The coefficients up to `deg` of the product of p and q.                 *)
PMul(f, p, q, deg) ==
    [p EXCEPT !.c = TLCEval([i \in DOMAIN @ |->
        IF i > deg + 1 THEN @[i]
        ELSE FoldLeft(LAMBDA acc, j:
               IF j > p.d + 1 \/ p.c[j] = Zero(f) THEN acc
               ELSE Add(f, acc, Mul(f, p.c[j], q.c[i + 1 - j])),
               Zero(f), Upto(i))]),
      !.any = TRUE]
PMulX(f, p, a) ==       \* times X + a
    [p EXCEPT !.c = TLCEval([i \in DOMAIN @ |->
        IF i > p.d + 2 THEN @[i]
        ELSE Add(f, IF i = 1 THEN Zero(f) ELSE @[i - 1],
                    IF i = p.d + 2 THEN Zero(f) ELSE Mul(f, @[i], a))]),
      !.d = p.d + 1]
PNeg(f, p) ==
    [p EXCEPT !.c = TLCEval([i \in DOMAIN @ |->
        IF i <= p.d + 1 THEN Neg(f, @[i]) ELSE @[i]])]
PZero(f, p) == [p EXCEPT !.c = TLCEval([i \in DOMAIN @ |-> Zero(f)])]

PStep(f, ps, e) ==      \* the polynomial after the operation e
    CASE e.op = "new" -> PNew(f, e.num)
      [] e.op = "copy" -> ps[e.o]
      [] e.op = "set" -> PSet(f, ps[e.id], e.num, e.arg)
      [] e.op = "deg" -> PDeg(ps[e.id], e.num)
      [] e.op \in {"der", "der_nf4"} -> PDerive(f, ps[e.id])
      [] e.op = "eval" -> ps[e.id]
      [] e.op = "mul" -> PMul(f, ps[e.id], ps[e.o], e.num)
      [] e.op = "mulx" -> PMulX(f, ps[e.id], e.arg)
      [] e.op = "neg" -> PNeg(f, ps[e.id])
      [] e.op = "zero" -> PZero(f, ps[e.id])
PolyOK(f, ps, e) ==
    LET p == PStep(f, ps, e)
    IN /\ e.n = Len(p.c) /\ e.c = p.c
       /\ ~p.any => e.deg = p.d
       /\ e.op = "eval" => e.res = PEval(f, ps[e.id], e.arg)
       /\ e.op = "mul" /\ e.id # e.o => e.oc = ps[e.o].c
=============================================================================

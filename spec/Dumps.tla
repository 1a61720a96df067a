------------------------------- MODULE Dumps --------------------------------
(***************************************************************************)
(* What is shown of the values: 128-bit integers as decimal numerals,      *)
(* memory in hexadecimal, and the elements of buffers, vectors, matrices   *)
(* and polynomials (property C21).  A text is the sequence of its          *)
(* characters' codes; a number one of BigNat.                              *)
(***************************************************************************)
EXTENDS BigNat

Blank == 32
NewLine == 10
Minus == 45
IsDigit(c) == c \in 48..57

(***************************************************************************)
(* Decimal numerals.                                                       *)
(***************************************************************************)
RECURSIVE Digits(_, _)
Digits(b, acc) == IF b = << >> THEN acc
                  ELSE LET d == BDivS(b, 10) IN Digits(d[1], <<48 + ToInt(d[2])>> \o acc)
Decimal(b) == IF b = << >> THEN <<48>> ELSE Digits(b, << >>)
Signed(s, b) == IF s < 0 THEN <<Minus>> \o Decimal(b) ELSE Decimal(b)
\* a stream that has room for no more than c characters
Shown(t, c) == SubSeq(t, 1, IF c < Len(t) THEN c ELSE Len(t))

(***************************************************************************)
(* Hexadecimal: thirty-two bytes a line; with the characters, those that   *)
(* are printable, after all the columns of the line.                       *)
(***************************************************************************)
PerLine == 32
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Printable(b) == b \in 32..126
CharOf(b) == IF Printable(b) THEN b ELSE 46
Spaces(n) == [i \in 1..n |-> Blank]
Columns(s) == FlattenSeq([i \in DOMAIN s |->
                  <<HexDigit(s[i] \div 16), HexDigit(s[i] % 16), Blank>>])
HexLine(s, chars) ==
    Columns(s)
    \o (IF chars THEN Spaces(3 * (PerLine - Len(s))) \o <<Blank, 124, Blank>>
                      \o [i \in DOMAIN s |-> CharOf(s[i])]
        ELSE << >>)
    \o <<NewLine>>
Lines(b) == [k \in 1..((Len(b) + PerLine - 1) \div PerLine) |->
                SubSeq(b, PerLine * (k - 1) + 1,
                       IF PerLine * k < Len(b) THEN PerLine * k ELSE Len(b))]
HexDump(b, chars) == LET L == Lines(b)
                     IN FlattenSeq([k \in DOMAIN L |-> HexLine(L[k], chars)])

(***************************************************************************)
(* The numerals of a text, whatever is between them, and those that the    *)
(* dumps of containers have.                                               *)
(***************************************************************************)
Numerals(t) ==
    LET st == FoldLeft(LAMBDA acc, c:
                  IF IsDigit(c) THEN <<acc[1], Append(acc[2], c)>>
                  ELSE IF acc[2] = << >> THEN acc
                  ELSE <<Append(acc[1], acc[2]), << >> >>,
                  << << >>, << >> >>, t)
    IN IF st[2] = << >> THEN st[1] ELSE Append(st[1], st[2])
All(s) == [i \in DOMAIN s |-> Decimal(s[i])]
\* each row after its number
OfBuffers(rows) == FlattenSeq([i \in DOMAIN rows |-> <<Decimal(NatOf(i - 1))>> \o All(rows[i])])
OfVector(s) == All(s)
OfMatrix(rows) == FlattenSeq([i \in DOMAIN rows |-> All(rows[i])])
\* each coefficient with its power
OfPoly(s) == FlattenSeq([i \in DOMAIN s |-> <<Decimal(s[i]), Decimal(NatOf(i - 1))>>])
\* the lines of the text that have numerals
LinesOf(t) == LET st == FoldLeft(LAMBDA acc, c:
                          IF c = NewLine THEN <<Append(acc[1], acc[2]), << >> >>
                          ELSE <<acc[1], Append(acc[2], c)>>,
                          << << >>, << >> >>, t)
              IN Append(st[1], st[2])
Rows(t) == SelectSeq([i \in DOMAIN LinesOf(t) |-> Numerals(LinesOf(t)[i])],
                     LAMBDA r: r # << >>)
=============================================================================

----------------------------- MODULE PropsText ------------------------------
(***************************************************************************)
(* Properties and their text (property C17).  A text is the sequence of    *)
(* its characters' codes; a number the sequence of its decimal digits, so  *)
(* that 64-bit positions need no arithmetic; a list of properties is a     *)
(* sequence of pairs <<position, marker>>.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NewLine == 10
Space == {32, 9, 11, 12, 13}        \* blank, tab, vtab, feed, return
Equal == 61
Comment == {35, 59}                 \* # ;
DigitOf(c) == c - 48
CodeOf(d) == d + 48

(***************************************************************************)
(* Writing: "position = marker" lines.                                     *)
(***************************************************************************)
TextOf(n) == [i \in DOMAIN n |-> CodeOf(n[i])]
LineOf(x) == TextOf(x[1]) \o <<32, Equal, 32>> \o TextOf(x[2]) \o <<NewLine>>
Write(L) == FlattenSeq([i \in DOMAIN L |-> LineOf(L[i])])

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
Trim(s) == LET I == {i \in DOMAIN s : s[i] \notin Space}
           IN IF I = {} THEN << >> ELSE SubSeq(s, Min(I), Max(I))
\* the value of a text of digits, without superfluous zeros
IsNumber(s) == s # << >> /\ \A i \in DOMAIN s : s[i] \in 48..57
Number(s) == LET I == {i \in DOMAIN s : s[i] # 48}
             IN IF I = {} THEN <<0>>
                ELSE [i \in 1..(Len(s) - Min(I) + 1) |-> DigitOf(s[i + Min(I) - 1])]
\* the lines of a text; the last one may lack its new line
LinesOf(t) ==
    LET E == SetToSortSeq({i \in DOMAIN t : t[i] = NewLine} \cup {Len(t) + 1},
                          LAMBDA a, b: a < b)
    IN [k \in DOMAIN E |-> SubSeq(t, IF k = 1 THEN 1 ELSE E[k - 1] + 1, E[k] - 1)]
Ignored(s) == s = << >> \/ s[1] \in Comment
EqualAt(s) == LET I == {i \in DOMAIN s : s[i] = Equal}
              IN IF I = {} THEN 0 ELSE Min(I)
KeyOf(s) == Trim(SubSeq(s, 1, EqualAt(s) - 1))
ValueOf(s) == Trim(SubSeq(s, EqualAt(s) + 1, Len(s)))
\* what is specified: lines that are ignored, without a key, or that give
\* a number to a number
LineOK(s) ==
    \/ Ignored(s)
    \/ EqualAt(s) > 0 /\ KeyOf(s) = << >>
    \/ EqualAt(s) > 0 /\ IsNumber(KeyOf(s)) /\ IsNumber(ValueOf(s))
Entry(s) == IF Ignored(s) \/ KeyOf(s) = << >> THEN << >>
            ELSE << <<Number(KeyOf(s)), Number(ValueOf(s))>> >>
WellFormed(t) == \A s \in ToSet(LinesOf(t)) : LineOK(Trim(s))
Read(t) == LET L == LinesOf(t)
           IN FlattenSeq([i \in DOMAIN L |-> Entry(Trim(L[i]))])

(***************************************************************************)
(* The rest of the interface: order and access.                            *)
(***************************************************************************)
\* numbers without superfluous zeros
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Before(x, y) == Less(x[1], y[1]) \/ (x[1] = y[1] /\ Less(x[2], y[2]))
Sorted(L) == SortSeq(L, LAMBDA x, y: Before(x, y))
Location(L, i) == IF i < Len(L) THEN L[i + 1][1] ELSE <<0>>
Marker(L, i) == IF i < Len(L) THEN L[i + 1][2] ELSE <<0>>
IsMarked(L, i, x) == i < Len(L) /\ L[i + 1][1] = x
Top == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>     \* 2^64 - 1
InRange(L, i, x, y) == i < Len(L) /\ ~Less(L[i + 1][1], x) /\ Less(L[i + 1][1], y)
Below(L, i, x) == InRange(L, i, <<0>>, x)
From(L, i, x) == InRange(L, i, x, Top)
=============================================================================

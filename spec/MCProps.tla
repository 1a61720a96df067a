------------------------------ MODULE MCProps -------------------------------
(***************************************************************************)
(* The text of properties, on small instances: all lists of up to Many     *)
(* properties are read back; and in all texts of up to Size characters     *)
(* that are well formed, ignored lines can be put between any lines, and   *)
(* blanks around any part, without a change to what is read.               *)
(***************************************************************************)
EXTENDS PropsText
CONSTANTS Many, Size
VARIABLES L, t
Nums == {<<0>>, <<7>>, <<1, 0>>}
Chars == {32, 9, NewLine, Equal, 35, 48, 55}
Init == L = << >> /\ t = << >>
Next == \/ /\ t = << >> /\ Len(L) < Many
           /\ \E x \in Nums, m \in Nums : L' = Append(L, <<x, m>>)
           /\ UNCHANGED t
        \/ /\ L = << >> /\ Len(t) < Size
           /\ \E c \in Chars : t' = Append(t, c)
           /\ UNCHANGED L
Back == WellFormed(Write(L)) /\ Read(Write(L)) = L
Joined == \A i \in 0..Len(L) : Read(Write(SubSeq(L, 1, i)) \o <<NewLine>>
                                    \o Write(SubSeq(L, i + 1, Len(L)))) = L
Junk == {<< >>, <<32>>, <<9, 13>>, <<35>>, <<32, 59, 55, Equal, 55>>, <<Equal, 55>>}
Starts == {1} \cup {i + 1 : i \in {i \in DOMAIN t : t[i] = NewLine}}
Insert(i, s) == SubSeq(t, 1, i - 1) \o s \o SubSeq(t, i, Len(t))
IgnoredLines == WellFormed(t) => \A i \in Starts, j \in Junk :
    LET u == Insert(i, j \o <<NewLine>>) IN WellFormed(u) /\ Read(u) = Read(t)
Around == WellFormed(t) => \A i \in {i \in DOMAIN t : t[i] = Equal} \cup Starts
                                   \cup {i + 1 : i \in {i \in DOMAIN t : t[i] = Equal}} :
    \A b \in {32, 9, 12} : Read(Insert(i, <<b>>)) = Read(t)
Zeros == \A s \in {Sorted(L)} : /\ ToSet(s) = ToSet(L) /\ Len(s) = Len(L)
                               /\ \A i \in 1..(Len(s) - 1) : ~Before(s[i + 1], s[i])
=============================================================================

------------------------------ MODULE MCMarks -------------------------------
(***************************************************************************)
(* Design check of the marks.  An encoder processes packets of words; a    *)
(* word has Lanes symbols in 0..Lim, of which Lim does not fit and is      *)
(* stored as 0 with its bit set in the marker of the word.  The list of    *)
(* marks an encoder appends packet by packet is the one Codec defines for  *)
(* the whole (MarksOf), and with it, in any order, a decoder restores the  *)
(* symbols; without one of its entries, or with one more, it would not.    *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS W, Lanes, Lim, Pkt, AllOrders
VARIABLES syms, marks, done \* symbols so far; marks of the packets done

mvars == <<syms, marks, done, codecs, datas, objs, memo>>

Marker(s) == FoldLeft(LAMBDA acc, l: acc + (s[l] \div Lim) * 2^(l-1), 0, Upto(Lanes))
Stored(s) == [l \in 1..Lanes |-> s[l] % Lim]
Cols(n) == [x \in 1..n |-> [v |-> Stored(syms[x]), mark |-> Marker(syms[x])]]
At(n) == [x \in 1..n |-> x - 1]

Init == /\ syms = << >> /\ marks = << >> /\ done = 0 /\ CodecInit
\* the next word of the current packet
Word == /\ Len(syms) < W /\ Len(syms) - done < Pkt
        /\ \E s \in [1..Lanes -> 0..Lim] : syms' = Append(syms, s)
        /\ UNCHANGED <<marks, done, codecs, datas, objs, memo>>
\* the encoder ends a packet (the last one may be short)
EndPkt ==
    LET n == Len(syms)
        new == SelectSeq([x \in 1..(n - done) |-> done + x],
                         LAMBDA x: Marker(syms[x]) # 0)
    IN /\ n > done /\ (n - done = Pkt \/ n = W)
       /\ marks' = marks \o [i \in DOMAIN new |-> <<new[i] - 1, Marker(syms[new[i]])>>]
       /\ done' = n
       /\ UNCHANGED <<syms, codecs, datas, objs, memo>>
Next == Word \/ EndPkt

Restore(stored, ms) ==     \* what a decoder makes of the stored words
    [x \in DOMAIN stored |->
      LET e == {i \in DOMAIN ms : ms[i][1] = x - 1}
      IN IF e = {} THEN stored[x]
         ELSE LET m == ms[CHOOSE i \in e : TRUE][2]
              IN [l \in 1..Lanes |-> IF (m \div 2^(l-1)) % 2 = 1 THEN Lim
                                     ELSE stored[x][l]]]
Full == MarksOf(At(Len(syms)), Cols(Len(syms)))
StoredAll == [x \in 1..Len(syms) |-> Stored(syms[x])]
\* the marks appended packet by packet are a prefix of the definition
Incremental == marks = SelectSeq(Full, LAMBDA e: e[1] < done)
Orders(ms) == IF AllOrders THEN {[i \in DOMAIN ms |-> ms[p[i]]] :
                                   p \in Permutations(DOMAIN ms)}
              ELSE {ms, Reverse(ms)}
Restores == \A ms \in Orders(Full) : Restore(StoredAll, ms) = syms
\* nothing can be left out
Needed == \A i \in DOMAIN Full :
    Restore(StoredAll, RemoveAt(Full, i)) # syms
=============================================================================

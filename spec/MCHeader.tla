------------------------------ MODULE MCHeader ------------------------------
(* Any list of positions survives a header that it fits in; a header with  *)
(* any dword replaced is rejected, or lists positions that it contains.    *)
EXTENDS Header, TLC
CONSTANTS MaxNd, MaxLen
VARIABLES at, nd, h, touched
vars == <<at, nd, h, touched>>

Values == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<65535, 65535>>, <<0, 16384>>, <<17969, 18004>>}
Lists == UNION {[1..n -> Values] : n \in 0..MaxLen}

Init == /\ at \in Lists /\ nd \in 0..MaxNd /\ touched = 0
        /\ h = IF Fits(Len(at), nd) THEN Serialize(at, nd) ELSE << >>
Corrupt == /\ touched = 0 /\ h # << >>
           /\ \E w \in 0..(nd - 1), v \in Values \cup {<<nd - 2, 0>>, <<nd - 1, 0>>, <<nd, 0>>} :
                /\ touched' = w + 1
                /\ h' = [b \in DOMAIN h |-> IF (b - 1) \div 4 = w
                                            THEN Dword(v)[((b - 1) % 4) + 1] ELSE h[b]]
           /\ UNCHANGED <<at, nd>>
Next == Corrupt
RoundTrip == touched = 0 /\ h # << >> => Readable(h, nd) /\ Read(h) = at /\ Len(h) = 4 * nd
Inside == h # << >> /\ Readable(h, nd) => 2 + Len(Read(h)) <= nd
Rejected == touched = 1 /\ SubSeq(h, 1, 4) # Magic => ~Readable(h, nd)
OnlyCount == touched > 2 => Readable(h, nd) /\ Len(Read(h)) = Len(at)
Canonical == \* what is read can be written again, as it was when the tail is zero
    h # << >> /\ Readable(h, nd) =>
        LET g == Serialize(Read(h), nd)
        IN SubSeq(g, 1, 8 + 4 * Len(Read(h))) = SubSeq(h, 1, 8 + 4 * Len(Read(h)))
=============================================================================

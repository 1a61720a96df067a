------------------------------- MODULE MCDump -------------------------------
(***************************************************************************)
(* The dumps on small instances: what is shown can be read back.           *)
(***************************************************************************)
EXTENDS Dumps
CONSTANTS Most, Longest
VARIABLES n, b
Init == n = 0 /\ b = << >>
Bytes == {0, 9, 31, 32, 46, 65, 126, 127, 160, 255}
Next == \/ b = << >> /\ n < Most /\ n' = n + 1 /\ UNCHANGED b
        \/ /\ n = 0 /\ Len(b) < Longest
           /\ \E x \in Bytes : b' = IF Len(b) < 2 THEN Append(b, x)
                                    ELSE Append(b, (x + b[Len(b)]) % 256)
           /\ Len(b) >= 2 => b'[Len(b')] = (7 * Len(b) + b[2]) % 256
           /\ UNCHANGED n

Value(t) == FoldLeft(LAMBDA acc, c: 10 * acc + (c - 48), 0, t)
\* a numeral has the number's value, and only zero begins with 0
Exact == \A k \in {n, n * n, 8191 * n, 2147483647 - n} :
    LET t == Decimal(NatOf(k))
    IN /\ \A i \in DOMAIN t : IsDigit(t[i])
       /\ Value(t) = k /\ (t[1] = 48 => Len(t) = 1)
       /\ Numerals(<<Blank>> \o t \o <<Minus>> \o t) = <<t, t>>
\* the columns give the bytes, and those of full lines are aligned
Nibble(c) == IF IsDigit(c) THEN c - 48 ELSE c - 87
BytesOf(line, k) == [i \in 1..k |-> 16 * Nibble(line[3 * i - 2]) + Nibble(line[3 * i - 1])]
InLine(k) == IF 32 * k < Len(b) THEN 32 ELSE Len(b) - 32 * (k - 1)
Back(chars) ==
    LET t == HexDump(b, chars)
        L == LinesOf(t)
        m == Len(L) - 1
    IN /\ L[m + 1] = << >>
       /\ FlattenSeq([k \in 1..m |-> BytesOf(L[k], InLine(k))]) = b
       /\ \A k \in 1..m : Len(L[k]) = IF chars THEN 99 + InLine(k) ELSE 3 * InLine(k)
Hex == Back(TRUE) /\ Back(FALSE)
=============================================================================

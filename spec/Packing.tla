------------------------------- MODULE Packing ------------------------------
(***************************************************************************)
(* Bytes packed into words and unpacked: each word holds ws of the bytes,  *)
(* the least significant first, and zeros above; only the first `used`     *)
(* buffers take part.  A word is given as the sequence of its t bytes.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
PackedWord(bytes, t) == [k \in 1..t |-> IF k <= Len(bytes) THEN bytes[k] ELSE 0]
Packed(src, size, ws, t) ==
    [x \in 1..size |-> PackedWord(SubSeq(src, (x - 1) * ws + 1, x * ws), t)]
Unpacked(words, ws) ==
    [k \in 1..(Len(words) * ws) |-> words[(k - 1) \div ws + 1][((k - 1) % ws) + 1]]
=============================================================================

-------------------------- MODULE MCFragmentStore ---------------------------
(***************************************************************************)
(* FragmentStore with an implementation free to return anything: the rules *)
(* alone must keep the store sound, and leave it live: from any state with *)
(* enough sound fragments, the permitted results of reconstructing each    *)
(* fragment lead back to the store as it was first.                        *)
(***************************************************************************)
EXTENDS FragmentStore
CONSTANTS K, M, Sys, Budget
VARIABLE left

N == [ws |-> 2, k |-> K, m |-> M, sys |-> Sys]
F(i) == <<"h" \o ToString(IF Sys = 1 /\ i <= K THEN 0 ELSE i), "p" \o ToString(i)>>
Orig == [i \in 1..(K + M) |-> F(i)]
D == [len |-> 2, frag |-> [i \in 1..K |-> IF Sys = 1 THEN "p" \o ToString(i)
                                          ELSE "d" \o ToString(i)]]
Trash == <<"g", "g">>

MCInit == /\ insts = ("i" :> N) /\ datas = ("d" :> D)
          /\ stores = ("s" :> [n |-> N, d |-> D, bad |-> {}, orig |-> Orig, cur |-> Orig,
                               msz |-> 64])
          /\ left = Budget
S == stores["s"]
\* what an arbitrary implementation may leave in the buffers
Pre == [i \in 1..(K + M) |-> IF i \in Avail(S) THEN S.cur[i] ELSE Trash]
Bufs(I) == {[i \in 1..(K + M) |-> IF i \in DOMAIN f THEN f[i] ELSE Pre[i]] :
              f \in [I -> {Trash} \cup {F(i) : i \in I}
                          \cup {<<"h0", D.frag[i]>> : i \in I \cap 1..K}]}
Rec(dest) ==
    \E ret \in {0, -1}, b \in Bufs({dest, (dest % (K + M)) + 1}) :
        Reconstruct("i", "s", dest, [ret |-> ret, frag |-> b, pre |-> Pre, edges |-> 1])
Dec ==
    \E ret \in {0, -1}, b \in Bufs(1..K), keep \in {0, Sys} :
        Decode("i", "s", [ret |-> ret, frag |-> b, pre |-> Pre, edges |-> 1, keep |-> keep])
Damage == /\ left > 0 /\ left' = left - 1
          /\ \/ \E i \in Avail(S) : Lose("s", i)
             \/ \E i \in Avail(S) : IsOut(N, i) /\ Corrupt("s", i)
MCNext == \/ Damage
          \/ UNCHANGED left /\ (Dec \/ \E i \in 1..(K + M) : Rec(i))
          \/ UNCHANGED left /\ \E i \in 1..(K + M) \ Avail(S) :
                 Cardinality(Avail(S)) < K /\ Find("s", i)
\* with the data of a systematic code all there, lost or corrupted outputs matter as well
Live == \A i \in 1..(K + M) :
          Able(S) <=> ENABLED (Reconstruct("i", "s", i,
              [ret |-> 0, frag |-> [Pre EXCEPT ![i] = F(i)], pre |-> Pre, edges |-> 1]))
Refuses == \A i \in 1..(K + M) :
          ~Able(S) <=> ENABLED (Reconstruct("i", "s", i,
              [ret |-> -1, frag |-> Pre, pre |-> Pre, edges |-> 1]))
All == {"enc", "rec", "fail", "mem"}
=============================================================================

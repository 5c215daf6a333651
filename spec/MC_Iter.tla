------------------------------- MODULE MC_Iter -------------------------------
(***************************************************************************)
(* A double-ended iterator over aV list of n nodes, under every history of  *)
(* calls: the indices s[aV..b) are left.  The library has one such iterator *)
(* for nodes, one for locations, and those of the lists themselves.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

VARIABLES lenV, aV, bV,      \* the list's length; what is left
          given,          \* the indices that were given, in order
          hist            \* the calls
vars == <<lenV, aV, bV, given, hist>>

Thorough == IOEnv.TIER = "thorough"
Suite == IOEnv.SUITE        \* "it": short lists, every call; "big": long lists, and skips as long
Lens == IF Suite = "big" THEN {256, 257, 300, 65600} ELSE 0..(IF Thorough THEN 4 ELSE 3)
Calls == (IF Suite = "big" THEN 2 ELSE 4) + (IF Thorough THEN 1 ELSE 0)
Skips == IF Suite = "big" THEN {127, 128, 254, 255, 256, 298, 65534, 65535, 65536} ELSE {0, 1, 2}

Left == bV - aV
Seg(x, y) == [k \in 1..(y - x) |-> x + k - 1]      \* x, .., y - 1
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Ops == {<<"next", 0>>, <<"back", 0>>, <<"count", 0>>, <<"last", 0>>} \cup {<<o, k>> : o \in {"nth", "nthb"}, k \in Skips}
       \cup (IF Suite = "big" THEN {} ELSE {<<"rest", 0>>, <<"rrest", 0>>, <<"fold", 0>>, <<"rfold", 0>>})
\* <<what is given, count, aV, bV>>
Effect(o, k) ==
  CASE o = "next" -> IF Left = 0 THEN <<<<>>, 0, aV, bV>> ELSE <<<<aV>>, 0, aV + 1, bV>>
    [] o = "back" -> IF Left = 0 THEN <<<<>>, 0, aV, bV>> ELSE <<<<bV - 1>>, 0, aV, bV - 1>>
    [] o = "nth" -> IF k >= Left THEN <<<<>>, 0, bV, bV>> ELSE <<<<aV + k>>, 0, aV + k + 1, bV>>
    [] o = "nthb" -> IF k >= Left THEN <<<<>>, 0, aV, aV>> ELSE <<<<bV - 1 - k>>, 0, aV, bV - 1 - k>>
    [] o = "count" -> <<<<>>, Left, bV, bV>>
    [] o = "last" -> <<IF Left = 0 THEN <<>> ELSE <<bV - 1>>, 0, bV, bV>>
    [] o \in {"rest", "fold"} -> <<Seg(aV, bV), 0, bV, bV>>
    [] o \in {"rrest", "rfold"} -> <<Rev(Seg(aV, bV)), 0, bV, bV>>

Init == lenV \in Lens /\ aV = 0 /\ bV = lenV /\ given = <<>> /\ hist = <<>>
Do(op) == /\ Len(hist) < Calls
          /\ \E e \in {Effect(op[1], op[2])} :
               /\ aV' = e[3] /\ bV' = e[4]
               /\ given' = given \o e[1]
               /\ hist' = Append(hist, [o |-> op[1], k |-> op[2], r |-> e[1], c |-> e[2], n |-> e[4] - e[3]])
          /\ UNCHANGED lenV
          /\ Len(hist') = Calls => PrintT("VEC " \o ToJson([k |-> "it", len |-> lenV, steps |-> hist']))
\* once nothing is left, only two calls more are of interest
Next == \E op \in Ops : (Left = 0 /\ Len(hist) > 1 => op \in {<<"next", 0>>, <<"back", 0>>, <<"rrest", 0>>}) /\ Do(op)
Spec == Init /\ [][Next]_vars

Window == 0 <= aV /\ aV <= bV /\ bV <= lenV
\* nothing is given twice, and nothing that is given is still left
Once == /\ \A j, k \in 1..Len(given) : given[j] = given[k] => j = k
        /\ \A j \in 1..Len(given) : given[j] \notin aV..(bV - 1) /\ given[j] \in 0..(lenV - 1)
\* without skipping calls, everything is either given or left
NoSkips == (\A j \in 1..Len(hist) : hist[j].o \in {"next", "back", "rest", "rrest", "fold", "rfold"}) => Len(given) + Left = lenV
Shrinks == [][aV' >= aV /\ bV' <= bV]_vars
\* exhausted for good
Fused == [][Left = 0 => Left' = 0 /\ given' = given]_vars
=============================================================================

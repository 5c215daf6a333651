------------------------------ MODULE MC_Dedup ------------------------------
(***************************************************************************)
(* Deduplication: a list of located nodes, in any order and with any       *)
(* repetitions, grows node by node; beside it, a sorted list without       *)
(* repetitions, into which each node is inserted.                          *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES list, kept
vars == <<list, kept>>

Thorough == IOEnv.TIER = "thorough"
A == T("a")
Doc == Obj(<<<<<<>>, Num(1)>>,
             <<T("10"), Num(1)>>,
             <<T("2"), Obj(<<<<A, Num(1)>>>>)>>,
             <<T("B"), Arr([k \in 1..11 |-> IF k = 3 THEN Arr(<<Num(1), Num(1)>>) ELSE Num(1)])>>,
             <<A, Obj(<<<<A, Obj(<<<<A, Num(1)>>>>)>>, <<T("b"), Null>>>>)>>,
             <<T("ab"), Null>>,
             <<<<233>>, Str(A)>>,
             <<<<65535>>, Num(1)>>,
             <<<<65536>>, Num(1)>>>>)
N(s) == NameEl(s)
Pool == <<<<>>, <<N(<<>>)>>, <<N(T("10"))>>, <<N(T("2"))>>, <<N(T("2")), N(A)>>, <<N(T("B"))>>, <<N(T("B")), IdxEl(2)>>, <<N(T("B")), IdxEl(10)>>,
          <<N(T("B")), IdxEl(2), IdxEl(0)>>, <<N(T("B")), IdxEl(2), IdxEl(1)>>, <<N(A)>>, <<N(A), N(A)>>, <<N(A), N(A), N(A)>>, <<N(A), N(T("b"))>>,
          <<N(T("ab"))>>, <<N(<<233>>)>>, <<N(<<65535>>)>>, <<N(<<65536>>)>>, <<N(T("B")), IdxEl(9)>>, <<N(T("B")), IdxEl(0)>>>>
Longest == IF Thorough THEN 4 ELSE 3
Longer == IF Thorough THEN 9 ELSE 7      \* lists that walk through the pool with a stride

RECURSIVE Insert(_, _)
Insert(s, p) == IF s = <<>> THEN <<p>>
                ELSE IF s[1] = p THEN s
                ELSE IF PathLt(p, s[1]) THEN <<p>> \o s
                ELSE <<s[1]>> \o Insert(Tail(s), p)

Init == list = <<>> /\ kept = <<>>
Add(p) == list' = Append(list, p) /\ kept' = Insert(kept, p)
Emit == PrintT("VEC " \o ToJson([k |-> "dd", d |-> Doc, at |-> list', want |-> kept']))
Next == \/ /\ Len(list) < Longest
           /\ \E k \in 1..Len(Pool) : Add(Pool[k])
           /\ Len(list') = Longest => Emit
        \/ \* long lists: on from a list of two, with a stride
           /\ Len(list) \in 2..(Longer * 4)
           /\ \E j \in {k \in 1..Len(Pool) : Pool[k] = list[1]}, m \in {k \in 1..Len(Pool) : Pool[k] = list[2]} :
                /\ Len(list) > Longest => \A k \in 3..Len(list) : list[k] = Pool[((j + (k - 1) * m) % Len(Pool)) + 1]
                /\ Add(Pool[((j + Len(list) * m) % Len(Pool)) + 1])
           /\ Len(list') % 9 = 0 => Emit
Spec == Init /\ [][Next]_vars

AsDefined == kept = DedupPaths(list)
SameNodes == Range(kept) = Range(list)
Ordered == \A j, k \in 1..Len(kept) : j < k => PathLt(kept[j], kept[k]) /\ ~PathLt(kept[k], kept[j])
Idempotent == DedupPaths(kept) = kept
\* a prefix comes before its extensions
PrefixFirst == \A j, k \in 1..Len(kept) :
   Len(kept[j]) < Len(kept[k]) => (IF SubSeq(kept[k], 1, Len(kept[j])) = kept[j] THEN j < k ELSE TRUE)
=============================================================================

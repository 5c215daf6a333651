----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* A program that uses the library: it parses texts, copies paths, replaces *)
(* its document, and queries, in any order.  The specification is a machine *)
(* with no memory but the program's own variables; a history of it is a     *)
(* test of whether the library has any other.                               *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES slot,     \* the paths the program has: [1..2 -> 0 or the number of a text]
          curV,      \* the document it has
          hist      \* what was done, with outcomes
vars == <<slot, curV, hist>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
A == T("a")
B == T("b")
O(x, y) == Obj(<<<<A, x>>, <<B, y>>>>)
Docs == CASE Suite = "texts" -> <<Arr(<<O(Str(T("ab")), Str(T("a."))), O(Str(T("b")), Str(T("b"))), Str(T("ab"))>>),
                                  Arr(<<O(Str(T("axb")), Str(T("axb"))), Arr(<<>>)>>)>>
          [] Suite = "docs" -> <<O(Num(1), Arr(<<Num(1), Num(2)>>)), O(Arr(<<Num(2)>>), Num(1)), Arr(<<O(Num(1), Null)>>)>>
          [] Suite = "bad" -> <<O(Num(1), Num(2)), Arr(<<O(Num(1), Num(2))>>)>>
\* texts that resemble one another
Texts == CASE Suite = "texts" -> <<T("$[?match(@.a,@.b)]"), T("$[?search(@.a,@.b)]"), T("$[?match(@.a,'ab')]"), T("$[?search(@.a,'ab')]")>>
           [] Suite = "docs" -> <<T("$.a"), T("$.b"), T("$..a"), T("$[?@==$.a]")>>
           [] Suite = "bad" -> <<T("$.a"), T("$.a "), T("$[?@.a==1]"), T("$[?@.a==01]")>>
NT == 4
Longest == IF Thorough THEN 6 ELSE IF Suite = "texts" THEN 4 ELSE 4

\* outcomes, computed once
RECURSIVE OutTexts(_)
OutTexts(n) == TLCEval([t \in 1..NT |-> [d \in 1..Len(Docs) |-> LET r == ParseStrict(Texts[t]) IN IF r.ok THEN EvalPaths(r.v, Docs[d]) ELSE <<>>]])
Accepted == TLCEval([t \in 1..NT |-> ParseStrict(Texts[t]).ok])

VARIABLE table
All == <<slot, curV, hist, table>>
Init == slot = [a \in 0..1 |-> 0] /\ curV = 1 /\ hist = <<>> /\ table = OutTexts(0)

Do(o, a, b, ok, r) == hist' = Append(hist, [o |-> o, a |-> a, b |-> b, ok |-> ok, r |-> r]) /\ UNCHANGED table
Parse == \E a \in 0..1, t \in 1..NT :
           /\ slot' = [slot EXCEPT ![a] = IF Accepted[t] THEN t ELSE 0]
           /\ Do("parse", a, t, Accepted[t], <<>>) /\ UNCHANGED curV
Copy == \E a \in 0..1 : /\ slot[1 - a] # 0 /\ slot[a] # slot[1 - a]
                        /\ slot' = [slot EXCEPT ![a] = slot[1 - a]]
                        /\ Do("clone", a, 1 - a, TRUE, <<>>) /\ UNCHANGED curV
Replace == \E d \in 1..Len(Docs) \ {curV} : curV' = d /\ Do("doc", 0, d, TRUE, <<>>) /\ UNCHANGED slot
Ask == \E a \in 0..1, o \in {"query", "loc", "ext", "thread"} :
         /\ slot[a] # 0
         /\ (o \in {"loc", "thread"} => Thorough \/ Len(hist) >= Longest - 1)
         /\ Do(o, a, 1, TRUE, table[slot[a]][curV]) /\ UNCHANGED <<slot, curV>>
Ends == Len(hist') = Longest /\ hist'[Longest].o \in {"query", "loc", "ext", "thread"}
Next == /\ Len(hist) < Longest
        /\ Parse \/ Copy \/ Replace \/ Ask
        /\ Ends => PrintT("VEC " \o ToJson([k |-> "hist", docs |-> Docs, texts |-> Texts, h |-> hist']))
Spec == Init /\ [][Next]_All

(* ---- what the machine guarantees ---- *)
\* the outcome of a query depends on its text and document alone
Asked == {"query", "loc", "ext", "thread"}
RECURSIVE At2(_, _)
\* the variables after the first k steps, found again from the history
At2(a, k) == IF k = 0 THEN 0
             ELSE LET s == hist[k] IN CASE s.o = "parse" /\ s.a = a -> (IF s.ok THEN s.b ELSE 0)
                                       [] s.o = "clone" /\ s.a = a -> At2(s.b, k - 1)
                                       [] OTHER -> At2(a, k - 1)
RECURSIVE DocAt(_)
DocAt(k) == IF k = 0 THEN 1 ELSE IF hist[k].o = "doc" THEN hist[k].b ELSE DocAt(k - 1)
Replays == \A k \in 1..Len(hist) : hist[k].o \in Asked => hist[k].r = table[At2(hist[k].a, k)][DocAt(k)]
Function == \A j, k \in 1..Len(hist) :
  hist[j].o \in Asked /\ hist[k].o \in Asked /\ At2(hist[j].a, j) = At2(hist[k].a, k) /\ DocAt(j) = DocAt(k) => hist[j].r = hist[k].r
=============================================================================

------------------------------ MODULE MC_Slice ------------------------------
(***************************************************************************)
(* Array slices as the loop of RFC 9535, 2.3.4.2.2: bounds, then one index *)
(* after the other.  All starts, ends and steps around the length of the   *)
(* array, and the largest that may be written; what the loop gives is what *)
(* JPEval defines, and has the laws that slices have.                      *)
(* Suite "index": indices, in segments and in singular queries.            *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES lenV, stV, enV, spV,    \* the array's length; start, end, step: <<>> or <<n>>
          iV, out, pc
vars == <<lenV, stV, enV, spV, iV, out, pc>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
MaxLen == IF Thorough THEN 6 ELSE 4
Big == 1000000                 \* stands for 2^53 - 1
Reach == IF Thorough THEN 3 ELSE 2
Opts(S) == {<<>>} \cup {<<n>> : n \in S \cup {Big, -Big}}
IntOf(n) == IF n = Big THEN BigI ELSE IF n = -Big THEN BigNegI ELSE I(n)
OptInt(o) == IF o = <<>> THEN <<>> ELSE <<IntOf(o[1])>>
Selector == Slice(OptInt(stV), OptInt(enV), OptInt(spV))

(* ---- the loop ---- *)
Step == IF spV = <<>> THEN 1 ELSE spV[1]
Start == IF stV # <<>> THEN stV[1] ELSE IF Step >= 0 THEN 0 ELSE lenV - 1
End == IF enV # <<>> THEN enV[1] ELSE IF Step >= 0 THEN lenV ELSE -lenV - 1
Normalize(x) == IF x >= 0 THEN x ELSE lenV + x
NStart == Normalize(Start)
NEnd == Normalize(End)
Lower == IF Step >= 0 THEN Min2(Max2(NStart, 0), lenV) ELSE Min2(Max2(NEnd, -1), lenV - 1)
Upper == IF Step >= 0 THEN Min2(Max2(NEnd, 0), lenV) ELSE Min2(Max2(NStart, -1), lenV - 1)

Elems == [x \in 1..lenV |-> Num(x * 10)]
TheDoc == IF Suite = "slice" THEN Arr(Elems) ELSE Arr(<<Arr(Elems), Num(10), Arr(<<Arr(Elems), Num(1)>>), Obj(<<<<T("0"), Num(1)>>>>)>>)
N(n) == Child(<<Idx(0)>>)
IdxOf(n) == Child(<<[k |-> "idx", i |-> IntOf(n)]>>)
\* where an index may stand
Forms == 9
TheQuery ==
  CASE Suite = "slice" -> AbsQ(<<Child(<<Selector>>)>>)
    [] Suite = "index" ->
         LET x == IdxOf(stV[1])
         IN CASE enV[1] = 1 -> AbsQ(<<Child(<<Idx(0)>>), x>>)
              [] enV[1] = 2 -> AbsQ(<<x, x>>)
              [] enV[1] = 3 -> AbsQ(<<Child(<<Filt(Exists(RelQ(<<x>>)))>>)>>)
              [] enV[1] = 4 -> AbsQ(<<Child(<<Filt(Cmp(Qry(RelQ(<<x>>)), "==", Lit(Num(10))))>>)>>)
              [] enV[1] = 5 -> AbsQ(<<Child(<<Filt(Cmp(Qry(RelQ(<<>>)), "!=", Qry(AbsQ(<<Child(<<Idx(0)>>), x>>))))>>)>>)
              [] enV[1] = 6 -> AbsQ(<<Child(<<Filt(Cmp(CallArg(T("count"), <<Qry(RelQ(<<x>>))>>), "==", Lit(Num(1))))>>)>>)
              [] enV[1] = 7 -> AbsQ(<<Child(<<Filt(Cmp(CallArg(T("length"), <<Qry(RelQ(<<x>>))>>), ">=", Lit(Num(0))))>>)>>)
              [] enV[1] = 8 -> AbsQ(<<Desc(<<[k |-> "idx", i |-> IntOf(stV[1])]>>)>>)
              [] enV[1] = 9 -> AbsQ(<<Child(<<Filt(Cmp(Qry(RelQ(<<x, Child(<<Idx(0)>>)>>)), "<", Qry(RelQ(<<x>>))))>>)>>)

Init == /\ lenV \in 0..MaxLen
        /\ IF Suite = "slice"
           THEN /\ stV \in Opts((-lenV - Reach)..(lenV + Reach))
                /\ enV \in Opts((-lenV - Reach)..(lenV + Reach))
                /\ spV \in Opts(-(lenV + 1)..(lenV + 1))
           ELSE /\ stV \in {<<n>> : n \in (-lenV - Reach)..(lenV + Reach) \cup {Big, -Big}}
                /\ enV \in {<<n>> : n \in 1..Forms}
                /\ spV = <<>>
        /\ iV = 0 /\ out = <<>> /\ pc = "start"

Keep == UNCHANGED <<lenV, stV, enV, spV>>
Begin == /\ Suite = "slice" /\ pc = "start"
         /\ IF Step = 0 THEN pc' = "end" /\ iV' = 0
            ELSE pc' = "loop" /\ iV' = IF Step > 0 THEN Lower ELSE Upper
         /\ UNCHANGED out /\ Keep
Take == /\ pc = "loop"
        /\ IF (Step > 0 /\ iV < Upper) \/ (Step < 0 /\ Lower < iV)
           THEN out' = Append(out, iV) /\ iV' = iV + Step /\ pc' = pc
           ELSE pc' = "end" /\ UNCHANGED <<out, iV>>
        /\ Keep
Style1 == IF (lenV + iV) % 3 = 0 THEN Plain ELSE IF lenV % 2 = 0 THEN Spaced ELSE Loose
Report == /\ pc = (IF Suite = "slice" THEN "end" ELSE "start")
          /\ pc' = "done"
          /\ PrintT("VEC " \o ToJson(QVector(TheQuery, Text(TheQuery, Style1), TheDoc,
                     IF Suite = "slice" THEN [x \in 1..Len(out) |-> <<IdxEl(out[x])>>] ELSE EvalPaths(TheQuery, TheDoc))))
          /\ UNCHANGED <<iV, out>> /\ Keep
Next == Begin \/ Take \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the loop ends, and gives what is defined
Ends == <>(pc = "done")
Defined == SliceIdx(lenV, OptInt(stV), OptInt(enV), OptInt(spV))
AsDefined == pc = "end" => out = Defined
Partial == Suite = "slice" => out = SubSeq(Defined, 1, Len(out))
InRange == \A x \in 1..Len(out) : out[x] \in 0..(lenV - 1)
Monotone == \A x \in 1..(Len(out) - 1) : out[x + 1] - out[x] = Step
\* an index outside of the array selects nothing, one inside selects one node
SelectedBy(n) == (IF n >= 0 THEN n < lenV ELSE -n <= lenV)
IndexLaw == Suite = "index" => Len(EvalPaths(AbsQ(<<IdxOf(stV[1])>>), Arr(Elems))) = (IF SelectedBy(stV[1]) THEN 1 ELSE 0)
\* [iV] is [iV:iV+1], but that [-1] is [-1:]
IndexSlice == Suite = "index" /\ stV[1] \notin {Big, -1} =>
   EvalPaths(AbsQ(<<IdxOf(stV[1])>>), Arr(Elems)) =
   EvalPaths(AbsQ(<<Child(<<Slice(<<IntOf(stV[1])>>, <<(IF stV[1] = -Big THEN BigNegI ELSE I(stV[1] + 1))>>, <<>>)>>)>>), Arr(Elems))
\* a step of 1 gives a contiguous part; with no bounds, -1 gives all in reverse
AllReversed == pc = "end" /\ stV = <<>> /\ enV = <<>> /\ spV # <<>> /\ spV[1] = -1 => out = [x \in 1..lenV |-> lenV - x]
Complement == pc = "end" /\ Step = 1 /\ stV = <<>> /\ enV # <<>> =>
   out \o SliceIdx(lenV, OptInt(enV), <<>>, <<>>) = [x \in 1..lenV |-> x - 1]
=============================================================================

-------------------------------- MODULE MC_Fn --------------------------------
(***************************************************************************)
(* length, count and value: small machines that walk through an argument,  *)
(* and calls of the functions in comparisons, on every subject.            *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES fV,       \* the function
          argV,     \* its argument
          opV, rhs, \* what its result is compared with
          curV,     \* the child of the document considered
          left,    \* what is left of the argument: nodes, or parts of a value
          accV      \* the result so far
vars == <<fV, argV, opV, rhs, curV, left, accV>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
A == T("a")
B == T("b")
R(segs) == Qry(RelQ(segs))
KA == Child(<<Name(A)>>)
KW == Child(<<Wild>>)
D(s) == Desc(<<s>>)

(* ---- subjects ---- *)
Values == <<Str(<<>>), Str(A), Str(<<233>>), Str(<<128512>>), Str(<<101, 769>>), Str(<<97, 233, 128512, 97>>), Str(<<10, 92, 39>>),
            Arr(<<>>), Arr(<<Num(1)>>), Arr(<<Arr(<<>>), Arr(<<Num(1), Num(2)>>)>>), Arr(<<Null, Null, Null>>),
            Obj(<<>>), Obj(<<<<A, Num(1)>>>>), Obj(<<<<A, Arr(<<Num(1), Num(2)>>)>>, <<B, Null>>>>), Obj(<<<<A, Obj(<<<<A, Num(1)>>>>)>>>>),
            Num(0), Num(2), Dec(FALSE, <<1, 5>>, -1), Bool(TRUE), Bool(FALSE), Null>>
Doc == Arr(Values)

(* ---- arguments ---- *)
VArgs == <<R(<<>>), R(<<KA>>), R(<<Child(<<Idx(0)>>)>>), R(<<Child(<<Idx(-1)>>)>>), R(<<KA, KA>>), R(<<Child(<<Idx(1)>>), Child(<<Idx(0)>>)>>),
           Lit(Str(<<>>)), Lit(Str(<<97, 128512>>)), Lit(Num(7)), Lit(Null), Qry(AbsQ(<<>>)), Qry(AbsQ(<<Child(<<Idx(3)>>)>>)),
           CallArg(T("value"), <<R(<<KW>>)>>), CallArg(T("value"), <<R(<<>>)>>), CallArg(T("length"), <<R(<<>>)>>), CallArg(T("count"), <<R(<<KW>>)>>),
           CallArg(T("x"), <<R(<<>>)>>), CallArg(T("nothing"), <<>>)>>
NArgs == <<R(<<>>), R(<<KA>>), R(<<KW>>), R(<<D(Wild)>>), R(<<D(Name(A))>>), R(<<Child(<<Idx(0), Idx(0)>>)>>), R(<<Child(<<Idx(0), Idx(-1)>>)>>),
           R(<<Child(<<Wild, Wild>>)>>), R(<<KW, KW>>), R(<<Child(<<Slice(<<>>, <<>>, <<I(-1)>>)>>)>>), R(<<Child(<<Filt(Exists(RelQ(<<KA>>)))>>)>>),
           R(<<Child(<<Filt(Cmp(Qry(RelQ(<<>>)), "==", Lit(Num(1))))>>)>>), Qry(AbsQ(<<KW>>)), Qry(AbsQ(<<Child(<<Idx(16)>>)>>)), Qry(AbsQ(<<>>)),
           CallArg(T("nid"), <<R(<<KW>>)>>), CallArg(T("twice"), <<R(<<KA>>)>>), CallArg(T("join"), <<R(<<KA>>), R(<<Child(<<Idx(0)>>)>>)>>),
           CallArg(T("nempty"), <<>>), CallArg(T("rev"), <<R(<<KW>>)>>)>>
Args == IF fV = T("length") THEN VArgs ELSE NArgs
Rights == <<Lit(Num(0)), Lit(Num(1)), Lit(Num(2)), Lit(Num(3)), R(<<>>), R(<<KA>>), CallArg(T("nothing"), <<>>), Lit(Null), Lit(Bool(FALSE)), Lit(Str(<<>>)),
            CallArg(T("length"), <<R(<<>>)>>), CallArg(T("count"), <<R(<<KW>>)>>), CallArg(T("value"), <<R(<<KW>>)>>)>>
Ops == IF Thorough THEN {"==", "!=", "<", "<=", ">", ">="} ELSE {"==", ">=", "<"}

Call0 == CallArg(fV, <<argV>>)
Query == LET c == IF Len(rhs) = 2 THEN Cmp(rhs[1], opV, Call0) ELSE Cmp(Call0, opV, rhs[1])
         IN AbsQ(<<Child(<<Filt(c)>>)>>)
None == <<>>
Init == /\ fV \in {T("length"), T("count"), T("value")}
        /\ argV = None /\ opV = "" /\ rhs = None /\ curV = 0 /\ left = <<>> /\ accV = <<>>
\* a comparison: all of the document's children are subjects
Pick == /\ argV = None
        /\ \E k \in 1..Len(Args) : argV' = Args[k]
        /\ UNCHANGED <<fV, opV, rhs, curV, left, accV>>
Choose == /\ argV # None /\ opV = ""
          /\ opV' \in Ops
          /\ \E k \in 1..Len(Rights) : rhs' \in {<<Rights[k]>>, <<Rights[k], 0>>}
          /\ UNCHANGED <<fV, argV, curV, left, accV>>
          /\ \E q \in {Query'} : PrintT("VEC " \o ToJson(QVector(q, Text(q, IF Len(rhs') = 2 THEN Spaced ELSE Plain), Doc, EvalPaths(q, Doc))))
\* an evaluation, on one child
Here == ChildAt(Root(Doc), curV)
Parts(v) == CASE v.t = "s" -> v.s [] v.t = "a" -> v.a [] v.t = "o" -> v.o [] OTHER -> <<>>
Enter == /\ argV # None /\ opV = ""
         /\ opV' = "run" /\ curV' \in 1..Len(Values)
         /\ UNCHANGED <<fV, argV, rhs>>
         /\ IF fV = T("length")
            THEN \E v \in {Arg(argV, "V", Here', Root(Doc))} :
                   /\ left' = IF v = <<>> THEN <<>> ELSE Parts(v[1])
                   /\ accV' = IF v = <<>> THEN <<>> ELSE IF v[1].t \in {"s", "a", "o"} THEN <<Num(0)>> ELSE <<>>
            ELSE /\ left' = Arg(argV, "N", Here', Root(Doc))
                 /\ accV' = IF fV = T("count") THEN <<Num(0)>> ELSE <<>>
OneMore(n) == CHOOSE m \in {Num(k) : k \in 1..60} : \E k \in 0..59 : n = Num(k) /\ m = Num(k + 1)
Step == /\ opV = "run" /\ left # <<>>
        /\ left' = Tail(left)
        /\ accV' = IF fV # T("value") THEN (IF accV = <<>> THEN <<>> ELSE <<OneMore(accV[1])>>)
                  ELSE IF accV = <<>> THEN <<Head(left).v>> ELSE <<Head(left).v, Head(left).v>>   \* two: there is more than one
        /\ UNCHANGED <<fV, argV, opV, rhs, curV>>
Next == Pick \/ Choose \/ Enter \/ Step
Spec == Init /\ [][Next]_vars

Finished == opV = "run" /\ left = <<>>
Result == IF Len(accV) > 1 THEN <<>> ELSE accV
Computes == Finished => Call(Call0.c, Here, Root(Doc)) = Result
\* value of a nodelist and count of it
ValueCount == Finished /\ fV # T("length") =>
  LET v == ValueOf(Arg(argV, "N", Here, Root(Doc)))
      n == CountOf(Arg(argV, "N", Here, Root(Doc)))
  IN (v # <<>>) = (n = <<Num(1)>>)
Typed == rhs # None => WTQuery(Query)
=============================================================================

------------------------------- MODULE MC_Eval -------------------------------
(***************************************************************************)
(* Exhaustive small instances of JPMachine: every query that a suite's     *)
(* pools give, on every document of the suite.                             *)
(***************************************************************************)
EXTENDS JPMachine

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"

A == T("a")
B == T("b")
C == T("c")
E == <<>>
NA == Name(A)
NB == Name(B)
SomeI(n) == <<I(n)>>

(* ---- documents (members in order of their names) ---- *)
Flat == Arr(<<Num(0), Str(A), Null, Arr(<<>>), Obj(<<>>)>>)
Tree == Obj(<<<<E, Arr(<<Bool(TRUE)>>)>>,
              <<A, Obj(<<<<A, Num(1)>>, <<B, Arr(<<Num(1), Obj(<<<<A, Null>>>>)>>)>>>>)>>,
              <<B, Arr(<<Obj(<<<<A, Num(2)>>, <<B, Num(3)>>>>), Arr(<<Num(4), Num(5), Num(6)>>), Num(0)>>)>>>>)
Grid == Arr(<<Arr(<<Num(1), Num(2)>>), Arr(<<Num(3), Arr(<<Num(4), Str(B)>>), Num(5)>>), Obj(<<<<A, Arr(<<Num(6)>>)>>>>)>>)
Same == Obj(<<<<A, Obj(<<<<A, Obj(<<<<A, Arr(<<Num(1), Num(1)>>)>>, <<B, Num(1)>>>>)>>, <<B, Num(1)>>>>)>>, <<B, Num(1)>>>>)
OddDoc == Obj(<<<<E, Obj(<<<<E, Num(1)>>>>)>>, <<T("0"), Num(7)>>, <<T("A"), Num(8)>>, <<A, Arr(<<Str(E), Bool(FALSE)>>)>>>>)
Deep == Arr(<<Obj(<<<<A, Arr(<<Obj(<<<<A, Arr(<<Num(1)>>)>>>>), Num(2)>>)>>, <<B, Num(3)>>>>), Arr(<<Arr(<<Arr(<<Num(4)>>)>>)>>)>>)

ChildDocs == <<Tree, Grid, Same, OddDoc, Flat, Num(1)>>
DescDocs == <<Tree, Grid, Same, Deep, Str(A)>>

Pairs(S) == FlattenSeq([x \in 1..Len(S) |-> [y \in 1..Len(S) |-> <<S[x], S[y]>>]])
Ones(S) == [x \in 1..Len(S) |-> <<S[x]>>]

(* ---- suite "child" ---- *)
ChildSels == <<NA, NB, Name(E), Wild, Idx(0), Idx(1), Idx(-1), Idx(2), Idx(-3)>>
ChildSegs == [x \in 1..(Len(ChildSels) * (Len(ChildSels) + 1)) |-> Child((Ones(ChildSels) \o Pairs(ChildSels))[x])]
ChildOne == [x \in 1..Len(ChildSels) |-> Child(<<ChildSels[x]>>)]

(* ---- suite "desc" ---- *)
DescSels == <<<<NA>>, <<NB>>, <<Wild>>, <<Idx(0)>>, <<Idx(-1)>>, <<NA, Idx(0)>>, <<Wild, Wild>>, <<Slice(<<>>, <<>>, SomeI(-1))>>,
              <<Filt(Exists(RelQ(<<Child(<<NA>>)>>)))>>, <<Filt(Exists(RelQ(<<Desc(<<Idx(0)>>)>>)))>>>>
DescSegs == [x \in 1..Len(DescSels) |-> Desc(DescSels[x])]
PlainSegs == [x \in 1..6 |-> Child(DescSels[x])]

(* ---- suite "bool": three variables by presence, with values that are false or empty ---- *)
VarA == Exists(RelQ(<<Child(<<NA>>)>>))
VarB == Exists(RelQ(<<Child(<<NB>>)>>))
VarC == Exists(RelQ(<<Child(<<Name(C)>>)>>))
Assign(a, b, c) == Obj((IF a THEN <<<<A, Null>>>> ELSE <<>>) \o (IF b THEN <<<<B, Bool(FALSE)>>>> ELSE <<>>) \o (IF c THEN <<<<C, Num(0)>>>> ELSE <<>>))
BoolDoc == Arr(<<Assign(FALSE, FALSE, FALSE), Assign(FALSE, FALSE, TRUE), Assign(FALSE, TRUE, FALSE), Assign(FALSE, TRUE, TRUE),
                 Assign(TRUE, FALSE, FALSE), Assign(TRUE, FALSE, TRUE), Assign(TRUE, TRUE, FALSE), Assign(TRUE, TRUE, TRUE)>>)
N(b, f) == IF b THEN Not(f) ELSE f
Bin(o, x, y) == IF o THEN And(<<x, y>>) ELSE Or(<<x, y>>)
Tri(o, x, y, z) == IF o THEN And(<<x, y, z>>) ELSE Or(<<x, y, z>>)
BoolExpr(sh, o, n) ==   \* shape, operators, negations
  CASE sh = 1 -> Bin(o[1], N(n[4], Bin(o[2], N(n[1], VarA), N(n[2], VarB))), N(n[3], VarC))
    [] sh = 2 -> N(n[5], Bin(o[1], N(n[1], VarA), N(n[4], Bin(o[2], N(n[2], VarB), N(n[3], VarC)))))
    [] sh = 3 -> N(n[4], Tri(o[1], N(n[1], VarA), N(n[2], VarB), N(n[3], VarC)))
    [] sh = 4 -> Bin(o[1], N(n[4], Bin(o[2], N(n[1], VarA), VarB)), N(n[5], Bin(~o[2], N(n[2], VarC), N(n[3], VarA))))
    [] sh = 5 -> Tri(o[1], N(n[1], VarA), N(n[4], Bin(o[2], VarB, N(n[2], VarC))), N(n[3], VarB))
    [] sh = 6 -> Tri(o[1], N(n[4], Bin(o[2], VarA, N(n[2], VarC))), N(n[1], VarB), N(n[3], Bin(o[2], VarC, VarA)))

(* ---- suite "nest": what @ and $ stand for ---- *)
NestDoc1 == Obj(<<<<A, Num(1)>>, <<B, Arr(<<Obj(<<<<A, Num(1)>>, <<B, Arr(<<Num(1), Num(2)>>)>>>>),
                                            Obj(<<<<A, Num(2)>>, <<B, Arr(<<Num(2), Obj(<<<<A, Num(2)>>>>)>>)>>>>),
                                            Obj(<<<<B, Arr(<<>>)>>>>), Num(1), Null>>)>>>>)
NestDoc2 == Arr(<<Obj(<<<<A, Bool(FALSE)>>, <<B, Obj(<<<<A, Bool(FALSE)>>, <<B, Null>>>>)>>>>),
                  Obj(<<<<A, Arr(<<>>)>>, <<B, Obj(<<<<A, Obj(<<>>)>>>>)>>>>), Arr(<<Bool(FALSE), Num(0), Str(E)>>)>>)
NestDocs == <<NestDoc1, NestDoc2>>
R(segs) == RelQ(segs)
KA == Child(<<NA>>)
KB == Child(<<NB>>)
KW == Child(<<Wild>>)
Nest0 == <<Exists(R(<<KA>>)), Exists(AbsQ(<<KA>>)), Exists(R(<<>>)), Not(Exists(R(<<KB>>))),
           Cmp(Qry(R(<<KA>>)), "==", Qry(AbsQ(<<KA>>))), Cmp(Qry(R(<<>>)), "==", Qry(AbsQ(<<KA>>))),
           Cmp(Qry(R(<<>>)), "==", Lit(Num(2))), Cmp(Qry(R(<<KA>>)), "!=", Lit(Num(1))),
           Cmp(CallArg(T("count"), <<Qry(R(<<KW>>))>>), ">", Lit(Num(1))), Cmp(CallArg(T("length"), <<Qry(AbsQ(<<>>))>>), "==", Lit(Num(2))),
           Cmp(Qry(AbsQ(<<KB, Child(<<Idx(-1)>>)>>)), "==", Qry(R(<<Child(<<Idx(-1)>>)>>)))>>
Wrap(k, f) ==
  CASE k = 1 -> Exists(R(<<Child(<<Filt(f)>>)>>))
    [] k = 2 -> Exists(R(<<KB, Child(<<Filt(f)>>)>>))
    [] k = 3 -> Exists(AbsQ(<<Desc(<<Filt(f)>>)>>))
    [] k = 4 -> Cmp(CallArg(T("count"), <<Qry(R(<<Desc(<<Filt(f)>>)>>))>>), "==", Lit(Num(1)))
    [] k = 5 -> And(<<Exists(R(<<Child(<<Filt(f), Idx(0)>>)>>)), f>>)
    [] k = 6 -> Not(Exists(R(<<KW, Child(<<Filt(Not(f))>>)>>)))
    [] k = 7 -> Cmp(CallArg(T("value"), <<Qry(R(<<Child(<<Filt(f)>>)>>))>>), "==", Qry(AbsQ(<<KA>>)))
    [] k = 8 -> f
NestQ(k, f) == CASE k = 1 -> AbsQ(<<Child(<<Filt(f)>>)>>)
                 [] k = 2 -> AbsQ(<<KB, Child(<<Filt(f)>>)>>)
                 [] k = 3 -> AbsQ(<<Desc(<<Filt(f), Name(A)>>)>>)

Pick ==
  CASE Suite = "child" ->
         /\ \E d \in 1..Len(ChildDocs) : docV = ChildDocs[d]
         /\ \/ \E x \in 1..Len(ChildSegs) : qV = AbsQ(<<ChildSegs[x]>>)
            \/ \E x \in 1..Len(ChildSegs), y \in 1..Len(ChildOne) : qV = AbsQ(<<ChildSegs[x], ChildOne[y]>>)
            \/ \E x \in 1..Len(ChildOne), y \in 1..Len(ChildSegs) : qV = AbsQ(<<ChildOne[x], ChildSegs[y]>>)
            \/ Thorough /\ \E x \in 1..Len(ChildSegs), y \in 1..Len(ChildSegs) : qV = AbsQ(<<ChildSegs[x], ChildSegs[y]>>)
            \/ Thorough /\ \E x, y, z \in 1..Len(ChildOne) : qV = AbsQ(<<ChildOne[x], ChildOne[y], ChildOne[z]>>)
    [] Suite = "desc" ->
         /\ \E d \in 1..Len(DescDocs) : docV = DescDocs[d]
         /\ \/ \E x \in 1..Len(DescSegs) : qV = AbsQ(<<DescSegs[x]>>)
            \/ \E x \in 1..Len(DescSegs), y \in 1..Len(DescSegs) : qV = AbsQ(<<DescSegs[x], DescSegs[y]>>)
            \/ \E x \in 1..Len(PlainSegs), y \in 1..Len(DescSegs) : qV = AbsQ(<<PlainSegs[x], DescSegs[y]>>)
            \/ \E x \in 1..Len(DescSegs), y \in 1..Len(PlainSegs) : qV = AbsQ(<<DescSegs[x], PlainSegs[y]>>)
            \/ Thorough /\ \E x, y, z \in 1..5 : qV = AbsQ(<<DescSegs[x], DescSegs[y], DescSegs[z]>>)
            \/ Thorough /\ \E x, z \in 1..Len(DescSegs), y \in 1..Len(PlainSegs) : qV = AbsQ(<<DescSegs[x], PlainSegs[y], DescSegs[z]>>)
    [] Suite = "bool" ->
         /\ docV \in {BoolDoc, Arr(Append(BoolDoc.a, Null))}
         /\ \E sh \in 1..6, o \in [1..2 -> BOOLEAN], n \in [1..5 -> BOOLEAN] :
              qV = AbsQ(<<Child(<<Filt(BoolExpr(sh, o, n))>>)>>)
    [] Suite = "nest" ->
         /\ \E d \in 1..Len(NestDocs) : docV = NestDocs[d]
         /\ \E k \in 1..3, w \in 1..8, x \in 1..Len(Nest0) :
              \/ qV = NestQ(k, Wrap(w, Nest0[x]))
              \/ \E v \in 1..7 :
                   w < 8 /\ qV = NestQ(k, Wrap(w, Wrap(v, Nest0[x])))

Init == Pick /\ MInit
\* the style of the text goes with the query, so that all are used
StyleNo == (Len(qV.segs) + Len(qV.segs[1].sels) + Kids(docV) + Len(out)) % 3
TextOf == Text(qV, CASE Suite = "bool" -> (IF Len(docV.a) = 9 THEN Layered ELSE IF Len(out) % 2 = 0 THEN Plain ELSE Spaced)
                    [] StyleNo = 0 -> Plain [] StyleNo = 1 -> Bracketed [] OTHER -> Loose)
Next == MStep \/ Report(TextOf)
Spec == Init /\ [][Next]_mvars

\* cheaper forms for suites with nested filters: only the ends are compared
DenotesEnd == todo = <<>> => out = EvalPaths(qV, docV)
\* and the vectors are printed outside of actions, where TLC evaluates a definition once
SpecNest == Init /\ [][MStep]_mvars
Reported == todo = <<>> => PrintT("VEC " \o ToJson(QVector(qV, TextOf, docV, out)))

\* the text that stands for the query is read as the query
Reads == todo = <<>> => \A t \in {TextOf} : LET r == ParseStrict(t) IN IF r.ok THEN r.v = qV ELSE FALSE
=============================================================================

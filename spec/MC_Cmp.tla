------------------------------- MODULE MC_Cmp -------------------------------
(***************************************************************************)
(* Comparisons (RFC 9535, 2.3.5.2.2): every operator on every pair of a    *)
(* pool of values and Nothing, with operands in every form.  Suite "laws"  *)
(* has the order's laws, for all triples of the pool.                      *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES cV, fin
vars == <<cV, fin>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
A == T("a")
B == T("b")
Flt(d) == [d EXCEPT !.f = TRUE]
V1 == Num(1)

F15 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5>>
Scalars == <<Null, Bool(TRUE), Bool(FALSE),
  Num(0), Flt(Num(0)), V1, Flt(V1), Num(-1), Num(2), Num(10), Dec(FALSE, <<1>>, -1), Dec(FALSE, <<1, 5>>, -1), Dec(TRUE, <<1, 5>>, -1),
  Dec(FALSE, MaxInt, 0), Dec(FALSE, F15, 0), Flt(Dec(FALSE, F15, 0)), Dec(TRUE, MaxInt, 0), Dec(FALSE, <<1>>, 20), Dec(FALSE, <<1>>, 300), Dec(FALSE, <<1>>, -7),
  Dec(FALSE, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>, 0), Flt(Dec(FALSE, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>, 0)),
  Num(16777217), Num(16777216), Dec(FALSE, [MaxInt EXCEPT ![16] = 0], 0), Num(-2147483647),
  Str(<<>>), Str(A), Str(T("A")), Str(T("ab")), Str(T("b")), Str(<<233>>), Str(<<101, 769>>), Str(<<65535>>), Str(<<65536>>), Str(<<55295>>),
  Str(T("1")), Str(T("true")), Str(T("null")), Str(<<0>>)>>
Boxes == <<Arr(<<>>), Arr(<<V1>>), Arr(<<Flt(V1)>>), Arr(<<V1, V1>>), Arr(<<Null>>), Arr(<<Arr(<<>>)>>), Arr(<<Num(2)>>), Arr(<<Str(A)>>),
  Obj(<<>>), Obj(<<<<A, V1>>>>), Obj(<<<<A, Flt(V1)>>>>), Obj(<<<<B, V1>>>>), Obj(<<<<A, V1>>, <<B, Num(2)>>>>), Obj(<<<<A, Num(2)>>, <<B, V1>>>>),
  Obj(<<<<A, Null>>>>), Obj(<<<<A, Obj(<<>>)>>>>), Obj(<<<<<<>>, V1>>>>)>>
Pool == Scalars \o Boxes
NPool == Len(Pool)
Nothing == 58
ASSUME Nothing = NPool + 1
ValueAt(k) == IF k = Nothing THEN <<>> ELSE <<Pool[k]>>
Ops == <<"==", "!=", "<", "<=", ">", ">=">>

L == T("l")
R == T("r")
Pair(x, y) == Obj((IF x = <<>> THEN <<>> ELSE <<<<L, x[1]>>>>) \o (IF y = <<>> THEN <<>> ELSE <<<<R, y[1]>>>>))
AtL == Qry(RelQ(<<Child(<<Name(L)>>)>>))
AtR == Qry(RelQ(<<Child(<<Name(R)>>)>>))
Fn(a) == CallArg(T("x"), <<a>>)            \* the identity
Op(l, o, r) == AbsQ(<<Child(<<Filt(Cmp(l, o, r))>>)>>)
RowsOf(x) == LET P == TLCEval(Pool)
                 y == TLCEval(x)
             IN Arr([k \in 1..Nothing |-> Pair(y, IF k = Nothing THEN <<>> ELSE <<P[k]>>)])
Values == Arr(Pool)
\* case: [form, k: of the left (or only) value, o: of the operator]
Query(x) ==
  LET o == Ops[x.o] IN
  CASE x.form = "pairs" -> Op(AtL, o, AtR)
    [] x.form = "not" -> AbsQ(<<Child(<<Filt(Not(Cmp(AtL, o, AtR)))>>)>>)
    [] x.form = "swap" -> Op(AtR, o, AtL)
    [] x.form = "fn" -> Op(Fn(AtL), o, Fn(AtR))
    [] x.form = "fnl" -> Op(Fn(AtL), o, AtR)
    [] x.form = "value" -> Op(CallArg(T("value"), <<Qry(RelQ(<<Desc(<<Name(L)>>)>>))>>), o, AtR)
    [] x.form = "root" -> AbsQ(<<Child(<<Name(R)>>), Child(<<Filt(Cmp(Qry(RelQ(<<>>)), o, Qry(AbsQ(<<Child(<<Name(L)>>)>>))))>>)>>)
    [] x.form = "litr" -> Op(Qry(RelQ(<<>>)), o, Lit(Pool[x.k]))
    [] x.form = "litl" -> Op(Lit(Pool[x.k]), o, Qry(RelQ(<<>>)))
    [] x.form = "lits" -> Op(Lit(Pool[x.k]), o, Lit(Pool[x.m]))
    [] x.form = "fnlit" -> Op(Fn(Lit(Pool[x.k])), o, Fn(Qry(RelQ(<<>>))))
    [] x.form = "self" -> Op(Qry(RelQ(<<>>)), o, Qry(RelQ(<<>>)))
Document(x) ==
  CASE x.form \in {"pairs", "not", "swap", "fn", "fnl", "value"} -> RowsOf(ValueAt(x.k))
    [] x.form = "root" -> Obj((IF x.k = Nothing THEN <<>> ELSE <<<<L, Pool[x.k]>>>>) \o <<<<R, Values>>>>)
    [] x.form = "lits" -> Arr(<<V1>>)
    [] OTHER -> Values

Lits == 1..Len(Scalars)
PickLit(k) == IF Thorough THEN Lits ELSE {1 + ((7 * k + 3) % Len(Scalars)), 1 + ((11 * k + 5) % Len(Scalars)), k}
Cases ==
  [form : {"pairs", "root", "not"}, k : 1..Nothing, o : 1..6]
  \cup [form : IF Thorough THEN {"swap", "fn", "fnl", "value"} ELSE {"fn"}, k : 1..Nothing, o : 1..6]
  \cup [form : IF Thorough THEN {"litr", "litl", "fnlit"} ELSE {"litr", "litl"}, k : Lits, o : 1..6]
  \cup [form : {"self"}, k : {1}, o : 1..6]
  \cup UNION {[form : {"lits"}, k : {k}, m : PickLit(k), o : 1..6] : k \in Lits}
Init == /\ fin = FALSE
        /\ IF Suite = "laws" THEN cV \in {[x |-> k, y |-> 0] : k \in 1..Nothing} ELSE cV \in Cases
Run == /\ ~fin /\ Suite = "cmp" /\ fin' = TRUE /\ UNCHANGED cV
       /\ LET q == TLCEval(Query(cV))
              d == TLCEval(Document(cV))
              r == TLCEval(EvalPaths(q, d))
          IN PrintT("VEC " \o ToJson(QVector(q, Text(q, IF cV.o % 2 = 0 THEN Plain ELSE Spaced), d, r)))
Pair2 == /\ Suite = "laws" /\ cV.y = 0 /\ UNCHANGED fin
         /\ \E y \in 1..Nothing : cV' = [cV EXCEPT !.y = y]
Next == Run \/ Pair2
Spec == Init /\ [][Next]_vars

(* ---- laws, for the two values of a state and all third ones ---- *)
Is(o, x, y) == Compare(o, x, y)
\* numbers and strings are ordered among themselves, and nothing else is
Kind(x) == IF x = <<>> THEN "0" ELSE x[1].t
AllLaws(X, Y, P) ==
  LET eq == Is("==", X, Y)
      lt == Is("<", X, Y)
      gt == Is("<", Y, X)
  IN /\ Is("==", X, X)                                      \* an equivalence
     /\ eq = Is("==", Y, X)
     /\ Is("!=", X, Y) = ~eq
     /\ ~Is("<", X, X)                                      \* a strict order, that respects it
     /\ (lt => ~gt /\ ~eq)
     /\ Is("<=", X, Y) = (lt \/ eq)
     /\ Is(">", X, Y) = gt
     /\ Is(">=", X, Y) = Is("<=", Y, X)
     /\ (lt \/ gt \/ eq) = (eq \/ (Kind(X) = Kind(Y) /\ Kind(X) \in {"d", "s"}))
     /\ \A k \in 1..Nothing :
          LET Z == P[k] IN
          /\ (eq /\ Is("==", Y, Z)) => Is("==", X, Z)
          /\ (lt /\ Is("<", Y, Z)) => Is("<", X, Z)
          /\ eq => (Is("<", X, Z) = Is("<", Y, Z) /\ Is("<", Z, X) = Is("<", Z, Y))
     \* the known deviations leave alone what is not theirs
     /\ \A o \in {"==", "!=", "<"} : (Kind(X) \notin {"a", "o"} => CompareD(o, X, Y, Deviations) = Compare(o, X, Y))
Laws == (Suite = "laws" /\ cV.y # 0) =>
          LET P == TLCEval([k \in 1..Nothing |-> ValueAt(k)]) IN AllLaws(P[cV.x], P[cV.y], P)
=============================================================================

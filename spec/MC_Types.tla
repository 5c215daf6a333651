------------------------------ MODULE MC_Types ------------------------------
(***************************************************************************)
(* Well-typedness: a function call is written argument by argument, with   *)
(* every kind of argument, in every kind of place.  Beside the checker of  *)
(* JPFunc there is a judgement in the manner of RFC 9535 (2.4.1, 2.4.3):   *)
(* the set of types that an expression can be used as.                     *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES place, fnV, argsV
vars == <<place, fnV, argsV>>

Thorough == IOEnv.TIER = "thorough"
A == T("a")
B == T("b")
KA == Child(<<Name(A)>>)
KW == Child(<<Wild>>)
R(segs) == RelQ(segs)
Num1 == Lit(Num(1))

(* ---- arguments ---- *)
Inner == {x.n : x \in {Table[k] : k \in 1..Len(Table)}} \cup {T("unknown")}
\* an inner call: with arguments that fit, if there are any, and otherwise
FitArg(ty) == CASE ty = "V" -> Qry(R(<<KA>>)) [] ty = "N" -> Qry(R(<<KW>>)) [] ty = "L" -> Log(Cmp(Qry(R(<<KA>>)), "==", Num1))
Fit(f) == LET s == Lookup(f) IN IF s = <<>> THEN <<Num1>> ELSE [k \in 1..Len(s[1].ps) |-> FitArg(s[1].ps[k])]
Simple == {Lit(Str(A)), Lit(Null), Qry(R(<<KA>>)), Qry(R(<<KW>>)), Qry(R(<<Desc(<<Name(A)>>)>>)), Qry(AbsQ(<<>>)),
           Log(Cmp(Qry(R(<<KA>>)), "==", Num1)), Log(Exists(R(<<KA>>))), Log(Not(Exists(R(<<KW>>))))}
           \cup (IF Thorough THEN {Qry(R(<<Child(<<Idx(0)>>)>>)), Qry(R(<<Child(<<Idx(0), Idx(1)>>)>>)), Qry(R(<<Child(<<Slice(<<>>, <<I(1)>>, <<>>)>>)>>)),
              Lit(Bool(TRUE)), Lit(Num(0)), Log(And(<<Exists(R(<<KA>>)), Exists(R(<<KW>>))>>)), Log(Or(<<Exists(R(<<KA>>)), Not(Exists(R(<<>>)))>>)),
              Qry(R(<<Child(<<Filt(FTest(T("count"), <<Qry(R(<<KW>>))>>))>>)>>))} ELSE {})
Calls == {CallArg(f, Fit(f)) : f \in Inner}
Bad == {CallArg(f, <<>>) : f \in Inner} \cup {CallArg(T("count"), <<Num1>>), CallArg(T("length"), <<Qry(R(<<KW>>))>>),
        Log(FTest(T("length"), <<Qry(R(<<KA>>))>>)), Log(FTest(T("count"), <<Qry(R(<<KW>>))>>)), Log(Not(FTest(T("length"), <<Qry(R(<<KA>>))>>))),
        Log(Cmp(CallArg(T("match"), <<Num1, Num1>>), "==", Num1))}
Pool1 == Simple \cup Calls \cup Bad
Few == {Lit(Str(A)), Qry(R(<<KA>>)), Qry(R(<<KW>>)), Log(Cmp(Qry(R(<<KA>>)), "==", Num1))}
(* ---- places: where the call stands ---- *)
Places == {"test", "not", "and", "paren", "left", "right", "both", "argV", "argN", "argL", "inq", "nested", "second"}
In(c) ==
  LET a == [k |-> "call", c |-> c]
      t == [k |-> "ftest", c |-> c]
      f == CASE place = "test" -> t
             [] place = "not" -> Not(t)
             [] place = "and" -> And(<<Exists(R(<<KA>>)), t>>)
             [] place = "paren" -> Or(<<And(<<t, Exists(R(<<KA>>))>>), Not(Or(<<t, t>>))>>)
             [] place = "left" -> Cmp(a, "==", Num1)
             [] place = "right" -> Cmp(Qry(R(<<KA>>)), "<=", a)
             [] place = "both" -> Cmp(a, "!=", a)
             [] place = "argV" -> Cmp(CallArg(T("length"), <<a>>), ">=", Num1)
             [] place = "argN" -> Cmp(CallArg(T("count"), <<a>>), "==", Num1)
             [] place = "argL" -> FTest(IF Registry = "shadow" THEN T("match") ELSE T("lboth"), <<a, Log(Not(t))>>)
             [] place = "inq" -> Exists(R(<<Child(<<Filt(t)>>)>>))
             [] place = "nested" -> Cmp(CallArg(T("value"), <<Qry(R(<<Child(<<Filt(Not(t))>>)>>))>>), "==", Num1)
             [] place = "second" -> Exists(R(<<>>))
  IN IF place = "second" THEN AbsQ(<<KW, Child(<<Idx(0), Filt(f), Filt(t)>>)>>) ELSE AbsQ(<<Child(<<Filt(f)>>)>>)
Q == In(CallOf(fnV, argsV))

Doc == Arr(<<Obj(<<<<A, Str(A)>>>>), Obj(<<<<A, Num(1)>>, <<B, Arr(<<Num(1)>>)>>>>), Arr(<<Obj(<<<<A, Num(1)>>>>), Bool(TRUE)>>), Str(A), Obj(<<<<A, Null>>>>)>>)

\* a call that is not the first of its kind is written in a different style
StyleNo == (Len(argsV) + Len(fnV)) % 3
StyleOf == CASE StyleNo = 0 -> Plain [] StyleNo = 1 -> Spaced [] OTHER -> Loose
\* one call of a known function with too many or too few arguments, and no other call: its error is the query's
Miscounted == IF place' \notin {"test", "left", "not", "right"} \/ Lookup(fnV') = <<>> THEN FALSE
              ELSE Len(argsV') # Len(Lookup(fnV')[1].ps) /\ \A i \in 1..Len(argsV') : argsV'[i].k \in {"lit", "qry"}
Vector(q, text) == IF WTQuery(q) THEN QVector(q, text, Doc, EvalPaths(q, Doc))
                   ELSE IF Miscounted THEN [k |-> "p", s |-> text, ok |-> IF ParseLenient(text).ok THEN 2 ELSE 0, arity |-> <<Len(Lookup(fnV')[1].ps), Len(argsV')>>]
                   ELSE [k |-> "p", s |-> text, ok |-> IF ParseLenient(text).ok THEN 2 ELSE 0]

Init == place = "" /\ fnV = <<>> /\ argsV = <<>>
Open == /\ fnV = <<>>
        /\ place' \in Places /\ fnV' \in Inner /\ argsV' = <<>>
Arity == LET s == Lookup(fnV) IN IF s = <<>> THEN 1 ELSE Len(s[1].ps)
Fitting(k) == LET s == Lookup(fnV) IN IF s = <<>> THEN {} ELSE IF k > Len(s[1].ps) THEN {} ELSE {FitArg(s[1].ps[k])}
AllFit == \A k \in 1..Len(argsV) : argsV[k] \in Fitting(k)
Full == Thorough \/ place \in {"test", "left"}
\* one argument of any kind among ones that fit, or two of the plainer kinds
Candidates == LET k == Len(argsV) + 1
           IN Fitting(k) \cup (IF k > Arity THEN {Num1}
                               ELSE IF AllFit THEN (IF Full THEN Pool1 ELSE Few)
                               ELSE IF k = 2 /\ argsV[1] \in Simple THEN (IF Full THEN Simple ELSE {}) ELSE {})
Write == /\ fnV # <<>> /\ Len(argsV) < Arity + 1
         /\ \E a \in Candidates : argsV' = Append(argsV, a)
         /\ UNCHANGED <<place, fnV>>
Next == /\ Open \/ Write
        /\ \E q \in {Q'} : \E t \in {Text(q, StyleOf')} : PrintT("VEC " \o ToJson(Vector(q, t)))
Spec == Init /\ [][Next]_vars

(* ---- the judgement ---- *)
RECURSIVE Uses(_), FineExpr(_), FineQuery(_)
\* a name stands for what was registered last; registered functions come over built-in ones
Signature == [n \in {Table[k].n : k \in 1..Len(Table)} |->
                LET k == CHOOSE k \in 1..Len(Table) : Table[k].n = n /\ \A j \in 1..Len(Table) : Table[j].n = n => k <= j IN Table[k]]
CallType(c) == IF c.fn \notin DOMAIN Signature THEN {}
               ELSE LET s == Signature[c.fn]
                    IN IF /\ Len(s.ps) = Len(c.args)
                          /\ \A k \in 1..Len(s.ps) : s.ps[k] \in Uses(c.args[k])
                       THEN {s.r} ELSE {}
Uses(a) == CASE a.k = "lit" -> {"V"}
             [] a.k = "qry" -> IF ~FineQuery(a.q) THEN {}
                               ELSE {"N", "L"} \cup (IF IsSingular(a.q) THEN {"V"} ELSE {})
             [] a.k = "log" -> IF FineExpr(a.f) THEN {"L"} ELSE {}
             [] a.k = "call" -> IF "N" \in CallType(a.c) THEN {"N", "L"} ELSE CallType(a.c)
FineExpr(f) == CASE f.k \in {"or", "and"} -> \A k \in 1..Len(f.es) : FineExpr(f.es[k])
                 [] f.k = "not" -> FineExpr(f.f)
                 [] f.k = "test" -> FineQuery(f.q)
                 [] f.k = "ftest" -> CallType(f.c) \cap {"L", "N"} # {}
                 [] f.k = "cmp" -> "V" \in Uses(f.l) /\ "V" \in Uses(f.r)
FineQuery(q) == \A x \in 1..Len(q.segs) : \A y \in 1..Len(q.segs[x].sels) :
                  LET s == q.segs[x].sels[y] IN IF s.k = "filt" THEN FineExpr(s.f) ELSE TRUE

Judged == fnV # <<>> => \A q \in {Q} : WTQuery(q) <=> FineQuery(q)
Reads == fnV # <<>> => \A q \in {Q} : \A t \in {Text(q, StyleOf)} : LET r == ParseText(Strict(t)) IN IF r.ok THEN r.v = q ELSE FALSE
\* a well-typed call has one type; if it is not used as a value, it is not a value
OneType == fnV # <<>> => Cardinality(CallType(CallOf(fnV, argsV))) <= 1
=============================================================================

------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Abstract syntax that grows from the inside out: an expression is        *)
(* negated, joined with others, put into a filter, into a call, and so on. *)
(* Whatever it has become, its text in every style must be read as it; and *)
(* the library must read it, display it, and read that again as the same.  *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES xV,        \* [k |-> "e", f] an expression, or [k |-> "q", q] a query
          depth
vars == <<xV, depth>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
Up(a, b) == IF Thorough THEN b ELSE a
A == T("a")
B == T("b")
R(segs) == RelQ(segs)
KA == Child(<<Name(A)>>)
KB == Child(<<Name(B)>>)
KW == Child(<<Wild>>)
S(n) == <<I(n)>>
Z == <<>>

(* ---- suite "leaf": what stands in brackets and in comparisons ---- *)
Strings == <<Z, A, T("a b"), T("  "), T("\""), T("/"), T("]"), T("$.a"), T("1"), T("true"), T("*"), <<233>>, <<127>>, <<8232>>, <<65534>>, <<128512>>, <<1114111>>, <<55295>>, <<57344>>,
             T("''"), T("\\"), T("\\'"), T("\\u0041"), <<10>>, <<9, 8, 12, 13>>, <<0>>, <<31>>, T("a'b\"c"), T("?@"), T("a,b")>>
Numbers == <<Num(0), Num(1), Num(-1), Num(10), Num(123456789), Dec(FALSE, <<1>>, -1), Dec(TRUE, <<1, 5>>, -1), Dec(FALSE, <<1>>, 20), Dec(FALSE, <<1>>, 21), Dec(FALSE, <<1>>, 25),
             Dec(FALSE, <<1>>, -7), Dec(FALSE, <<1>>, -5), Dec(FALSE, <<1, 2, 3>>, 100), Dec(FALSE, <<2, 5>>, -20), DecF(FALSE, <<1>>, 0, TRUE), DecF(FALSE, <<1>>, 2, TRUE), DecF(FALSE, <<0>>, 0, TRUE), DecF(TRUE, <<1>>, 1, TRUE),
             Dec(FALSE, <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 1>>, 0), Dec(FALSE, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>, 0), Dec(TRUE, <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>, 0)>>
Bounds == {Z, S(0), S(1), S(-1), S(-2), <<BigI>>, <<BigNegI>>}
Literals == [k \in 1..(Len(Strings) + Len(Numbers) + 3) |->
               IF k <= Len(Strings) THEN Str(Strings[k]) ELSE IF k <= Len(Strings) + Len(Numbers) THEN Numbers[k - Len(Strings)]
               ELSE <<Null, Bool(TRUE), Bool(FALSE)>>[k - Len(Strings) - Len(Numbers)]]
Sels == {Name(Strings[k]) : k \in 1..Len(Strings)} \cup {Wild, Idx(0), Idx(1), Idx(-1), [k |-> "idx", i |-> BigI], [k |-> "idx", i |-> BigNegI]}
        \cup {Slice(a, b, c) : a \in Bounds, b \in Bounds, c \in (IF Thorough THEN Bounds ELSE {Z, S(-1), S(0)})}
Plus == {KA, KW, Desc(<<Name(A)>>), Desc(<<Wild>>), Desc(<<Idx(0)>>), Child(<<Idx(0), Name(A)>>)}

Leaves ==
  CASE Suite = "leaf" -> {[k |-> "q", q |-> AbsQ(<<Seg(d, <<s>>)>>)] : s \in Sels, d \in BOOLEAN}
                         \cup {[k |-> "q", q |-> AbsQ(<<Seg(d, <<s, t>>)>>)] : s \in Sels, t \in {Wild, Name(A), Idx(0)}, d \in BOOLEAN}
                         \cup {[k |-> "e", f |-> Cmp(Qry(R(<<Child(<<s>>)>>)), "==", Lit(Num(1)))] : s \in {t \in Sels : t.k \in {"name", "idx"}}}
                         \cup {[k |-> "e", f |-> Cmp(Lit(Literals[j]), o, Qry(R(Z)))] : j \in 1..Len(Literals), o \in {"==", "<="}}
                         \cup {[k |-> "e", f |-> Cmp(CallArg(T("length"), <<Lit(Literals[j])>>), ">", Lit(Literals[j]))] : j \in 1..Len(Literals)}
    [] Suite = "expr" -> {[k |-> "e", f |-> f] : f \in
           {Exists(R(<<KA>>)), Exists(AbsQ(<<Desc(<<Name(A)>>)>>)), Exists(R(Z)), Cmp(Qry(R(<<KA>>)), "==", Lit(Num(1))), Cmp(Lit(Str(A)), "<=", Qry(AbsQ(<<Child(<<Idx(-1)>>)>>))),
            FTest(T("hasn"), <<Qry(R(<<KW>>))>>), FTest(T("nid"), <<Qry(R(<<KW>>))>>), Cmp(CallArg(T("length"), <<Qry(R(<<KA>>))>>), "!=", CallArg(T("count"), <<Qry(R(<<KW>>))>>))}}
Init == xV \in Leaves /\ depth = 0

Others0 == {Exists(R(<<KB>>)), Cmp(Qry(R(<<KA>>)), ">=", Lit(Bool(FALSE))), FTest(T("lid"), <<Log(Exists(R(<<KA>>)))>>)}
           \cup (IF Thorough THEN {And(<<Exists(R(<<KA>>)), Exists(R(<<KB>>))>>), Or(<<Exists(R(<<KA>>)), Not(Exists(R(<<KB>>)))>>)} ELSE {})
\* an operand of the same kind, without parentheses, is no operand but part of the list
Flat(k, f, g, left) == LET fs == IF f.k = k THEN f.es ELSE <<f>>
                           gs == IF g.k = k THEN g.es ELSE <<g>>
                       IN [k |-> k, es |-> IF left THEN fs \o gs ELSE gs \o fs]
E(f) == [k |-> "e", f |-> f]
Q(q) == [k |-> "q", q |-> q]
Grow == \* to an expression
  {E(Not(xV.f)), E(FTest(T("lid"), <<Log(xV.f)>>)), E(FTest(T("lboth"), <<Log(Not(xV.f)), Log(xV.f)>>)), E(Cmp(CallArg(T("lval"), <<Log(xV.f)>>), "==", Lit(Bool(TRUE)))),
   E(Cmp(CallArg(T("trip"), <<Qry(R(<<KA>>)), Qry(R(<<Child(<<Filt(xV.f)>>)>>)), Log(xV.f)>>), "!=", Lit(Null))),
   E(Exists(R(<<Child(<<Filt(xV.f)>>)>>))), E(Exists(AbsQ(<<KA, Desc(<<Filt(xV.f), Wild>>)>>))), E(Cmp(CallArg(T("count"), <<Qry(R(<<Desc(<<Idx(0), Filt(xV.f)>>)>>))>>), "<", Lit(Num(2))))}
  \cup UNION {{E(Flat("and", xV.f, g, TRUE)), E(Flat("or", xV.f, g, FALSE)), E([k |-> "or", es |-> <<g, xV.f, g>>]), E([k |-> "and", es |-> <<xV.f, g>>]),
               E([k |-> "or", es |-> <<xV.f, g>>])} : g \in Others0}
ToQuery == {Q(AbsQ(<<Child(<<Filt(xV.f)>>)>>)), Q(AbsQ(<<KA, Desc(<<Name(B), Filt(xV.f)>>), KW>>)), Q(AbsQ(<<Child(<<Filt(xV.f), Filt(xV.f)>>)>>))}
More == {Q([xV.q EXCEPT !.segs = Append(@, s)]) : s \in Plus}

Doc == Arr(<<Obj(<<<<A, Num(1)>>, <<B, Arr(<<Num(1), Str(A)>>)>>>>), Obj(<<<<A, Arr(<<Bool(FALSE), Obj(<<<<B, Null>>>>)>>)>>>>), Str(A), Num(1), Arr(<<Arr(<<Num(1)>>)>>), Num(0), Str(T("''")), Num(10)>>)
Doc2 == Obj(<<<<Z, Num(1)>>, <<T("$.a"), Num(2)>>, <<T("''"), Num(3)>>, <<T("1"), Num(1)>>, <<T("\\"), Num(4)>>, <<T("\\'"), Num(5)>>, <<T("]"), Num(6)>>,
              <<A, Obj(<<<<A, Num(1)>>, <<B, Num(2)>>>>)>>, <<<<233>>, Arr(<<Num(1)>>)>>, <<<<128512>>, Null>>>>)
\* each query is written in one style for the library; which one depends on the query
StyleNo == (depth + Len(xV.q.segs) + Len(xV.q.segs[1].sels) + Len(ToString(xV)) ) % 4
StyleOf == CASE StyleNo = 0 -> Plain [] StyleNo = 1 -> Bracketed [] StyleNo = 2 -> Spaced [] OTHER -> Loose
Emit == \A q \in {xV'.q} : \A d \in (IF Suite = "leaf" THEN {Doc2} ELSE {Doc}) :
          PrintT("VEC " \o ToJson(QVector(q, Text(q, StyleOf'), d, EvalPaths(q, d))))
Deepest == IF Suite = "leaf" THEN 0 ELSE Up(2, 3)
Wrap == /\ xV.k = "e" /\ depth < Deepest
        /\ xV' \in Grow /\ depth' = depth + 1
Close == /\ xV.k = "e"
         /\ xV' \in (IF depth >= 2 THEN {Q(AbsQ(<<Child(<<Filt(xV.f)>>)>>))} ELSE ToQuery) /\ depth' = 9
         /\ Emit
Extend == /\ xV.k = "q" /\ depth = 0
          /\ xV' \in {xV} \cup More /\ depth' = 9
          /\ Emit
Next == Wrap \/ Close \/ Extend
Spec == Init /\ [][Next]_vars

TheQ == IF xV.k = "q" THEN xV.q ELSE AbsQ(<<Child(<<Filt(xV.f)>>)>>)
Reads == \A q \in {TheQ} : \A st \in Styles : \A t \in {Text(q, st)} : LET r == ParseStrict(t) IN IF r.ok THEN r.v = q ELSE FALSE
\* what the display grammar of the known findings accepts includes the text itself, in the styles without deviations
Displayed == \A q \in {TheQ} : \A st \in {Plain, Bracketed, Spaced} : \A t \in {Strict(Text(q, st))} : Len(t) \in DispEnds(q, t, 1)
=============================================================================

------------------------------- MODULE MC_Sig -------------------------------
(***************************************************************************)
(* Functions of every signature (table Sigs of JPFunc): a call is written  *)
(* with arguments that fit, all but one of them always of the same kind    *)
(* for their place; the other is of every kind that fits, or of a kind     *)
(* that does not.  Or there is an argument too much, or too few, or the    *)
(* nameV is a little off.  The elements of the document carry what the call *)
(* gives for them, but the last one, that carries what it gives for        *)
(* another.                                                                *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES fnV, pos, altV, nameV
vars == <<fnV, pos, altV, nameV>>

A == T("a")
C == T("c")
D == T("d")
E == T("e")
L == T("l")
RR == T("r")
Z == <<>>
R(segs) == RelQ(segs)
KC == Child(<<Name(C)>>)
DAt(k) == AbsQ(<<Child(<<Name(D)>>), Child(<<Idx(k)>>)>>)
DTo(k) == AbsQ(<<Child(<<Name(D)>>), Child(<<Slice(Z, <<I(k)>>, Z)>>)>>)
EAll == AbsQ(<<Child(<<Name(E)>>), Child(<<Wild>>)>>)
Fn(ps, r) == Echo(ps, r).n
IsC(k) == Log(Cmp(Qry(R(<<KC>>)), "==", Lit(Num(k))))

FV == Fn(<<"V">>, "V")
FNL == Fn(<<"N", "L">>, "V")
FN == Fn(<<"N">>, "N")
FNN == Fn(<<"N", "N">>, "N")
F0N == Fn(<<>>, "N")
FL == Fn(<<"L">>, "L")
F0L == Fn(<<>>, "L")
FNV == Fn(<<"N">>, "V")
QC == Qry(R(<<KC>>))
QA == Qry(R(<<Child(<<Name(A)>>)>>))
QE == Qry(EAll)
IsC1 == IsC(1)
\* arguments that fit, for place k; the first one is the usual one
Fit(ty, k, i) ==
  CASE ty = "V" -> (CASE i = 1 -> IF k % 2 = 0 THEN QC ELSE Lit(Num(k))
                      [] i = 2 -> Qry(DAt(k)) [] i = 3 -> Lit(Str(<<120>> \o Decimal(k))) [] i = 4 -> Lit(Null) [] i = 5 -> Lit(Bool(k % 2 = 1))
                      [] i = 6 -> Qry(R(<<KC, KC>>)) [] i = 7 -> Qry(AbsQ(<<Child(<<Name(E)>>)>>)) [] i = 8 -> CallArg(FV, <<Lit(Num(k))>>)
                      [] i = 9 -> CallArg(FNL, <<Qry(DTo(k)), IsC(k)>>) [] i = 10 -> CallArg(T("count"), <<Qry(DTo(k))>>))
    [] ty = "N" -> (CASE i = 1 -> Qry(DTo(k))
                      [] i = 2 -> QC [] i = 3 -> QE [] i = 4 -> Qry(R(<<KC, Child(<<Wild>>)>>)) [] i = 5 -> QA [] i = 6 -> Qry(DAt(k))
                      [] i = 7 -> CallArg(FN, <<Qry(DTo(k))>>) [] i = 8 -> CallArg(FNN, <<QC, Qry(DTo(k))>>) [] i = 9 -> CallArg(F0N, <<>>))
    [] ty = "L" -> (CASE i = 1 -> IsC(k)
                      [] i = 2 -> QC [] i = 3 -> QA [] i = 4 -> Qry(DTo(k)) [] i = 5 -> Log(Not(Exists(R(<<KC>>)))) [] i = 6 -> Log(Or(<<IsC(k).f, IsC(k + 1).f>>))
                      [] i = 7 -> CallArg(FL, <<IsC(k)>>) [] i = 8 -> CallArg(FN, <<QC>>) [] i = 9 -> CallArg(F0L, <<>>))
Fits(ty) == IF ty = "V" THEN 10 ELSE 9
Wrong == [
  V |-> <<QE, IsC1, Log(Exists(R(<<KC>>))), CallArg(FN, <<QE>>), CallArg(FL, <<IsC1>>), CallArg(FV, <<QE>>), Qry(R(<<Desc(<<Name(C)>>)>>))>>,
  N |-> <<Lit(Num(1)), Lit(Null), IsC1, CallArg(FV, <<Lit(Num(1))>>), CallArg(FL, <<IsC1>>), CallArg(T("unknown"), <<>>), Log(Exists(R(<<KC>>)))>>,
  L |-> <<Lit(Num(1)), Lit(Bool(TRUE)), CallArg(FV, <<Lit(Num(1))>>), CallArg(T("count"), <<QE>>), CallArg(FL, <<Lit(Str(A))>>)>>]

\* what is written
Base(s) == Tup([k \in 1..Len(s.ps) |-> Fit(s.ps[k], k, 1)])
\* pos: 0, or the place of the argument that is not the usual one; altV: which one it is, negative for one that does not fit
ArgsOf(s) == IF pos = 0 \/ altV = 0 THEN Base(s)
             ELSE IF pos > Len(s.ps) THEN Append(Base(s), Lit(Num(1)))
             ELSE IF altV = -99 THEN SubSeq(Base(s), 1, pos - 1) \o SubSeq(Base(s), pos + 1, Len(s.ps))
             ELSE [Base(s) EXCEPT ![pos] = IF altV > 0 THEN Fit(s.ps[pos], pos, altV) ELSE Wrong[s.ps[pos]][-altV]]
TheCall == [fn |-> nameV, args |-> ArgsOf(fnV)]
Filter == LET c == [k |-> "call", c |-> TheCall]
          IN CASE fnV.r = "V" -> Cmp(c, "==", Qry(R(<<Child(<<Name(RR)>>)>>)))
               [] fnV.r = "N" -> Cmp(CallArg(FNV, <<c>>), "==", Qry(R(<<Child(<<Name(RR)>>)>>)))
               [] fnV.r = "L" -> [k |-> "ftest", c |-> TheCall]
Query == AbsQ(<<Child(<<Name(L)>>), Child(<<Filt(Filter)>>)>>)

\* the document: elements with c = 0, 1, .. and r, what the call gives
Ds == Arr(Tup([i \in 1..17 |-> Num(100 + i)]))
Es == Obj(<<<<A, Str(C)>>, <<C, Null>>, <<D, Arr(<<Bool(FALSE)>>)>>>>)
Cs == <<Num(1), Num(2), Str(A), Null, Obj(<<<<C, Num(1)>>>>), Num(1)>>
Gives(c, call, ty) ==
  LET root == Obj(<<<<D, Ds>>, <<E, Es>>>>)
      at == [v |-> Obj(<<<<C, c>>>>), p |-> <<>>]
  IN CASE ty = "V" -> Call(call, at, Root(root))[1]
       [] ty = "N" -> The({Arr(<<Arr(Tup([i \in 1..Len(r) |-> r[i].v]))>>) : r \in {Call(call, at, Root(root))}})
       [] ty = "L" -> Null
Element(c, r) == Obj(<<<<C, c>>, <<RR, r>>>>)
DocOf(call, ty) == Obj(<<<<D, Ds>>, <<E, Es>>, <<L, Arr(Tup([i \in 1..Len(Cs) |-> Element(Cs[i], Gives(IF i = Len(Cs) THEN Cs[2] ELSE Cs[i], call, ty))]))>>>>)

Off(nm) == {SubSeq(nm, 1, Len(nm) - 1), Tail(nm), nm \o <<97>>, nm \o <<95>>, nm \o <<48>>, <<97>> \o nm, [nm EXCEPT ![Len(nm)] = @ - 32], [nm EXCEPT ![1] = @ - 32],
            [nm EXCEPT ![Len(nm)] = @ + 1], nm \o <<32>>, nm \o <<45>>} \ {<<>>}

Thorough == IOEnv.TIER = "thorough"
\* in the quick tier, a share of what is done to long calls
Mix(t) == FoldFunction(LAMBDA c, m : (31 * m + c) % 9973, 7, t)
Now(f, k) == Thorough \/ Len(f.ps) < 2 \/ (k + Mix(f.n)) % (IF Len(f.ps) = 2 THEN 2 ELSE IF Len(f.ps) = 3 THEN 4 ELSE 11) = 0

None == [n |-> <<>>, fn |-> "", ps |-> <<>>, r |-> ""]
Init == fnV = None /\ pos = 0 /\ altV = 0 /\ nameV = <<>>
Open == /\ fnV = None
        /\ fnV' \in {Table[i] : i \in {j \in 1..Len(Table) : Table[j].fn = "echo"}} /\ pos' = 0 /\ altV' = 0
        /\ nameV' = fnV'.n
Change == /\ fnV # None /\ pos = 0 /\ nameV = fnV.n
          /\ pos' \in 1..(Len(fnV.ps) + 1)
          /\ altV' \in {x \in IF pos' > Len(fnV.ps) THEN {1} ELSE {-99} \cup 2..Fits(fnV.ps[pos']) \cup {-y : y \in 1..Len(Wrong[fnV.ps[pos']])} : Now(fnV, x + 7 * pos' + 200)}
          /\ UNCHANGED <<fnV, nameV>>
Rename == /\ fnV # None /\ pos = 0 /\ nameV = fnV.n
          /\ nameV' \in {x \in Off(fnV.n) : Now(fnV, Mix(x))}
          /\ UNCHANGED <<fnV, pos, altV>>
St == CASE (pos + altV) % 3 = 0 -> Plain [] (pos + altV) % 3 = 1 -> Loose [] OTHER -> Spaced
Vector(q, t, d) == IF d # Null THEN QVector(q, t, d, EvalPaths(q, d)) ELSE [k |-> "p", s |-> t, ok |-> IF ParseLenient(t).ok THEN 2 ELSE 0]
Next == Open \/ Change \/ Rename
\* every state gives a vector (an invariant, as TLC evaluates those with less repetition than actions)
Emit == fnV # None => \A q \in {Query} : \A t \in {Text(q, St)} :
          \A d \in {IF WTQuery(q) THEN DocOf(TheCall, fnV.r) ELSE Null} : PrintT("VEC " \o ToJson(Vector(q, t, d)))
Spec == Init /\ [][Next]_vars

\* the call is well typed just if its arguments are ones that fit
Typed == fnV # None /\ nameV = fnV.n => (WTQuery(Query) <=> pos = 0 \/ (pos <= Len(fnV.ps) /\ altV > 0))
\* the text is that of the query, unless the nameV is not a nameV
Reads == fnV # None /\ nameV = fnV.n => \A q \in {Query} : \A t \in {Text(q, St)} : LET r == ParseText(Strict(t)) IN IF r.ok THEN r.v = q ELSE FALSE
\* what the document says of the elements is so: all are selected, or the last one is not
Selects == fnV # None /\ nameV = fnV.n /\ fnV.r # "L" => \A q \in {Query} : WTQuery(q) =>
  \A d \in {DocOf(TheCall, fnV.r)} : \A n \in {Len(EvalPaths(q, d))} :
    n \in {Len(Cs) - 1, Len(Cs)} /\ (n = Len(Cs) <=> ReprEq(Gives(Cs[2], TheCall, fnV.r), Gives(Cs[Len(Cs)], TheCall, fnV.r)))
\* the table has no nameV twice
Once == \A i, j \in 1..Len(Sigs) : Sigs[i].n = Sigs[j].n => i = j
ASSUME Once
=============================================================================

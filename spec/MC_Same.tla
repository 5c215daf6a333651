------------------------------- MODULE MC_Same -------------------------------
(***************************************************************************)
(* Queries that differ by a little: a query is edited, one place at a      *)
(* time.  No two of the queries that come about are the same, so no text   *)
(* of one may equal, as a path, a text of another.                         *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES base, group, nV
vars == <<base, group, nV>>

Thorough == IOEnv.TIER = "thorough"
A == T("a")
B == T("b")
R(segs) == RelQ(segs)
KA == Child(<<Name(A)>>)
KB == Child(<<Name(B)>>)
KW == Child(<<Wild>>)
S(k) == <<I(k)>>
Z == <<>>
F(f) == AbsQ(<<Child(<<Filt(f)>>)>>)

\* longer ones, in which places are far from the first
Long(n, Op(_)) == [i \in 1..n |-> Op(i)]
Bases == {
  AbsQ(Long(12, LAMBDA i : CASE i % 4 = 0 -> Child(<<Idx(i)>>) [] i % 4 = 1 -> Desc(<<Name(B)>>) [] OTHER -> KA)),
  AbsQ(<<KA, Child(Long(14, LAMBDA i : CASE i % 3 = 0 -> Idx(i) [] i % 3 = 1 -> Name(<<96 + i>>) [] OTHER -> Slice(S(i), Z, Z)))>>),
  AbsQ(<<Child(<<Name(Long(20, LAMBDA i : 96 + i))>>)>>),
  F(Or(Long(9, LAMBDA i : Exists(R(<<Child(<<Name(<<96 + i>>)>>)>>))))), F(And(Long(9, LAMBDA i : Cmp(Qry(R(<<Child(<<Idx(i)>>)>>)), "<", Lit(Num(i)))))),
  F(Cmp(Qry(R(Long(10, LAMBDA i : Child(<<Idx(i)>>)))), "==", Lit(Str(Long(18, LAMBDA i : 64 + i))))),
  F(Cmp(Lit(Dec(FALSE, <<1, 6, 7, 7, 7, 2, 1, 7>>, 0)), "!=", Lit(Dec(FALSE, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 7>>, 0)))),
  AbsQ(Z), AbsQ(<<KA, KB>>), AbsQ(<<KA, KA, KA>>), AbsQ(<<Child(<<Idx(0)>>), Child(<<Idx(-1)>>)>>), AbsQ(<<Desc(<<Name(A)>>), Desc(<<Wild>>)>>),
  AbsQ(<<Child(<<Name(A), Name(B), Idx(1), Wild>>)>>), AbsQ(<<Child(<<Name(T("1")), Idx(1)>>)>>), AbsQ(<<Child(<<Name(Z)>>), KW>>),
  AbsQ(<<Child(<<Slice(S(1), S(2), S(3))>>)>>), AbsQ(<<Child(<<Slice(Z, S(1), Z)>>)>>), AbsQ(<<Child(<<Slice(S(0), Z, S(1)), Slice(Z, Z, S(-1))>>)>>),
  AbsQ(<<Child(<<Name(T("'"))>>), Child(<<Name(T("\""))>>), Child(<<Name(T("\\"))>>)>>), AbsQ(<<Child(<<Name(<<233>>)>>), Child(<<Name(<<101, 769>>)>>), Child(<<Name(<<128512>>)>>)>>),
  F(Exists(R(<<KA>>))), F(Not(Exists(R(<<KA>>)))), F(And(<<Exists(R(<<KA>>)), Exists(R(<<KB>>)), Exists(AbsQ(<<KA>>))>>)),
  F(Or(<<And(<<Exists(R(<<KA>>)), Exists(R(<<KB>>))>>), Not(And(<<Exists(R(<<KB>>)), Exists(R(<<KA>>))>>))>>)),
  F(Cmp(Qry(R(<<KA>>)), "==", Lit(Num(1)))), F(Cmp(Lit(Str(A)), "<", Qry(AbsQ(<<KA, Child(<<Idx(0)>>)>>)))), F(Cmp(Lit(Bool(TRUE)), "!=", Lit(Null))),
  F(Cmp(Qry(R(<<KA, Child(<<Idx(-1)>>)>>)), ">=", Qry(R(<<KB>>)))), F(Cmp(Lit(Dec(FALSE, <<1, 5>>, -1)), "<=", Lit(Dec(TRUE, <<1>>, 20)))),
  F(Not(FTest(T("match"), <<Qry(R(<<KA>>)), Lit(Str(A))>>))), F(FTest(T("lboth"), <<Log(Exists(R(<<KA>>))), Log(Not(Exists(R(<<KB>>))))>>)),
  F(Cmp(CallArg(T("count"), <<Qry(R(<<KW>>))>>), ">", CallArg(T("length"), <<Qry(R(<<KA>>))>>))),
  F(Cmp(CallArg(T("trip"), <<Lit(Num(1)), Qry(R(<<KW>>)), Log(Cmp(Lit(Num(1)), "==", Lit(Num(1))))>>), "==", Lit(Null))),
  F(Exists(R(<<Child(<<Filt(Exists(R(<<KA>>)))>>)>>))), AbsQ(<<Desc(<<Filt(Exists(R(<<KA>>))), Filt(Exists(AbsQ(<<KA>>)))>>), KA>>)}

(* ---- the edits of one place ---- *)
\* sequences: one element edited, dropped, doubled, two exchanged
Put1(s, i, x) == [s EXCEPT ![i] = x]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Double(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Shape(s, least) == {Drop(s, i) : i \in {j \in 1..Len(s) : Len(s) > least}} \cup {Double(s, i) : i \in 1..Len(s)} \cup {Swap(s, i) : i \in 1..(Len(s) - 1)}
EdStr(s) == {s \o A, s \o <<32>>, <<32>> \o s, Z} \cup {Put1(s, i, s[i] + 1) : i \in 1..Len(s)} \cup {Drop(s, i) : i \in 1..Len(s)}
            \cup {Put1(s, i, s[i] - 32) : i \in {j \in 1..Len(s) : 97 <= s[j] /\ s[j] <= 122}}
EdInt(i) == {I(0), I(1), I(-1), I(10), BigI, [i EXCEPT !.neg = IF i.ds = <<0>> THEN FALSE ELSE ~@]}
EdOpt(x) == {Z} \cup {<<y>> : y \in IF x = Z THEN {I(0), I(1), I(-1)} ELSE EdInt(x[1])}
EdVal(v) == {Null, Bool(TRUE), Bool(FALSE), Num(0), Num(1), Num(2), Str(Z), Str(T("1")), Str(T("true")), Str(T("null"))}
            \cup (CASE v.t = "s" -> {Str(x) : x \in EdStr(v.s)} [] v.t = "d" -> {[v EXCEPT !.neg = ~@], Dec(v.neg, v.ds, v.e + 1)} [] OTHER -> {})
RECURSIVE EdQ(_), EdSegs(_), EdSeg(_), EdSel(_), EdE(_), EdArg(_), EdCall(_)
EdQ(q) == {[q EXCEPT !.segs = x] : x \in EdSegs(q.segs)}
EdSegs(ss) == Shape(ss, 0) \cup {Append(ss, s) : s \in {KA, KW, Child(<<Idx(0)>>)}} \cup UNION {{Put1(ss, i, x) : x \in EdSeg(ss[i])} : i \in 1..Len(ss)}
EdSeg(s) == {[s EXCEPT !.desc = ~@]} \cup {[s EXCEPT !.sels = x] : x \in Shape(s.sels, 1) \cup {Append(s.sels, Wild), <<Idx(0)>> \o s.sels}
            \cup UNION {{Put1(s.sels, i, x) : x \in EdSel(s.sels[i])} : i \in 1..Len(s.sels)}}
EdSel(s) == {Wild, Name(A), Name(T("*")), Idx(0), Idx(1), Name(T("0"))}
            \cup (CASE s.k = "name" -> {Name(x) : x \in EdStr(s.s)}
                    [] s.k = "idx" -> {[k |-> "idx", i |-> x] : x \in EdInt(s.i)} \cup {Slice(<<s.i>>, Z, Z), Slice(Z, <<s.i>>, Z)}
                    [] s.k = "slice" -> {[s EXCEPT !.st = x] : x \in EdOpt(s.st)} \cup {[s EXCEPT !.en = x] : x \in EdOpt(s.en)} \cup {[s EXCEPT !.sp = x] : x \in EdOpt(s.sp)}
                                        \cup {Slice(s.en, s.st, s.sp), Slice(s.sp, s.en, s.st), Slice(s.st, s.sp, s.en)}
                    [] s.k = "filt" -> {Filt(x) : x \in EdE(s.f)}
                    [] OTHER -> {Slice(Z, Z, Z)})
EdE(f) ==
  {Not(f)} \cup
  CASE f.k \in {"and", "or"} -> {[f EXCEPT !.k = IF @ = "and" THEN "or" ELSE "and"]} \cup {[f EXCEPT !.es = x] : x \in Shape(f.es, 2)} \cup {f.es[1]}
                                \cup UNION {{[f EXCEPT !.es = Put1(@, i, x)] : x \in EdE(f.es[i])} : i \in 1..Len(f.es)}
    [] f.k = "not" -> {f.f} \cup {Not(x) : x \in EdE(f.f)}
    [] f.k = "test" -> {Exists(x) : x \in EdQ(f.q) \cup {[f.q EXCEPT !.abs = ~@]}}
    [] f.k = "cmp" -> {[f EXCEPT !.op = o] : o \in {"==", "!=", "<", "<=", ">", ">="}} \cup {Cmp(f.r, f.op, f.l)}
                      \cup {[f EXCEPT !.l = x] : x \in EdArg(f.l)} \cup {[f EXCEPT !.r = x] : x \in EdArg(f.r)}
    [] f.k = "ftest" -> {[f EXCEPT !.c = x] : x \in EdCall(f.c)}
EdArg(a) == CASE a.k = "lit" -> {Lit(v) : v \in EdVal(a.v)} \cup {Qry(R(Z))}
              [] a.k = "qry" -> {Qry(x) : x \in EdQ(a.q) \cup {[a.q EXCEPT !.abs = ~@]}} \cup {Lit(Num(1))}
              [] a.k = "log" -> {Log(x) : x \in EdE(a.f)}
              [] a.k = "call" -> {[a EXCEPT !.c = x] : x \in EdCall(a.c)}
Like == <<{T("match"), T("search"), T("same")}, {T("count"), T("first")}, {T("length"), T("vid")}, {T("lboth")}>>
EdCall(c) == {[c EXCEPT !.fn = x] : x \in UNION {IF c.fn \in Like[i] THEN Like[i] ELSE {} : i \in 1..Len(Like)}}
             \cup {[c EXCEPT !.args = x] : x \in Shape(c.args, 0)}
             \cup UNION {{[c EXCEPT !.args = Put1(@, i, x)] : x \in EdArg(c.args[i])} : i \in 1..Len(c.args)}

\* some edits make a query that is not valid, or another way of writing a logical expression
Plainly(q) == LET r == ParseStrict(Text(q, Plain)) IN IF r.ok THEN r.v = q /\ ~OddQuery(q) ELSE FALSE
Init == base \in Bases /\ group = {base} /\ nV = 0
Edit == /\ nV < (IF Thorough THEN 2 ELSE 1)
        /\ nV' = nV + 1
        /\ \E g \in {UNION {EdQ(q) : q \in group}} : group' = group \cup {q \in g : Plainly(q)}
        /\ UNCHANGED base
\* each query in a style or two; in groups, since all pairs are compared
StyleNo == <<Plain, Bracketed, Spaced, Loose>>
Report == /\ nV = (IF Thorough THEN 2 ELSE 1)
          /\ nV' = 9 /\ UNCHANGED <<base, group>>
          /\ \E qs \in {SetToSeq(group)} :
               LET Most == 120
                   Part(k) == SelectSeq([i \in 1..Len(qs) |-> i], LAMBDA i : i % (1 + (Len(qs) \div Most)) = k)
               IN \A k \in 0..(Len(qs) \div Most) : \A ix \in {Part(k)} :
                    PrintT("VEC " \o ToJson([k |-> "eqs", ts |-> FlattenSeq([j \in 1..Len(ix) |->
                      <<Text(qs[ix[j]], StyleNo[1 + (ix[j] % 4)])>> \o (IF j % 7 = 0 THEN <<Text(qs[ix[j]], StyleNo[1 + ((ix[j] + 1) % 4)])>> ELSE <<>>)]),
                      cl |-> FlattenSeq([j \in 1..Len(ix) |-> <<ix[j]>> \o (IF j % 7 = 0 THEN <<ix[j]>> ELSE <<>>)])]))
Next == Edit \/ Report
Spec == Init /\ [][Next]_vars

\* a text has one meaning, and queries that differ have different texts in every style
Injective == nV = 1 => \A st \in Styles : Cardinality({Text(q, st) : q \in group}) = Cardinality(group)
Reads == nV = 1 => \A st \in Styles : \A q \in group : \A t \in {Text(q, st)} : LET r == ParseStrict(t) IN IF r.ok THEN r.v = q ELSE FALSE
=============================================================================

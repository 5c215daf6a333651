------------------------------ MODULE JPKnown ------------------------------
(***************************************************************************)
(* The known findings (known_findings.json): defects of the code that are  *)
(* not repaired.  For each there is an exact account of what the code does *)
(* instead, so that an outcome counts as the finding only if it is that    *)
(* very outcome, and anything else is still a violation.                   *)
(*                                                                         *)
(* Evaluation: the deviations of JPEval.  Display: the text of a path is   *)
(* as it should be, except that                                            *)
(*   "negf"  KF3: the ! before a function test is missing;                 *)
(*   "quote" KF4: names and strings stand between quotes as they are,      *)
(*           without escapes;                                              *)
(*   "dots"  KF7: ..name and ..* have three dots.                          *)
(* DispEnds says where in a text a query of such a text can end.           *)
(***************************************************************************)
EXTENDS JPPrint

SomeSeq(s, P(_)) == \E j \in 1..Len(s) : P(s[j])
(* Number literals whose treatment is left open: beyond the range of a     *)
(* double, or with more digits than it distinguishes                       *)
RECURSIVE NumsQ(_), NumsE(_), NumsA(_)      \* the number literals
NumsA(a) == CASE a.k = "lit" -> IF a.v.t = "d" THEN {a.v} ELSE {}
              [] a.k = "log" -> NumsE(a.f)
              [] a.k = "qry" -> NumsQ(a.q)
              [] a.k = "call" -> UNION {NumsA(a.c.args[i]) : i \in 1..Len(a.c.args)}
NumsE(f) == CASE f.k = "or" \/ f.k = "and" -> UNION {NumsE(f.es[i]) : i \in 1..Len(f.es)}
              [] f.k = "not" -> NumsE(f.f)
              [] f.k = "test" -> NumsQ(f.q)
              [] f.k = "ftest" -> UNION {NumsA(f.c.args[i]) : i \in 1..Len(f.c.args)}
              [] f.k = "cmp" -> NumsA(f.l) \cup NumsA(f.r)
NumsQ(q) == UNION {UNION {IF sl.k = "filt" THEN NumsE(sl.f) ELSE {} : sl \in ToSet(q.segs[i].sels)} : i \in 1..Len(q.segs)}
Odd(v) == LET m == Len(v.ds) + v.e IN Len(v.ds) > 17 \/ m > 300 \/ m < -290
OddQuery(q) == \E v \in NumsQ(q) : Odd(v)
\* numerals that the JSON parser of the library may read as a neighbouring
\* double: more than 15 digits, or a last digit of a power of ten beyond 22
Rough(v) == Len(v.ds) > 15 \/ v.e < -22 \/ v.e > 22
RoughQuery(q) == \E v \in NumsQ(q) : Rough(v)

(* ---- outcomes that are left open ---- *)
\* patterns outside I-Regexp, but maybe of the engine's dialect
OpenRx(x) == RxParse(x).st = "ext"
RECURSIVE CallsQ(_), CallsE(_), CallsA(_), Strs(_)
CallsA(a) == CASE a.k = "lit" -> {}
               [] a.k = "log" -> CallsE(a.f)
               [] a.k = "qry" -> CallsQ(a.q)
               [] a.k = "call" -> {a.c} \cup UNION {CallsA(a.c.args[i]) : i \in 1..Len(a.c.args)}
CallsE(f) == CASE f.k = "or" \/ f.k = "and" -> UNION {CallsE(f.es[i]) : i \in 1..Len(f.es)}
               [] f.k = "not" -> CallsE(f.f)
               [] f.k = "test" -> CallsQ(f.q)
               [] f.k = "ftest" -> CallsA([k |-> "call", c |-> f.c])
               [] f.k = "cmp" -> CallsA(f.l) \cup CallsA(f.r)
CallsQ(q) == UNION {UNION {IF sl.k = "filt" THEN CallsE(sl.f) ELSE {} : sl \in ToSet(q.segs[i].sels)} : i \in 1..Len(q.segs)}
Strs(v) == CASE v.t = "s" -> {v.s}
             [] v.t = "a" -> UNION {Strs(v.a[i]) : i \in 1..Len(v.a)}
             [] v.t = "o" -> UNION {Strs(v.o[i].v) : i \in 1..Len(v.o)}
             [] OTHER -> {}
OpenPattern(q, doc) ==
  \E cs \in {CallsQ(q)} :
    LET pats == {c.args[2] : c \in {x \in cs : Sig(x.fn).fn \in {"match", "search"}}}
        lits == UNION {UNION {IF a.k = "lit" THEN Strs(a.v) ELSE {} : a \in ToSet(c.args)} : c \in cs}
    IN \/ \E a \in pats : IF a.k = "lit" THEN \E x \in Strs(a.v) : OpenRx(x) ELSE FALSE
       \/ (\E a \in pats : a.k # "lit") /\ \E x \in lits \cup Strs(doc) : OpenRx(x)
LeftOpen(q, doc) == OddQuery(q) \/ OpenPattern(q, doc)

(* ---- display: what makes the text deviate ---- *)
Special(s) == \E i \in 1..Len(s) : s[i] < 32 \/ s[i] = 39 \/ s[i] = 92
RECURSIVE TrigQ(_), TrigE(_), TrigA(_)
TrigA(a) == CASE a.k = "lit" -> IF a.v.t = "s" THEN (IF Special(a.v.s) THEN {"quote"} ELSE {}) ELSE {}
              [] a.k = "qry" -> TrigQ(a.q)
              [] a.k = "log" -> TrigE(a.f)
              [] a.k = "call" -> UNION {TrigA(a.c.args[i]) : i \in 1..Len(a.c.args)}
TrigE(f) == CASE f.k = "or" \/ f.k = "and" -> UNION {TrigE(f.es[i]) : i \in 1..Len(f.es)}
              [] f.k = "not" -> TrigE(f.f) \cup (IF f.f.k = "ftest" THEN {"negf"} ELSE {})
              [] f.k = "test" -> TrigQ(f.q)
              [] f.k = "ftest" -> UNION {TrigA(f.c.args[i]) : i \in 1..Len(f.c.args)}
              [] f.k = "cmp" -> TrigA(f.l) \cup TrigA(f.r)
TrigSel(sl) == CASE sl.k = "name" -> IF Special(sl.s) THEN {"quote"} ELSE {}
                 [] sl.k = "filt" -> TrigE(sl.f)
                 [] OTHER -> {}
TrigQ(q) == UNION {(IF q.segs[i].desc /\ Len(q.segs[i].sels) = 1 /\ q.segs[i].sels[1].k \in {"name", "wild"} THEN {"dots"} ELSE {})
                   \cup UNION {TrigSel(q.segs[i].sels[j]) : j \in 1..Len(q.segs[i].sels)} : i \in 1..Len(q.segs)}

(* ---- evaluation ---- *)
\* does the query have anything that deviations bear on?
RECURSIVE DevQ(_, _), DevE(_), DevA(_)
DevA(a) == CASE a.k = "lit" -> FALSE
             [] a.k = "qry" -> DevQ(a.q, TRUE)
             [] a.k = "log" -> DevE(a.f)
             [] a.k = "call" -> \E i \in 1..Len(a.c.args) : DevA(a.c.args[i])
DevE(f) == CASE f.k = "or" \/ f.k = "and" -> \E i \in 1..Len(f.es) : DevE(f.es[i])
             [] f.k = "not" -> DevE(f.f)
             [] f.k = "test" -> DevQ(f.q, FALSE)
             [] f.k = "ftest" -> \E i \in 1..Len(f.c.args) : DevA(f.c.args[i])
             [] f.k = "cmp" -> TRUE
DevQ(q, arg) == \E i \in 1..Len(q.segs) : \E j \in 1..Len(q.segs[i].sels) :
                  LET sl == q.segs[i].sels[j]
                  IN CASE sl.k = "filt" -> DevE(sl.f)
                       [] sl.k = "idx" -> arg /\ sl.i.neg
                       [] OTHER -> FALSE
\* the outcomes that the findings allow instead of r, and which findings
\* (TLC evaluates a bound variable once, but a LET anew)
Minimal(S) == CHOOSE X \in S : \A x \in S : Cardinality(X) <= Cardinality(x)
\* the fewest deviations that give the outcome r: {} if none do
Explains(q, doc, r) == UNION {IF good = {} THEN {} ELSE Minimal(good)
                                : good \in {{D \in SUBSET Deviations : D # {} /\ EvalDev(q, doc, D) = r}}}
DevSets == SetToSeq(SUBSET Deviations)
Others(all, r) == {[r |-> all[j], c |-> Minimal({DevSets[m] : m \in {x \in 1..Len(DevSets) : DevSets[x] # {} /\ all[x] = all[j]}})]
                     : j \in {x \in 1..Len(DevSets) : all[x] # r}}
Instead(q, doc, r) ==
  IF ~DevQ(q, FALSE) THEN {}
  ELSE IF EvalDev(q, doc, Deviations) = r THEN {}
  ELSE UNION {Others(all, r) : all \in {Tup([j \in 1..Len(DevSets) |-> EvalDev(q, doc, DevSets[j])])}}
\* a vector for the conformance harness: the text of the query, the document and the nodelist.
\* k2 has the known deviations; nd says that the display of the query is a known finding, or left open
QVector(q, text, doc, r) == [k |-> "q", s |-> text, d |-> doc, r |-> r, k2 |-> Instead(q, doc, r), nd |-> TrigQ(q) # {} \/ RoughQuery(q)]

(* ---- display: the texts.  Each operator gives the positions where what   *)
(* starts at p can end; t ends in a sentinel                                *)
After(Op(_), S) == UNION {Op(p) : p \in S}
At(t, p, c) == IF t[p] = c THEN {p + 1} ELSE {}
Blank(t, S) == {SkipS(t, p) : p \in S}
IsAt(t, p, s) == IF p + Len(s) > Len(t) THEN FALSE ELSE SubSeq(t, p, p + Len(s) - 1) = s
Lexeme(t, S, s) == {p + Len(s) : p \in {x \in Blank(t, S) : IsAt(t, x, s)}}

StrEnds(s, t, p) == LET r == PString(t, p)
                    IN (IF r.ok THEN IF r.v = s THEN {r.p} ELSE {} ELSE {})
                       \cup (IF t[p] = 39 /\ Special(s) /\ IsAt(t, p + 1, s) THEN At(t, p + 1 + Len(s), 39) ELSE {})

RECURSIVE SegsEnds(_, _, _, _), SelsEnds(_, _, _, _), SelEnds(_, _, _), ExprEnds(_, _, _), GroupEnds(_, _, _),
          ListEnds(_, _, _, _, _), OperandEnds(_, _, _), ArgsEnds(_, _, _, _)
DispEnds(q, t, p) == IF t[p] = (IF q.abs THEN 36 ELSE 64) THEN SegsEnds(q.segs, 1, t, {p + 1}) ELSE {}

ShortEnds(sg, t, p) ==
  IF Len(sg.sels) # 1 THEN {}
  ELSE LET sl == sg.sels[1]
           x == IF ~sg.desc THEN p + 1 ELSE IF t[p + 1] # 46 THEN 0 ELSE IF t[p + 2] = 46 THEN p + 3 ELSE p + 2
       IN IF t[p] # 46 \/ x = 0 \/ sl.k \notin {"name", "wild"} THEN {}
          ELSE IF sl.k = "wild" THEN At(t, x, 42)
          ELSE IF ~IsNameFirst(t[x]) THEN {}
          ELSE LET y == SkipName(t, x) IN IF SubSeq(t, x, y - 1) = sl.s THEN {y} ELSE {}
LongEnds(sg, t, p) ==
  LET x == IF ~sg.desc THEN p ELSE IF t[p] = 46 /\ t[p + 1] = 46 THEN p + 2 ELSE 0
  IN IF x = 0 THEN {} ELSE IF t[x] # 91 THEN {} ELSE SelsEnds(sg.sels, 1, t, {x + 1})
SegsEnds(segs, i, t, S) ==
  IF i > Len(segs) \/ S = {} THEN S
  ELSE SegsEnds(segs, i + 1, t, After(LAMBDA p : ShortEnds(segs[i], t, p) \cup LongEnds(segs[i], t, p), Blank(t, S)))
SelsEnds(sels, i, t, S) ==
  IF S = {} THEN {}
  ELSE LET e == After(LAMBDA p : SelEnds(sels[i], t, p), Blank(t, S))
       IN IF i = Len(sels) THEN Lexeme(t, e, <<93>>) ELSE SelsEnds(sels, i + 1, t, Lexeme(t, e, <<44>>))
SelEnds(sl, t, p) ==
  CASE sl.k = "name" -> StrEnds(sl.s, t, p)
    [] sl.k = "filt" -> IF t[p] = 63 THEN ExprEnds(sl.f, t, SkipS(t, p + 1)) ELSE {}
    [] OTHER -> IF t[p] \in {34, 39, 63} THEN {}
                ELSE LET r == PSel(t, p) IN IF r.ok THEN IF r.v = sl THEN {r.p} ELSE {} ELSE {}

\* in parentheses, once or more
GroupEnds(f, t, p) == IF t[p] # 40 THEN {}
                      ELSE LET x == SkipS(t, p + 1) IN Lexeme(t, ExprEnds(f, t, x), <<41>>)
\* an operand of && or ||
WithinEnds(f, t, p, par) == GroupEnds(f, t, p) \cup (IF par THEN {} ELSE ExprEnds(f, t, p))
ListEnds(es, i, t, S, op) ==
  IF S = {} THEN {}
  ELSE LET par == es[i].k = "or" \/ (es[i].k = "and" /\ op = 38)
           e == After(LAMBDA p : WithinEnds(es[i], t, p, par), Blank(t, S))
       IN IF i = Len(es) THEN e ELSE ListEnds(es, i + 1, t, Lexeme(t, e, <<op, op>>), op)
CallEnds(c, t, p) == IF ~IsAt(t, p, c.fn \o <<40>>) THEN {}
                     ELSE LET x == {p + Len(c.fn) + 1}
                          IN IF c.args = <<>> THEN Lexeme(t, x, <<41>>) ELSE ArgsEnds(c.args, 1, t, x)
ArgsEnds(args, i, t, S) ==
  IF S = {} THEN {}
  ELSE LET e == After(LAMBDA p : OperandEnds(args[i], t, p), Blank(t, S))
       IN IF i = Len(args) THEN Lexeme(t, e, <<41>>) ELSE ArgsEnds(args, i + 1, t, Lexeme(t, e, <<44>>))
OperandEnds(a, t, p) ==
  CASE a.k = "lit" -> IF a.v.t = "s" THEN StrEnds(a.v.s, t, p)
                      ELSE LET r == PLiteral(t, p) IN IF r.ok THEN IF r.v = a.v THEN {r.p} ELSE {} ELSE {}
    [] a.k = "qry" -> DispEnds(a.q, t, p)
    [] a.k = "call" -> CallEnds(a.c, t, p)
    [] a.k = "log" -> ExprEnds(a.f, t, p)
ExprEnds(f, t, p) ==
  GroupEnds(f, t, p) \cup
  (CASE f.k = "or" -> ListEnds(f.es, 1, t, {p}, 124)
     [] f.k = "and" -> ListEnds(f.es, 1, t, {p}, 38)
     [] f.k = "test" -> DispEnds(f.q, t, p)
     [] f.k = "ftest" -> CallEnds(f.c, t, p)
     [] f.k = "cmp" -> After(LAMBDA x : OperandEnds(f.r, t, x),
                             Blank(t, Lexeme(t, OperandEnds(f.l, t, p), CASE f.op = "==" -> <<61, 61>> [] f.op = "!=" -> <<33, 61>>
                               [] f.op = "<" -> <<60>> [] f.op = "<=" -> <<60, 61>> [] f.op = ">" -> <<62>> [] f.op = ">=" -> <<62, 61>>)))
     [] f.k = "not" -> (IF t[p] # 33 THEN {}
                        ELSE LET x == SkipS(t, p + 1)
                             IN GroupEnds(f.f, t, x) \cup (IF f.f.k \in {"test", "ftest"} THEN ExprEnds(f.f, t, x) ELSE {}))
                       \cup (IF f.f.k = "ftest" THEN CallEnds(f.f.c, t, p) ELSE {}))

\* the findings that account for the text: {} if none do
DispKnown(q, text) == LET trig == TrigQ(q)
                          t == Strict(text)
                      IN IF trig = {} THEN {} ELSE IF Len(t) \in DispEnds(q, t, 1) THEN trig ELSE {}
=============================================================================

------------------------------- MODULE JPEval -------------------------------
(***************************************************************************)
(* The meaning of a query: the nodelist that RFC 9535 (2.1 - 2.5) defines, *)
(* with object members taken in the map's order.                           *)
(*                                                                         *)
(* A node is [p |-> path, v |-> value].  A path is a sequence of elements, *)
(* each a sequence of integers: <<0, i>> for array index i (from 0), and   *)
(* <<1, c1, ..., cn>> for the member named c1 ... cn.                      *)
(* A ValueType is <<>> (Nothing) or <<value>>.                             *)
(***************************************************************************)
EXTENDS JPFunc, JPRegex, SequencesExt

\* The root has with it what of the following the outcome is to have: the      *)
\* ways in which the library is known to deviate (known_findings.json).
\*   "neg"   KF2: a negative index selects nothing in a query that is an operand
\*           of a comparison, or a singular query that is an argument
\*   "ord"   KF5: <=, > and >= by negation, among values of the same type only
\*   "deep"  KF6: numbers within arrays and objects are equal by representation
Deviations == {"neg", "ord", "deep"}
RootD(doc, devs) == [p |-> <<>>, v |-> doc, dev |-> devs]
Root(doc) == RootD(doc, {})
IdxEl(i) == <<0, i>>
NameEl(k) == <<1>> \o k
ChildAt(n, i) ==         \* i-th child in order, from 1
  IF n.v.t = "a" THEN [p |-> Append(n.p, IdxEl(i - 1)), v |-> n.v.a[i]]
  ELSE [p |-> Append(n.p, NameEl(n.v.o[i].k)), v |-> n.v.o[i].v]
Children(n) == [i \in 1..Kids(n.v) |-> ChildAt(n, i)]

(* ---- the node a path leads to: <<>> if none ---- *)
RECURSIVE FollowFrom(_, _, _)
FollowFrom(v, path, i) ==
  IF i > Len(path) THEN <<v>>
  ELSE LET e == path[i] IN
       IF e[1] = 0
       THEN IF v.t # "a" THEN <<>>
            ELSE IF e[2] + 1 \in 1..Len(v.a) THEN FollowFrom(v.a[e[2] + 1], path, i + 1) ELSE <<>>
       ELSE IF v.t # "o" THEN <<>>
            ELSE IF HasKey(v, Tail(e)) THEN FollowFrom(Member(v, Tail(e)), path, i + 1) ELSE <<>>
Follow(doc, path) == FollowFrom(doc, path, 1)

(* ---- array slices, 2.3.4.2.2 ---- *)
SliceNorm(i, len) == IF i >= 0 THEN i ELSE len + i
RECURSIVE UpBy(_, _, _), DownBy(_, _, _)
UpBy(i, to, step) == IF i < to THEN <<i>> \o UpBy(i + step, to, step) ELSE <<>>
DownBy(i, to, step) == IF to < i THEN <<i>> \o DownBy(i + step, to, step) ELSE <<>>
SliceIdx(len, st, en, sp) ==     \* indices, from 0, in order
  LET step == IF sp = <<>> THEN 1 ELSE IntVal(sp[1])
      start == IF st = <<>> THEN (IF step >= 0 THEN 0 ELSE len - 1) ELSE IntVal(st[1])
      end == IF en = <<>> THEN (IF step >= 0 THEN len ELSE -len - 1) ELSE IntVal(en[1])
      ns == SliceNorm(start, len)
      ne == SliceNorm(end, len)
  IN IF step = 0 THEN <<>>
     ELSE IF step > 0
     THEN UpBy(Min2(Max2(ns, 0), len), Min2(Max2(ne, 0), len), step)
     ELSE DownBy(Min2(Max2(ns, -1), len - 1), Min2(Max2(ne, -1), len - 1), step)

(* ---- descendants: the node itself, then its children's descendants ---- *)
\* the element of a singleton; {F(x) : x \in {e}} has TLC evaluate e once
The(S) == CHOOSE x \in S : TRUE
RECURSIVE Descendants(_)
Descendants(n) == The({<<m>> \o FlattenSeq([i \in 1..Kids(m.v) |-> Descendants(ChildAt(m, i))]) : m \in {n}})

(* ---- comparisons, on ValueTypes ---- *)
CmpEq(l, r) == IF l = <<>> \/ r = <<>> THEN Len(l) = Len(r) ELSE ValEq(l[1], r[1])
CmpEqD(l, r) == IF l = <<>> \/ r = <<>> THEN Len(l) = Len(r)
                ELSE IF l[1].t \in {"a", "o"} THEN ReprEq(l[1], r[1]) ELSE ValEq(l[1], r[1])
CmpLt(l, r) == IF l = <<>> \/ r = <<>> THEN FALSE ELSE ValLt(l[1], r[1])
Compare(op, l, r) ==
  CASE op = "==" -> CmpEq(l, r)
    [] op = "!=" -> ~CmpEq(l, r)
    [] op = "<" -> CmpLt(l, r)
    [] op = "<=" -> CmpLt(l, r) \/ CmpEq(l, r)
    [] op = ">" -> CmpLt(r, l)
    [] op = ">=" -> CmpLt(r, l) \/ CmpEq(l, r)

SameType(l, r) == IF l = <<>> \/ r = <<>> THEN FALSE ELSE l[1].t = r[1].t
CompareD(op, l, r, devs) ==
  LET eq == IF "deep" \in devs THEN CmpEqD(l, r) ELSE CmpEq(l, r)
      lt == CmpLt(l, r)
      same == SameType(l, r)
      ord == "ord" \in devs
  IN CASE op = "==" -> eq
       [] op = "!=" -> ~eq
       [] op = "<" -> lt
       [] op = "<=" -> IF ord THEN same /\ (lt \/ eq) ELSE lt \/ eq
       [] op = ">" -> IF ord THEN same /\ ~lt /\ ~eq ELSE CmpLt(r, l)
       [] op = ">=" -> IF ord THEN same /\ ~lt ELSE CmpLt(r, l) \/ eq

(* ---- built-in functions ---- *)
LengthOf(x) == IF x = <<>> THEN <<>>
               ELSE CASE x[1].t = "s" -> <<Num(Len(x[1].s))>>
                      [] x[1].t \in {"a", "o"} -> <<Num(Kids(x[1]))>>
                      [] OTHER -> <<>>
CountOf(ns) == <<Num(Len(ns))>>
ValueOf(ns) == IF Len(ns) = 1 THEN <<ns[1].v>> ELSE <<>>
IsStr(x) == IF x = <<>> THEN FALSE ELSE x[1].t = "s"
Regexp(whole, x, y) ==
  IF ~IsStr(x) \/ ~IsStr(y) THEN FALSE
  ELSE IF RxParse(y[1].s).st # "ok" THEN FALSE
  ELSE IF whole THEN RxMatch(y[1].s, x[1].s) ELSE RxSearch(y[1].s, x[1].s)

Bool(b) == [t |-> "b", b |-> b]
OrNull(x) == IF x = <<>> THEN [t |-> "n"] ELSE x[1]

(* Functions that echo what they get: as a value, the list of the         *)
(* arguments; as a nodelist, the nodes of all nodelists; as a truth, a     *)
(* parity to which arguments of different places contribute differently   *)
KindNo(x) == IF x = <<>> THEN 0
             ELSE CASE x[1].t = "n" -> 1 [] x[1].t = "b" -> (IF x[1].b THEN 3 ELSE 2) [] x[1].t = "d" -> 4 [] x[1].t = "s" -> 5 [] x[1].t = "a" -> 6 [] x[1].t = "o" -> 7
Tup(f) == <<>> \o f          \* has TLC evaluate f now
EchoWeight(a, ty) == CASE ty = "V" -> KindNo(a) [] ty = "N" -> Len(a) [] ty = "L" -> IF a THEN 1 ELSE 0
EchoItem(a, ty) == CASE ty = "V" -> [t |-> "a", a |-> a] [] ty = "N" -> [t |-> "a", a |-> Tup([i \in 1..Len(a) |-> a[i].v])] [] ty = "L" -> Bool(a)
RECURSIVE EchoSum(_, _, _)
EchoSum(as, ps, i) == IF i > Len(ps) THEN 0 ELSE i * EchoWeight(as[i], ps[i]) + EchoSum(as, ps, i + 1)
EchoOf(sg, as) ==
  CASE sg.r = "V" -> <<[t |-> "a", a |-> Tup([i \in 1..Len(as) |-> EchoItem(as[i], sg.ps[i])])]>>
    [] sg.r = "N" -> FlattenSeq([i \in 1..Len(as) |-> IF sg.ps[i] = "N" THEN as[i] ELSE <<>>])
    [] sg.r = "L" -> EchoSum(as, sg.ps, 1) % 2 = 1

\* the outcome of a function for its arguments
Apply(fn, as) ==
  LET sg == Sig(fn)
  IN CASE sg.fn = "length" -> LengthOf(as[1])
       [] sg.fn = "count" -> CountOf(as[1])
       [] sg.fn = "value" -> ValueOf(as[1])
       [] sg.fn = "match" -> Regexp(TRUE, as[1], as[2])
       [] sg.fn = "search" -> Regexp(FALSE, as[1], as[2])
       [] sg.fn = "vid" -> as[1]
       [] sg.fn = "one" -> <<Num(1)>>
       [] sg.fn = "nothing" -> <<>>
       [] sg.fn = "first" -> IF as[1] = <<>> THEN <<>> ELSE <<as[1][1].v>>
       [] sg.fn = "lval" -> <<Bool(as[1])>>
       [] sg.fn = "pair" -> <<[t |-> "a", a |-> as[1] \o as[2]]>>
       [] sg.fn = "trip" -> <<[t |-> "a", a |-> <<OrNull(as[1]), Num(Len(as[2])), Bool(as[3])>>]>>
       [] sg.fn = "quad" -> <<[t |-> "a", a |-> <<Bool(as[1]), Bool(as[2]), Num(Len(as[3])), OrNull(as[4])>>]>>
       [] sg.fn = "nid" -> as[1]
       [] sg.fn = "rev" -> Reverse(as[1])
       [] sg.fn = "nempty" -> <<>>
       [] sg.fn = "twice" -> as[1] \o as[1]
       [] sg.fn = "join" -> as[1] \o as[2]
       [] sg.fn = "lid" -> as[1]
       [] sg.fn = "lnot" -> ~as[1]
       [] sg.fn = "ltrue" -> TRUE
       [] sg.fn = "lfalse" -> FALSE
       [] sg.fn = "isnothing" -> as[1] = <<>>
       [] sg.fn = "lboth" -> as[1] /\ as[2]
       [] sg.fn = "hasn" -> as[1] # <<>>
       [] sg.fn = "same" -> CmpEq(as[1], as[2])
       [] sg.fn = "echo" -> EchoOf(sg, as)

RECURSIVE EvalSegs(_, _, _, _), Test(_, _, _), Call(_, _, _), Arg(_, _, _, _)

EvalQ(q, cur, root) == EvalSegs(q.segs, 1, <<IF q.abs THEN root ELSE cur>>, root)

\* What a selector selects among the children of a node
Select(sel, n, root) ==
  CASE sel.k = "name" -> IF n.v.t # "o" THEN <<>>
                         ELSE SelectSeq(Children(n), LAMBDA c : Tail(c.p[Len(c.p)]) = sel.s)
    [] sel.k = "wild" -> Children(n)
    [] sel.k = "idx" -> IF n.v.t # "a" THEN <<>>
                        ELSE LET len == Len(n.v.a)
                                 i == IntVal(sel.i)
                                 j == IF i < 0 THEN len + i ELSE i
                             IN IF 0 <= j /\ j < len THEN <<ChildAt(n, j + 1)>> ELSE <<>>
    [] sel.k = "slice" -> IF n.v.t # "a" THEN <<>>
                          ELSE LET ix == SliceIdx(Len(n.v.a), sel.st, sel.en, sel.sp)
                               IN [j \in 1..Len(ix) |-> ChildAt(n, ix[j] + 1)]
    [] sel.k = "filt" -> The({SelectSeq(Children(n), LAMBDA c : Test(f, c, root)) : f \in {sel.f}})

SelectAll(sels, n, root) == FlattenSeq([j \in 1..Len(sels) |-> Select(sels[j], n, root)])

Segment(sg, n, root) ==
  IF ~sg.desc THEN SelectAll(sg.sels, n, root)
  ELSE The({FlattenSeq([i \in 1..Len(ds) |-> SelectAll(sg.sels, ds[i], root)]) : ds \in {Descendants(n)}})

EvalSegs(segs, i, ns, root) ==
  IF i > Len(segs) THEN ns
  ELSE The({EvalSegs(segs, i + 1, r, root) : r \in {FlattenSeq([j \in 1..Len(ns) |-> The({Segment(sg, n, root) : sg \in {segs[i]}, n \in {ns[j]}})])}})

\* a query as an argument or operand
EvalArg(q, cur, root) == IF root.dev = {} THEN EvalQ(q, cur, root)
                         ELSE IF "neg" \in root.dev /\ IsSingular(q)
                                 /\ \E i \in 1..Len(q.segs) : LET sl == q.segs[i].sels[1] IN IF sl.k = "idx" THEN sl.i.neg ELSE FALSE
                         THEN <<>> ELSE EvalQ(q, cur, root)
Single(q, cur, root) == The({IF ns = <<>> THEN <<>> ELSE <<ns[1].v>> : ns \in {EvalArg(q, cur, root)}})

\* an argument as a parameter of type ty
Arg(a, ty, cur, root) ==
  CASE a.k = "lit" -> <<a.v>>
    [] a.k = "log" -> Test(a.f, cur, root)
    [] a.k = "qry" -> (CASE ty = "V" -> Single(a.q, cur, root)
                         [] ty = "N" -> EvalArg(a.q, cur, root)
                         [] ty = "L" -> EvalArg(a.q, cur, root) # <<>>)
    [] a.k = "call" -> IF ty = "L" /\ RetOf(a.c) = "N" THEN Call(a.c, cur, root) # <<>>
                       ELSE Call(a.c, cur, root)

Operand(a, cur, root) == Arg(a, "V", cur, root)

Call(c, cur, root) ==
  The({Apply(c.fn, as) : as \in {LET sg == Sig(c.fn) IN [i \in 1..Len(c.args) |-> Arg(c.args[i], sg.ps[i], cur, root)]}})

Test(f, cur, root) ==
  CASE f.k = "or" -> \E i \in 1..Len(f.es) : Test(f.es[i], cur, root)
    [] f.k = "and" -> \A i \in 1..Len(f.es) : Test(f.es[i], cur, root)
    [] f.k = "not" -> ~Test(f.f, cur, root)
    [] f.k = "test" -> EvalQ(f.q, cur, root) # <<>>
    [] f.k = "ftest" -> IF RetOf(f.c) = "N" THEN Call(f.c, cur, root) # <<>> ELSE Call(f.c, cur, root)
    [] f.k = "cmp" -> \E l \in {Operand(f.l, cur, root)}, r \in {Operand(f.r, cur, root)} :
                        IF root.dev = {} THEN Compare(f.op, l, r) ELSE CompareD(f.op, l, r, root.dev)

(* The nodelist of a query on a document, and its paths *)
Eval(q, doc) == EvalQ(q, Root(doc), Root(doc))
Paths(ns) == [i \in 1..Len(ns) |-> ns[i].p]
EvalPaths(q, doc) == Paths(Eval(q, doc))
\* with deviations
EvalDev(q, doc, devs) == Paths(EvalQ(q, RootD(doc, devs), RootD(doc, devs)))

(* Is the outcome specified at all?  Not if a regular expression is outside *)
(* I-Regexp but maybe valid in the engine's dialect; the harness marks such *)
(* patterns never generated, so this is checked only by MC models.          *)

(* ---- order and deduplication of locations ---- *)
RECURSIVE PathLtFrom(_, _, _)
PathLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN SeqLtFrom(a[i], b[i], 1)
  ELSE PathLtFrom(a, b, i + 1)
PathLt(a, b) == PathLtFrom(a, b, 1)
DedupPaths(ps) == SetToSortSeq({ps[i] : i \in 1..Len(ps)}, PathLt)
=============================================================================

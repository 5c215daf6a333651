------------------------------ MODULE JPMachine ------------------------------
(***************************************************************************)
(* Evaluation of a query as a machine that takes small steps: a stack of   *)
(* tasks, and the list of nodes found so far.  It works depth first, one   *)
(* node at a time, where JPEval defines the nodelist segment by segment;   *)
(* Denotes says that at every step what was found, followed by what the    *)
(* tasks stand for, is what JPEval says.                                   *)
(*                                                                         *)
(* Filters are machines too: the expression's truth for a child is found   *)
(* by short-circuit evaluation with a stack of the operators that wait.    *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES docV, qV, todo, out, done
mvars == <<docV, qV, todo, out, done>>

root == Root(docV)
Seg0(n) == [a |-> "seg", i |-> 1, n |-> n]
MInit == todo = <<Seg0(root)>> /\ out = <<>> /\ done = FALSE

Top == Head(todo)
Push(ts) == todo' = ts \o Tail(todo)
Keep == UNCHANGED <<docV, qV, done>>
NSegs == Len(qV.segs)
Is(a) == todo # <<>> /\ Top.a = a

\* all segments are through: a result
Emit == /\ Is("seg") /\ Top.i > NSegs
        /\ out' = Append(out, Top.n.p)
        /\ Push(<<>>) /\ Keep
\* a child segment applies its selectors, a descendant segment to the whole subtree
EnterChild == /\ Is("seg") /\ Top.i <= NSegs
              /\ ~qV.segs[Top.i].desc
              /\ Push(<<[a |-> "sels", i |-> Top.i, n |-> Top.n, j |-> 1]>>)
              /\ UNCHANGED out /\ Keep
EnterDesc == /\ Is("seg") /\ Top.i <= NSegs
             /\ qV.segs[Top.i].desc
             /\ Push(<<[a |-> "desc", i |-> Top.i, n |-> Top.n]>>)
             /\ UNCHANGED out /\ Keep
Descend == /\ Is("desc")
           /\ Push(<<[a |-> "sels", i |-> Top.i, n |-> Top.n, j |-> 1]>>
                   \o [k \in 1..Kids(Top.n.v) |-> [a |-> "desc", i |-> Top.i, n |-> ChildAt(Top.n, k)]])
           /\ UNCHANGED out /\ Keep
\* the next selector of the list
NextSel == /\ Is("sels")
           /\ Push(IF Top.j > Len(qV.segs[Top.i].sels) THEN <<>>
                   ELSE <<[a |-> "scan", i |-> Top.i, n |-> Top.n, j |-> Top.j, k |-> 1],
                          [Top EXCEPT !.j = @ + 1]>>)
           /\ UNCHANGED out /\ Keep
Selector == qV.segs[Top.i].sels[Top.j]
On(n) == [a |-> "seg", i |-> Top.i + 1, n |-> n]
\* name, wildcard and filter selectors go through the children one by one
Scan == /\ Is("scan") /\ Selector.k \in {"name", "wild", "filt"}
        /\ Push(IF Top.k > Kids(Top.n.v) THEN <<>>
                ELSE LET c == ChildAt(Top.n, Top.k)
                         more == [Top EXCEPT !.k = @ + 1]
                     IN CASE Selector.k = "wild" -> <<On(c), more>>
                          [] Selector.k = "name" ->
                               IF Top.n.v.t = "o" THEN (IF Top.n.v.o[Top.k].k = Selector.s THEN <<On(c)>> ELSE <<more>>) ELSE <<>>
                          [] Selector.k = "filt" ->
                               <<[a |-> "test", i |-> Top.i, n |-> c, f |-> Selector.f, w |-> <<>>], more>>)
        /\ UNCHANGED out /\ Keep
\* index and slice selectors go straight to the elements
Jump == /\ Is("scan") /\ Selector.k \in {"idx", "slice"}
        /\ \E s \in {Select(Selector, Top.n, root)} : Push([k \in 1..Len(s) |-> On(s[k])])
        /\ UNCHANGED out /\ Keep

(* Short-circuit evaluation.  w has the frames that wait for the truth of f: *)
(* [o |-> "not"], or [o |-> "and" / "or", es, k]: operands from k on remain  *)
Open == /\ Is("test") /\ Top.f.k \in {"not", "and", "or"}
        /\ Push(<<IF Top.f.k = "not" THEN [Top EXCEPT !.f = Top.f.f, !.w = <<[o |-> "not"]>> \o @]
                  ELSE [Top EXCEPT !.f = Top.f.es[1], !.w = <<[o |-> Top.f.k, es |-> Top.f.es, k |-> 2]>> \o @]>>)
        /\ UNCHANGED out /\ Keep
RECURSIVE Return(_, _)
\* <<"more", f, w>>: f is next, or <<"done", truth>>
Return(b, w) ==
  IF w = <<>> THEN <<"done", b>>
  ELSE CASE w[1].o = "not" -> Return(~b, Tail(w))
         [] w[1].o = "and" /\ ~b -> Return(FALSE, Tail(w))
         [] w[1].o = "or" /\ b -> Return(TRUE, Tail(w))
         [] w[1].k > Len(w[1].es) -> Return(b, Tail(w))
         [] OTHER -> <<"more", w[1].es[w[1].k], <<[w[1] EXCEPT !.k = @ + 1]>> \o Tail(w)>>
Decide == /\ Is("test") /\ Top.f.k \notin {"not", "and", "or"}
          /\ \E r \in {Return(Test(Top.f, Top.n, root), Top.w)} :
                Push(IF r[1] = "more" THEN <<[Top EXCEPT !.f = r[2], !.w = r[3]]>>
                     ELSE IF r[2] THEN <<On(Top.n)>> ELSE <<>>)
          /\ UNCHANGED out /\ Keep

\* the vector for the code: the query's text, the document, the nodelist
Report(text) == /\ todo = <<>> /\ ~done
                /\ done' = TRUE
                /\ PrintT("VEC " \o ToJson(QVector(qV, text, docV, out)))
                /\ UNCHANGED <<docV, qV, todo, out>>
MStep == Emit \/ EnterChild \/ EnterDesc \/ Descend \/ NextSel \/ Scan \/ Jump \/ Open \/ Decide

(* ---- what the tasks stand for ---- *)
Truth(t) == LET RECURSIVE Up(_, _)
                Up(b, k) == IF k > Len(t.w) THEN b
                            ELSE LET f == t.w[k]
                                     rest == {Test(f.es[x], t.n, root) : x \in f.k..Len(f.es)}
                                 IN Up(CASE f.o = "not" -> ~b
                                         [] f.o = "and" -> b /\ FALSE \notin rest
                                         [] f.o = "or" -> b \/ TRUE \in rest, k + 1)
            IN Up(Test(t.f, t.n, root), 1)
From(i, ns) == EvalSegs(qV.segs, i, ns, root)
DescFrom(i, n) == LET ds == Descendants(n)
                  IN From(i + 1, FlattenSeq([x \in 1..Len(ds) |-> SelectAll(qV.segs[i].sels, ds[x], root)]))
Meaning(t) ==
  CASE t.a = "seg" -> From(t.i, <<t.n>>)
    [] t.a = "desc" -> DescFrom(t.i, t.n)
    [] t.a = "sels" -> From(t.i + 1, SelectAll(SubSeq(qV.segs[t.i].sels, t.j, Len(qV.segs[t.i].sels)), t.n, root))
    [] t.a = "scan" -> LET s == qV.segs[t.i].sels[t.j]
                           \* the selected children that are not yet scanned
                           ns == Select(s, t.n, root)
                           left == {ChildAt(t.n, x).p : x \in t.k..Kids(t.n.v)}
                       IN From(t.i + 1, IF s.k \in {"idx", "slice"} THEN ns ELSE SelectSeq(ns, LAMBDA n : n.p \in left))
    [] t.a = "test" -> IF Truth(t) THEN From(t.i + 1, <<t.n>>) ELSE <<>>
Denotes == out \o Paths(FlattenSeq([x \in 1..Len(todo) |-> Meaning(todo[x])])) = EvalPaths(qV, docV)

\* every node found is one of the document
Sound == \A x \in 1..Len(out) : Follow(docV, out[x]) # <<>>
OnlyGrows == [][Len(out') \in {Len(out), Len(out) + 1} /\ SubSeq(out', 1, Len(out)) = out]_mvars
=============================================================================

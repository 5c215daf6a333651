------------------------------ MODULE JPTrace ------------------------------
(***************************************************************************)
(* Trace validation: is a recorded history of calls of the real library a  *)
(* behaviour of JPSession?  Each line of the trace is one call with what   *)
(* it returned.  The state is what the specification knows: the documents, *)
(* the queries that handles stand for, and the node lists that were        *)
(* returned.  A line whose outcome the specification does not allow is     *)
(* reported with the clauses that it violates; the state then takes over   *)
(* what the code returned, so that the rest of the history is checked too. *)
(***************************************************************************)
EXTENDS JPKnown, JPInt, Json, IOUtils, TLC

(* Deep values come flat: their nodes in postorder, with the number or the *)
(* keys of their children                                                  *)
Unflat(f) ==
  LET kids(x) == IF x.t = "a" THEN x.n ELSE Len(x.ks)
      step(st, x) ==
        IF "n" \notin DOMAIN x /\ "ks" \notin DOMAIN x THEN Append(st, x)
        ELSE LET b == Len(st) - kids(x)
             IN Append(SubSeq(st, 1, b),
                       IF x.t = "a" THEN [t |-> "a", a |-> SubSeq(st, b + 1, Len(st))]
                       ELSE [t |-> "o", o |-> [j \in 1..Len(x.ks) |-> [k |-> x.ks[j], v |-> st[b + j]]]])
  IN FoldLeft(step, <<>>, f)[1]
Value(v) == IF v.t = "flat" THEN Unflat(v.f) ELSE v

Trace == TLCEval(LET T == ndJsonDeserialize(IOEnv.TRACE)
                 IN [j \in 1..Len(T) |-> LET e == T[j]
                      IN IF e.op \in {"doc", "docend"} THEN [e EXCEPT !.v = Value(e.v)]
                         ELSE IF e.op = "acc" THEN [e EXCEPT !.ser = Value(e.ser)] ELSE e])
N == Len(Trace)

VARIABLES lineNo,  \* lines consumed
          docs,    \* document handle -> line that has it
          hs,      \* path handle -> <<query>>, or <<>> if unknown
          ls,      \* list handle -> [n |-> paths of nodes, c |-> locations]
          nbad
vars == <<lineNo, docs, hs, ls, nbad>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

Doc(d) == Trace[docs[d]].v
Has(f, k) == k \in DOMAIN f
Viol(c, ok) == IF ok THEN {} ELSE {c}
EverySeq(s, P(_)) == \A j \in 1..Len(s) : P(s[j])

(* ---- the clauses of each kind of call ---- *)

ParseClauses(e, strict, lenient) ==
  LET st == e.r[1]
      want == IF strict.ok THEN ~OddQuery(strict.v) ELSE FALSE
  IN Viol("panic-parse", EverySeq(e.r, LAMBDA x : x # "panic"))
     \cup (IF st = "err" /\ want THEN {"reject"} ELSE {})
     \cup (IF st = "ok" /\ ~strict.ok THEN {IF lenient.ok THEN "accept-lenient" ELSE "accept"} ELSE {})
     \cup Viol("agree", EverySeq(e.r, LAMBDA x : x = st \/ x = "panic"))
     \cup Viol("equal", e.eq)
     \cup Viol("position", EverySeq(e.pos, LAMBDA x : IsBoundary(e.s, x)))
     \cup Viol("message", EverySeq(e.msg, LAMBDA x : x))

\* e.r is the nodelist of the query on the document
QueryClauses(e) == IF ~Has(hs, e.h) THEN {}
                   ELSE IF hs[e.h] = <<>> THEN {}
                   ELSE IF e.r = EvalPaths(hs[e.h][1], Doc(e.d)) THEN {}
                   ELSE LET D == Explains(hs[e.h][1], Doc(e.d), e.r)
                        IN IF D = {} THEN (IF LeftOpen(hs[e.h][1], Doc(e.d)) THEN {} ELSE {"query"}) ELSE {"known-" \o d : d \in D}

LocClauses(e) ==
  QueryClauses(e)
  \cup Viol("locnodes", e.r = e.q)
  \cup Viol("ext", e.x = e.q)
  \cup Viol("location", e.locs = e.r)
  \cup Viol("follow", EverySeq(e.locs, LAMBDA p : Follow(Doc(e.d), p) # <<>>))

MatrixClauses(e) ==
  LET c == ls[e.l].c
      n == ls[e.l].n
      K == 1..Len(e.eq)
      Sgn(a, b) == IF a = b THEN 0 ELSE IF PathLt(a, b) THEN -1 ELSE 1
  IN Viol("loceq", \A j \in K : \A k \in K : e.eq[j][k] = (n[j] = n[k]))
     \cup Viol("locorder", \A j \in K : \A k \in K : e.cmp[j][k] = Sgn(c[j], c[k]))

TextClauses(e) ==
  LET c == ls[e.l].c
      n == ls[e.l].n
      K == 1..Len(e.np)
  IN Viol("np", \A j \in K : e.np[j] = NormalPath(c[j]))
     \cup Viol("ser", \A j \in K : e.ser[j] = e.np[j] /\ e.lser[j] = e.np[j])
     \cup Viol("distinct", \A j \in K : \A k \in K : (e.np[j] = e.np[k]) => (c[j] = c[k]))
     \cup Viol("ptr", \A j \in K : e.ptr[j] = Pointer(c[j]))
     \cup Viol("ptrnode", \A j \in K : e.pn[j] = n[j])
     \cup Viol("reparse", \A j \in K : e.rp[j] = <<n[j]>>)
     \cup Viol("reloc", \A j \in K : e.rl[j] = <<c[j]>> /\ e.re[j])

\* the text of a query means the query
DispClauses(e) ==
  LET q == hs[e.h]
      r == ParseLenient(e.s)
      strict == Viol("dispparse", e.ok)
                \cup Viol("dispeq", e.ok => e.eq)
                \cup Viol("dispfix", e.ok => e.s2 = e.s)
                \cup Viol("dispsame", IF q = <<>> THEN TRUE ELSE IF r.ok THEN r.v = q[1] ELSE FALSE)
      D == IF strict = {} \/ q = <<>> THEN {} ELSE DispKnown(q[1], e.s)
  IN Viol("dispser", e.ser = e.s)
     \cup (IF D = {} THEN strict ELSE {"known-" \o d : d \in D})

(* A location is the sequence of its elements, <<1>> \o name or <<0, index>> *)
Slice0(s, a, b) == \* s[a..b) from 0 as Rust's slices, or <<>>
  IF a <= b /\ b <= Len(s) THEN <<SubSeq(s, a + 1, b)>> ELSE <<>>
RangeOf(s, r) ==
  CASE r.o = "from" -> Slice0(s, r.a, Len(s))
    [] r.o = "to" -> Slice0(s, 0, r.b)
    [] r.o = "tii" -> Slice0(s, 0, r.b + 1)
    [] r.o = "all" -> <<s>>
    [] r.o = "inc" -> Slice0(s, r.a, r.b + 1)
    [] r.o = "ex" -> Slice0(s, r.a, r.b)
ElemCmp(x, y) == IF x[1] # y[1] THEN 2 ELSE IF x = y THEN 0 ELSE IF StrLt(x, y) THEN -1 ELSE 1
PlainName(s) == \A j \in 1..Len(s) : s[j] >= 32 /\ s[j] \notin {39, 92}
ElemText(x, t) == IF x[1] = 0 THEN t = [j \in 1..Len(NatDigits(x[2])) |-> 48 + NatDigits(x[2])[j]]
                  ELSE PlainName(Tail(x)) => t = Tail(x)
ElemVal(x) == IF x[1] = 0 THEN Num(x[2]) ELSE [t |-> "s", s |-> Tail(x)]
ElemOk(r, c) ==
  LET n == Len(c)
      O(k) == IF k \in 1..n THEN <<c[k]>> ELSE <<>>
  IN Viol("elements", r.it = c /\ r.into = c /\ r.conv = c /\ r.rev = Reverse(c) /\ r.raw = c)
     \cup Viol("elemlen", r.len = n /\ r.empty = (n = 0))
     \cup Viol("elemget", \A k \in 1..Len(r.gets) : r.gets[k] = O(k))
     \cup Viol("elemends", r.first = O(1) /\ r.last = O(n))
     \cup Viol("elemrange", EverySeq(r.rg, LAMBDA x : x.r = RangeOf(c, x)))
     \cup Viol("elemeq", \A j \in 1..n : \A k \in 1..Len(r.all) :
                           r.eq[j][k] = IF c[j] = r.all[k] THEN 1 ELSE 0)
     \cup Viol("elemcmp", \A j \in 1..n : \A k \in 1..Len(r.all) : r.cmp[j][k] = ElemCmp(c[j], r.all[k]))
     \cup Viol("elemtext", \A j \in 1..n : ElemText(c[j], r.disp[j]))
     \cup Viol("elemser", \A j \in 1..n : ValEq(r.ser[j], ElemVal(c[j])))
ElemClauses(e) == UNION {ElemOk(e.e[j], ls[e.l].n[j]) : j \in 1..Len(e.e)}

\* does text t contain the decimal numeral of n, with no digit beside it?
Says(t, n) ==
  LET d == [j \in 1..Len(NatDigits(n)) |-> 48 + NatDigits(n)[j]]
      Numeral(k) == k \in 1..Len(t) /\ t[k] \in 48..57
  IN \E k \in 0..(Len(t) - Len(d)) : SubSeq(t, k + 1, k + Len(d)) = d /\ ~Numeral(k) /\ ~Numeral(k + Len(d) + 1)

Opt(s, k) == IF k \in 1..Len(s) THEN <<s[k]>> ELSE <<>>
AccClauses(e) ==
  LET n == ls[e.l].n
      c == ls[e.l].c
      len == Len(n)
      vals == [j \in 1..len |-> LET f == Follow(Doc(e.d), n[j])
                                IN IF f = <<>> THEN [t |-> "n"] ELSE f[1]]
  IN Viol("len", e.len = len)
     \cup Viol("empty", e.empty = (len = 0))
     \cup Viol("first", e.first = Opt(n, 1))
     \cup Viol("last", e.last = Opt(n, len))
     \cup Viol("get", \A j \in 1..Len(e.gets) : e.gets[j] = Opt(n, j))
     \cup Viol("at_most_one", IF len <= 1 THEN e.amo.e = 0 /\ e.amo.r = n
                              ELSE e.amo.e = len /\ e.amo.r = <<>> /\ Says(e.amo.t, len))
     \cup Viol("exactly_one", IF len = 0 THEN e.exo.e = "empty"
                              ELSE IF len = 1 THEN e.exo.e = "" /\ e.exo.r = n
                              ELSE e.exo.e = "more" /\ e.exo.n = len /\ Says(e.exo.t, len))
     \cup Viol("rebuild", e.back = n /\ e.same)
     \cup Viol("all", e.all = n)
     \cup Viol("iter", e.it = n /\ e.into = n)
     \cup Viol("serialize", ValEq(e.ser, [t |-> "a", a |-> vals]))
     \cup (IF e.kind = "loc"
           THEN Viol("nodes", e.nodes = n)
                \cup Viol("locations", e.locs = c /\ e.to = c)
                \cup Viol("serloc", e.fine /\ e.sl = e.dt /\ Len(e.sl) = len)
           ELSE Viol("one", e.one = IF len = 1 THEN n ELSE <<>>))

(* A double-ended iterator: what is left is a window of the list *)
RECURSIVE IterOk(_, _, _, _, _)
IterOk(steps, k, s, a, b) ==      \* s[a+1..b] is left
  IF k > Len(steps) THEN TRUE
  ELSE LET st == steps[k]
           left == b - a
           rest == SubSeq(s, a + 1, b)
           \* <<result, a, b, count>>
           r == CASE st.o = "next" -> IF left = 0 THEN <<<<>>, a, b, 0>> ELSE <<<<s[a + 1]>>, a + 1, b, 0>>
                  [] st.o = "back" -> IF left = 0 THEN <<<<>>, a, b, 0>> ELSE <<<<s[b]>>, a, b - 1, 0>>
                  [] st.o = "nth" -> IF st.k >= left THEN <<<<>>, b, b, 0>>
                                     ELSE <<<<s[a + st.k + 1]>>, a + st.k + 1, b, 0>>
                  [] st.o = "nthb" -> IF st.k >= left THEN <<<<>>, a, a, 0>>
                                      ELSE <<<<s[b - st.k]>>, a, b - st.k - 1, 0>>
                  [] st.o = "count" -> <<<<>>, b, b, left>>
                  [] st.o = "last" -> <<IF left = 0 THEN <<>> ELSE <<s[b]>>, b, b, 0>>
                  [] st.o = "rest" -> <<rest, b, b, 0>>
                  [] st.o = "rrest" -> <<Reverse(rest), b, b, 0>>
           n == r[3] - r[2]
       IN IF st.r = r[1] /\ st.c = r[4] /\ st.n = n /\ st.lo = n /\ st.hi = n
          THEN IterOk(steps, k + 1, s, r[2], r[3]) ELSE FALSE
IterClauses(e) ==
  LET s == IF e.by = "n" THEN ls[e.l].n ELSE ls[e.l].c
  IN Viol("iterator", IterOk(e.steps, 1, s, 0, Len(s)))

DedupClauses(e) ==
  LET c == ls[e.l].c
      n == ls[e.l].n
      want == DedupPaths(c)
      NodeOf(p) == n[CHOOSE j \in 1..Len(c) : c[j] = p]
  IN Viol("dedup", e.locs = want /\ e.n = Len(want))
     \cup Viol("dedupnodes", e.locs = want => e.r = [j \in 1..Len(want) |-> NodeOf(want[j])])
     \cup Viol("inplace", e.ilocs = e.locs /\ e.ir = e.r)
     \cup Viol("idempotent", e.alocs = e.locs /\ e.ar = e.r)

IntClauses(e) ==
  CASE e.f \in {"add", "sub", "mul", "abs"} -> Viol(e.f, e.r = IntOp(e.f, e.a, e.b))
    [] e.f = "from" -> Viol(IF e.ty = "text" THEN "text" ELSE "from",
                            e.r = IF IntInRange(e.a.ds) THEN <<e.a>> ELSE <<>>)
    [] e.f = "cmp" -> Viol("eq", EverySeq(e.eq, LAMBDA x : x = (e.a = e.b)))
                      \cup Viol("cmp", EverySeq(e.c, LAMBDA x : x = IntCmp(e.a, e.b)))

(* Paths that are equal denote the same query; the paths of one text are equal *)
SameClauses(e) ==
  LET K == 1..Len(e.hs)
      Q(j) == IF Has(hs, e.hs[j]) THEN hs[e.hs[j]] ELSE <<>>
  IN Viol("samesound", \A j \in K : \A k \in K :
                          e.eq[j][k] = 1 => Q(j) = <<>> \/ Q(k) = <<>> \/ Q(j) = Q(k))
     \cup Viol("samerefl", \A j \in K : \A k \in K : e.hs[j] = e.hs[k] => e.eq[j][k] = 1)
     \cup Viol("sameequiv", /\ \A j \in K : \A k \in K : e.eq[j][k] = e.eq[k][j] /\ e.eq[j][k] \in {0, 1}
                            /\ \A j \in K : \A k \in K : e.eq[j][k] = 1 => e.eq[j] = e.eq[k])

Clauses(e, strict, lenient) ==
  CASE e.op = "parse" -> ParseClauses(e, strict, lenient)
    [] e.op = "query" -> QueryClauses(e)
    [] e.op = "loc" -> LocClauses(e)
    [] e.op = "matrix" -> MatrixClauses(e)
    [] e.op = "text" -> TextClauses(e)
    [] e.op = "disp" -> IF Has(hs, e.h) THEN DispClauses(e) ELSE {}
    [] e.op = "acc" -> AccClauses(e)
    [] e.op = "elem" -> ElemClauses(e)
    [] e.op = "iter" -> IterClauses(e)
    [] e.op = "same" -> SameClauses(e)
    [] e.op = "dedup" -> DedupClauses(e)
    [] e.op = "int" -> IntClauses(e)
    [] e.op = "panic" -> {"panic-" \o e.in}
    [] e.op = "docend" -> Viol("docchanged", e.v = Doc(e.d))
    [] OTHER -> {}

(* ---- the behaviour ---- *)
Init == lineNo = 0 /\ docs = Empty /\ hs = Empty /\ ls = Empty /\ nbad = 0

Step(e) ==
  LET strict == IF e.op = "parse" THEN ParseStrict(e.s) ELSE Fail
      lenient == IF e.op = "parse" /\ ~strict.ok THEN ParseLenient(e.s) ELSE strict
      bad == Clauses(e, strict, lenient)
  IN /\ IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> lineNo + 1, bad |-> bad]))
     /\ nbad' = nbad + Cardinality(bad)
     /\ docs' = IF e.op = "reset" THEN Empty
                ELSE IF e.op = "doc" THEN Put(docs, e.d, lineNo + 1) ELSE docs
     /\ hs' = CASE e.op = "reset" -> Empty
                [] e.op = "parse" /\ e.r[1] = "ok" ->
                     Put(hs, e.h, IF lenient.ok THEN <<lenient.v>> ELSE <<>>)
                [] e.op = "disp" -> Put(hs, e.h2, IF ~Has(hs, e.h) THEN <<>>
                                                  ELSE IF bad = {} THEN hs[e.h]
                                                  ELSE LET r == ParseLenient(e.s) IN IF r.ok THEN <<r.v>> ELSE <<>>)
                [] OTHER -> hs
     /\ ls' = CASE e.op = "reset" -> Empty
                [] e.op = "query" -> (e.l :> [n |-> e.r, c |-> e.r])
                [] e.op = "loc" -> (e.l :> [n |-> e.r, c |-> e.locs])
                [] OTHER -> ls

Next == /\ lineNo < N
        /\ lineNo' = lineNo + 1
        /\ Step(Trace[lineNo + 1])

Spec == Init /\ [][Next]_vars
(* all of the trace has been consumed *)
Consumed == TLCGet("stats").diameter = N + 1
=============================================================================

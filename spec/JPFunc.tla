------------------------------- MODULE JPFunc -------------------------------
(***************************************************************************)
(* Function extensions: signatures, and the well-typedness of queries      *)
(* (RFC 9535, 2.4.3).  V, N, L are ValueType, NodesType, LogicalType.      *)
(*                                                                         *)
(* BuiltIn has the functions of RFC 9535.  Custom has functions that the   *)
(* conformance harness registers with the #[function] attribute; Shadow    *)
(* has ones that it registers in a second program, under the names of      *)
(* built-ins.  fn names the function's meaning, which JPEval defines.      *)
(* (The tables are generated, as code points, but are otherwise ordinary.) *)
(* Sigs, of a third program, has a function of every signature of up to    *)
(* four parameters, and of some longer ones: each "echoes" its arguments.  *)
(***************************************************************************)
EXTENDS JPParse, SequencesExt
CONSTANT Registry     \* "custom", "shadow" or "sigs": the program considered

BuiltIn == <<
  [n |-> <<108, 101, 110, 103, 116, 104>>, fn |-> "length", ps |-> <<"V">>, r |-> "V"],  \* length
  [n |-> <<99, 111, 117, 110, 116>>, fn |-> "count", ps |-> <<"N">>, r |-> "V"],  \* count
  [n |-> <<118, 97, 108, 117, 101>>, fn |-> "value", ps |-> <<"N">>, r |-> "V"],  \* value
  [n |-> <<109, 97, 116, 99, 104>>, fn |-> "match", ps |-> <<"V", "V">>, r |-> "L"],  \* match
  [n |-> <<115, 101, 97, 114, 99, 104>>, fn |-> "search", ps |-> <<"V", "V">>, r |-> "L"]  \* search
>>
Custom == <<
  [n |-> <<120>>, fn |-> "vid", ps |-> <<"V">>, r |-> "V"],  \* x
  [n |-> <<111, 110, 101>>, fn |-> "one", ps |-> <<>>, r |-> "V"],  \* one
  [n |-> <<110, 111, 116, 104, 105, 110, 103>>, fn |-> "nothing", ps |-> <<>>, r |-> "V"],  \* nothing
  [n |-> <<118, 105, 100, 50>>, fn |-> "vid", ps |-> <<"V">>, r |-> "V"],  \* vid2
  [n |-> <<110, 117, 108, 108, 105, 102, 121>>, fn |-> "vid", ps |-> <<"V">>, r |-> "V"],  \* nullify
  [n |-> <<116, 114, 117, 101, 95, 118>>, fn |-> "vid", ps |-> <<"V">>, r |-> "V"],  \* true_v
  [n |-> <<102, 105, 114, 115, 116>>, fn |-> "first", ps |-> <<"N">>, r |-> "V"],  \* first
  [n |-> <<108, 118, 97, 108>>, fn |-> "lval", ps |-> <<"L">>, r |-> "V"],  \* lval
  [n |-> <<112, 97, 105, 114>>, fn |-> "pair", ps |-> <<"V", "V">>, r |-> "V"],  \* pair
  [n |-> <<116, 114, 105, 112>>, fn |-> "trip", ps |-> <<"V", "N", "L">>, r |-> "V"],  \* trip
  [n |-> <<113, 117, 97, 100>>, fn |-> "quad", ps |-> <<"L", "L", "N", "V">>, r |-> "V"],  \* quad
  [n |-> <<110, 105, 100>>, fn |-> "nid", ps |-> <<"N">>, r |-> "N"],  \* nid
  [n |-> <<114, 101, 118>>, fn |-> "rev", ps |-> <<"N">>, r |-> "N"],  \* rev
  [n |-> <<110, 101, 109, 112, 116, 121>>, fn |-> "nempty", ps |-> <<>>, r |-> "N"],  \* nempty
  [n |-> <<116, 119, 105, 99, 101>>, fn |-> "twice", ps |-> <<"N">>, r |-> "N"],  \* twice
  [n |-> <<106, 111, 105, 110>>, fn |-> "join", ps |-> <<"N", "N">>, r |-> "N"],  \* join
  [n |-> <<108, 105, 100>>, fn |-> "lid", ps |-> <<"L">>, r |-> "L"],  \* lid
  [n |-> <<108, 110, 111, 116>>, fn |-> "lnot", ps |-> <<"L">>, r |-> "L"],  \* lnot
  [n |-> <<102, 97, 108, 115, 101, 95, 110, 111, 116>>, fn |-> "ltrue", ps |-> <<>>, r |-> "L"],  \* false_not
  [n |-> <<108, 102, 97, 108, 115, 101>>, fn |-> "lfalse", ps |-> <<>>, r |-> "L"],  \* lfalse
  [n |-> <<105, 115, 95, 110, 111, 116, 104, 105, 110, 103>>, fn |-> "isnothing", ps |-> <<"V">>, r |-> "L"],  \* is_nothing
  [n |-> <<108, 98, 111, 116, 104>>, fn |-> "lboth", ps |-> <<"L", "L">>, r |-> "L"],  \* lboth
  [n |-> <<104, 97, 115, 110>>, fn |-> "hasn", ps |-> <<"N">>, r |-> "L"],  \* hasn
  [n |-> <<115, 97, 109, 101>>, fn |-> "same", ps |-> <<"V", "V">>, r |-> "L"]  \* same
>>
Shadow == <<
  [n |-> <<108, 101, 110, 103, 116, 104>>, fn |-> "vid", ps |-> <<"V">>, r |-> "V"],  \* length
  [n |-> <<99, 111, 117, 110, 116>>, fn |-> "lval", ps |-> <<"L">>, r |-> "V"],  \* count
  [n |-> <<109, 97, 116, 99, 104>>, fn |-> "lboth", ps |-> <<"L", "L">>, r |-> "L"],  \* match
  [n |-> <<118, 97, 108, 117, 101>>, fn |-> "nid", ps |-> <<"N">>, r |-> "N"]  \* value
>>

(* f, a letter for each parameter, an underscore, a letter for the result *)
AllTypes == <<"V", "N", "L">>
Letter == [V |-> 118, N |-> 110, L |-> 108]
Echo(ps, r) == [n |-> <<102>> \o [i \in 1..Len(ps) |-> Letter[ps[i]]] \o <<95, Letter[r]>>, fn |-> "echo", ps |-> ps, r |-> r]
Power3 == <<1, 3, 9, 27, 81>>
Trits(m, len) == [i \in 1..len |-> AllTypes[1 + ((m \div Power3[len - i + 1]) % 3)]]
Sigs ==
  FlattenSeq([l \in 1..4 |-> FlattenSeq([m \in 1..Power3[l] |-> [r \in 1..3 |-> Echo(Trits(m - 1, l - 1), AllTypes[r])]])])
  \o [m \in 1..81 |-> Echo(Trits(m - 1, 4), AllTypes[1 + (m % 3)])]
  \o [m \in 1..12 |-> Echo([i \in 1..(4 + m) |-> AllTypes[1 + ((i + m) % 3)]], AllTypes[1 + (m % 3)])]
  \o [m \in 1..3 |-> Echo([i \in 1..5 |-> AllTypes[m]], "V")]
  \* names: each the beginning of another one
  \o [m \in 1..4 |-> [n |-> <<<<103>>, <<103, 95>>, <<103, 95, 95>>, <<103, 95, 95, 49>>>>[m], fn |-> "echo", ps |-> [i \in 1..m |-> "V"], r |-> "V"]]
  \o <<[n |-> <<103, 48>>, fn |-> "echo", ps |-> <<"N">>, r |-> "V"], [n |-> <<103, 48, 57>>, fn |-> "echo", ps |-> <<"L">>, r |-> "V"],
        [n |-> [i \in 1..300 |-> 122], fn |-> "echo", ps |-> <<"V">>, r |-> "V"]>>

\* Registered functions come first
Table == (CASE Registry = "shadow" -> Shadow [] Registry = "sigs" -> Sigs [] OTHER -> Custom) \o BuiltIn

\* without those that others take the place of
Seen == FoldLeft(LAMBDA acc, x : IF \E j \in 1..Len(acc) : acc[j].n = x.n THEN acc ELSE Append(acc, x), <<>>, Table)
Lookup(name) ==      \* <<>> or <<signature>>
  IF \E i \in 1..Len(Seen) : Seen[i].n = name THEN <<Seen[CHOOSE i \in 1..Len(Seen) : Seen[i].n = name]>> ELSE <<>>
Sig(name) == Lookup(name)[1]

RECURSIVE WTQuery(_), WTExpr(_), WTCall(_)

RetOf(c) == LET s == Lookup(c.fn) IN IF s = <<>> THEN "?" ELSE s[1].r

\* may the argument be converted to a parameter of type ty?
Converts(a, ty) ==
  CASE a.k = "lit" -> ty = "V"
    [] a.k = "log" -> ty = "L"
    [] a.k = "qry" -> ty = "V" => IsSingular(a.q)
    [] a.k = "call" -> \/ RetOf(a.c) = ty
                       \/ RetOf(a.c) = "N" /\ ty = "L"

WTArg(a) == CASE a.k = "lit" -> TRUE
              [] a.k = "log" -> WTExpr(a.f)
              [] a.k = "qry" -> WTQuery(a.q)
              [] a.k = "call" -> WTCall(a.c)

WTCall(c) ==
  LET s == Lookup(c.fn) IN
  IF s = <<>> THEN FALSE
  ELSE IF Len(s[1].ps) # Len(c.args) THEN FALSE
  ELSE \A i \in 1..Len(c.args) : WTArg(c.args[i]) /\ Converts(c.args[i], s[1].ps[i])

WTExpr(f) ==
  CASE f.k = "or" \/ f.k = "and" -> \A i \in 1..Len(f.es) : WTExpr(f.es[i])
    [] f.k = "not" -> WTExpr(f.f)
    [] f.k = "test" -> WTQuery(f.q)
    [] f.k = "ftest" -> WTCall(f.c) /\ RetOf(f.c) \in {"L", "N"}
    [] f.k = "cmp" -> /\ WTArg(f.l)
                      /\ WTArg(f.r)
                      /\ (f.l.k = "call" => RetOf(f.l.c) = "V")
                      /\ (f.r.k = "call" => RetOf(f.r.c) = "V")

WTQuery(q) ==
  \A i \in 1..Len(q.segs) : \A j \in 1..Len(q.segs[i].sels) :
    q.segs[i].sels[j].k = "filt" => WTExpr(q.segs[i].sels[j].f)

(* What JsonPath::parse must do with a text *)
ParseStrict(text) == LET r == ParseText(Strict(text))
                     IN IF r.ok THEN IF WTQuery(r.v) THEN r ELSE Fail ELSE Fail
ParseLenient(text) == LET r == ParseText(Lenient(text))
                      IN IF r.ok THEN IF WTQuery(r.v) THEN r ELSE Fail ELSE Fail
=============================================================================

------------------------------- MODULE JPText -------------------------------
(***************************************************************************)
(* From abstract syntax back to text, in a style:                          *)
(*   q    the quote of names and strings: 39 or 34                         *)
(*   b    blank space put wherever the grammar has S                       *)
(*   sh   shorthands: .name and .* where they exist                        *)
(*   esc  FALSE: only what must be escaped is; TRUE: all is, by \u         *)
(*   par  parentheses around every logical subexpression                   *)
(*   tw   and these are doubled                                            *)
(* For every style, ParseStrict(Text(q, st)).v = q: MC_Text checks this.   *)
(***************************************************************************)
EXTENDS JPPrint

\* ASCII text as code points, to write specifications with
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
T(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

Style(q, b, sh, esc, par) == [q |-> q, b |-> b, sh |-> sh, esc |-> esc, par |-> par, tw |-> FALSE]
Plain == Style(39, <<>>, TRUE, FALSE, FALSE)
Bracketed == Style(34, <<>>, FALSE, FALSE, FALSE)
Spaced == Style(39, <<32>>, TRUE, FALSE, TRUE)
Loose == Style(34, <<9, 10, 13, 32>>, FALSE, TRUE, TRUE)
Layered == [Plain EXCEPT !.par = TRUE, !.tw = TRUE]
Styles == {Plain, Bracketed, Spaced, Loose, Layered}

Join(ss, sep) == FlattenSeq([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

Hex4Text(u) == <<92, 117, HexDigit(u \div 4096), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
CharText(c, st) ==
  IF st.esc THEN IF c < 65536 THEN Hex4Text(c)
                 ELSE Hex4Text(55296 + ((c - 65536) \div 1024)) \o Hex4Text(56320 + ((c - 65536) % 1024))
  ELSE IF c = st.q \/ c = 92 THEN <<92, c>>
  ELSE IF c < 32 THEN (IF c \in {8, 9, 10, 12, 13} THEN NormalChar(c) ELSE Hex4Text(c))
  ELSE <<c>>
StringText(s, st) == <<st.q>> \o FlattenSeq([i \in 1..Len(s) |-> CharText(s[i], st)]) \o <<st.q>>
IsShort(s) == Len(s) > 0 /\ IsNameFirst(s[1]) /\ \A i \in 1..Len(s) : IsNameChar(s[i])

DigitText(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
IntText(i) == (IF i.neg THEN <<45>> ELSE <<>>) \o DigitText(i.ds)
\* one numeral for a decimal: digits and, unless it is 0, an exponent
NumDigits(d) == (IF d.neg THEN <<45>> ELSE <<>>)
              \o (IF d.ds = <<>> THEN <<48>> ELSE DigitText(d.ds))
              \o (IF d.e = 0 THEN <<>>
                  ELSE IF 0 < d.e /\ d.e + Len(d.ds) < 21 THEN [i \in 1..d.e |-> 48]
                  ELSE <<101>> \o (IF d.e < 0 THEN <<45>> ELSE <<>>) \o Decimal(IF d.e < 0 THEN -d.e ELSE d.e))
NumText(d) == LET t == NumDigits(d)
              IN IF d.f /\ \A i \in 1..Len(t) : t[i] # 101 THEN t \o <<46, 48>> ELSE t
LitText(v, st) == CASE v.t = "n" -> T("null")
                    [] v.t = "b" -> IF v.b THEN T("true") ELSE T("false")
                    [] v.t = "d" -> NumText(v)
                    [] v.t = "s" -> StringText(v.s, st)

RECURSIVE QText(_, _, _), Paren(_, _), ExprText(_, _), ArgText(_, _, _), CallText(_, _)

SelText(sel, st) ==
  CASE sel.k = "name" -> StringText(sel.s, st)
    [] sel.k = "wild" -> <<42>>
    [] sel.k = "idx" -> IntText(sel.i)
    [] sel.k = "slice" -> (IF sel.st = <<>> THEN <<>> ELSE IntText(sel.st[1]) \o st.b) \o <<58>>
                          \o (IF sel.en = <<>> THEN <<>> ELSE st.b \o IntText(sel.en[1]))
                          \o (IF sel.sp = <<>> THEN <<>> ELSE st.b \o <<58>> \o st.b \o IntText(sel.sp[1]))
    [] sel.k = "filt" -> <<63>> \o st.b \o (IF st.tw /\ sel.f.k \in {"and", "or"} THEN Paren(ExprText(sel.f, st), st) ELSE ExprText(sel.f, st))

\* `one`: the query must be a singular query syntactically
SegText(sg, st, one) ==
  LET b == IF one THEN <<>> ELSE st.b
      sel == sg.sels[1]
      short == st.sh /\ Len(sg.sels) = 1 /\ (sel.k = "wild" \/ (sel.k = "name" /\ IsShort(sel.s)))
  IN st.b \o
     IF short THEN (IF sg.desc THEN <<46, 46>> ELSE <<46>>) \o (IF sel.k = "wild" THEN <<42>> ELSE sel.s)
     ELSE (IF sg.desc THEN <<46, 46>> ELSE <<>>) \o <<91>> \o b
          \o Join([i \in 1..Len(sg.sels) |-> SelText(sg.sels[i], st)], b \o <<44>> \o b)
          \o b \o <<93>>
QText(q, st, one) == (IF q.abs THEN <<36>> ELSE <<64>>)
                     \o FlattenSeq([i \in 1..Len(q.segs) |-> SegText(q.segs[i], st, one)])

Paren1(t, st) == <<40>> \o st.b \o t \o st.b \o <<41>>
Paren(t, st) == IF st.tw THEN Paren1(Paren1(t, st), st) ELSE Paren1(t, st)
\* an operand of &&, || or ! : `must` if it has to be in parentheses
Within(f, st, must) == IF must \/ (st.par /\ f.k \notin {"not"}) THEN Paren(ExprText(f, st), st) ELSE ExprText(f, st)
ExprText(f, st) ==
  CASE f.k = "or" -> Join([i \in 1..Len(f.es) |-> Within(f.es[i], st, f.es[i].k = "or")], st.b \o <<124, 124>> \o st.b)
    [] f.k = "and" -> Join([i \in 1..Len(f.es) |-> Within(f.es[i], st, f.es[i].k \in {"or", "and"})], st.b \o <<38, 38>> \o st.b)
    [] f.k = "not" -> <<33>> \o st.b \o Within(f.f, st, f.f.k \notin {"test", "ftest"})
    [] f.k = "test" -> QText(f.q, st, FALSE)
    [] f.k = "ftest" -> CallText(f.c, st)
    [] f.k = "cmp" -> ArgText(f.l, st, TRUE) \o st.b \o T(f.op) \o st.b \o ArgText(f.r, st, TRUE)
ArgText(a, st, one) == CASE a.k = "lit" -> LitText(a.v, st)
                         [] a.k = "qry" -> QText(a.q, st, one)
                         [] a.k = "call" -> CallText(a.c, st)
                         [] a.k = "log" -> IF a.f.k \in {"test", "ftest"} THEN Paren(ExprText(a.f, st), st) ELSE ExprText(a.f, st)
CallText(c, st) == c.fn \o <<40>> \o st.b
                   \o Join([i \in 1..Len(c.args) |-> ArgText(c.args[i], st, FALSE)], st.b \o <<44>> \o st.b)
                   \o st.b \o <<41>>

Text(q, st) == <<>> \o QText(q, st, FALSE)      \* the empty sequence has TLC evaluate the text once

(* ---- constructors of abstract syntax ---- *)
I(n) == [neg |-> n < 0, ds |-> NatDigits(IF n < 0 THEN -n ELSE n)]
BigI == [neg |-> FALSE, ds |-> MaxInt]
BigNegI == [neg |-> TRUE, ds |-> MaxInt]
Name(s) == [k |-> "name", s |-> s]
Wild == [k |-> "wild"]
Idx(n) == [k |-> "idx", i |-> I(n)]
Slice(a, b, c) == [k |-> "slice", st |-> a, en |-> b, sp |-> c]
Filt(f) == [k |-> "filt", f |-> f]
Child(sels) == Seg(FALSE, sels)
Desc(sels) == Seg(TRUE, sels)
AbsQ(segs) == [abs |-> TRUE, segs |-> segs]
RelQ(segs) == [abs |-> FALSE, segs |-> segs]
Exists(q) == [k |-> "test", q |-> q]
Not(f) == [k |-> "not", f |-> f]
And(es) == [k |-> "and", es |-> es]
Or(es) == [k |-> "or", es |-> es]
Cmp(l, op, r) == [k |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit(v) == [k |-> "lit", v |-> v]
Qry(q) == [k |-> "qry", q |-> q]
CallOf(fn, args) == [fn |-> fn, args |-> args]
CallArg(fn, args) == [k |-> "call", c |-> CallOf(fn, args)]
FTest(fn, args) == [k |-> "ftest", c |-> CallOf(fn, args)]
Log(f) == [k |-> "log", f |-> f]

(* ---- constructors of values ---- *)
Null == [t |-> "n"]
Str(s) == [t |-> "s", s |-> s]
Arr(s) == [t |-> "a", a |-> s]
Obj(kvs) == [t |-> "o", o |-> [i \in 1..Len(kvs) |-> [k |-> kvs[i][1], v |-> kvs[i][2]]]]   \* keys in order
=============================================================================

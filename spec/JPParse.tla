------------------------------ MODULE JPParse ------------------------------
(***************************************************************************)
(* From query text to abstract syntax: a deterministic reading of the ABNF *)
(* of RFC 9535 (JPGrammar has the ABNF itself; MC_Grammar shows that the   *)
(* two accept the same strings).                                           *)
(*                                                                         *)
(* A text is a sequence of code points that ends in a sentinel: -1, or -2  *)
(* for the lenient dialect, which differs in one point only: blank space   *)
(* is allowed within the brackets of a singular query.                     *)
(*                                                                         *)
(* Abstract syntax                                                         *)
(*   query   [abs: BOOLEAN, segs: Seq(segment)]                            *)
(*   segment [desc: BOOLEAN, sels: Seq(selector)]                          *)
(*   selector [k |-> "name", s: string] | [k |-> "wild"]                   *)
(*          | [k |-> "idx", i: integer]                                    *)
(*          | [k |-> "slice", st, en, sp: <<>> or <<integer>>]             *)
(*          | [k |-> "filt", f: expression]                                *)
(*   expression [k |-> "or" / "and", es: Seq(expression)]                  *)
(*          | [k |-> "not", f: expression]                                 *)
(*          | [k |-> "test", q: query] | [k |-> "ftest", c: call]          *)
(*          | [k |-> "cmp", op: string, l, r: operand]                     *)
(*   operand [k |-> "lit", v: value] | [k |-> "qry", q: query]             *)
(*          | [k |-> "call", c: call]                                      *)
(*   call    [fn: string, args: Seq(operand or [k |-> "log", f])]          *)
(*   integer [neg: BOOLEAN, ds: Seq(digit)]                                *)
(* A sequence of one operand of && or || is that operand; parentheses are  *)
(* only grouping; .name and ['name'] are the same.                         *)
(***************************************************************************)
EXTENDS JPValue

Strict(text) == Append(text, -1)
Lenient(text) == Append(text, -2)

Fail == [ok |-> FALSE]
Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

IsBlank(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13
IsDigit(c) == 48 <= c /\ c <= 57
IsLower(c) == 97 <= c /\ c <= 122
IsFnChar(c) == IsLower(c) \/ IsDigit(c) \/ c = 95
IsNameFirst(c) == IsLower(c) \/ (65 <= c /\ c <= 90) \/ c = 95 \/ c >= 128
IsNameChar(c) == IsNameFirst(c) \/ IsDigit(c)

RECURSIVE SkipS(_, _)
SkipS(s, p) == IF IsBlank(s[p]) THEN SkipS(s, p + 1) ELSE p
RECURSIVE SkipDigits(_, _)
SkipDigits(s, p) == IF IsDigit(s[p]) THEN SkipDigits(s, p + 1) ELSE p
RECURSIVE SkipName(_, _)
SkipName(s, p) == IF IsNameChar(s[p]) THEN SkipName(s, p + 1) ELSE p
RECURSIVE SkipFn(_, _)
SkipFn(s, p) == IF IsFnChar(s[p]) THEN SkipFn(s, p + 1) ELSE p

(* ---- string literals ---- *)
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF 65 <= c /\ c <= 70 THEN c - 55
             ELSE IF 97 <= c /\ c <= 102 THEN c - 87
             ELSE -1
Hex4(s, p) ==  \* four hex digits at p, or -1; never looks past the sentinel
  LET a == HexVal(s[p]) IN IF a < 0 THEN -1 ELSE
  LET b == HexVal(s[p+1]) IN IF b < 0 THEN -1 ELSE
  LET c == HexVal(s[p+2]) IN IF c < 0 THEN -1 ELSE
  LET d == HexVal(s[p+3]) IN IF d < 0 THEN -1 ELSE
  4096 * a + 256 * b + 16 * c + d
IsHigh(u) == 55296 <= u /\ u <= 56319   \* D800-DBFF
IsLow(u)  == 56320 <= u /\ u <= 57343   \* DC00-DFFF

RECURSIVE PStr(_, _, _, _)
PStr(s, p, q, acc) ==
  LET c == s[p] IN
  IF c = q THEN Ok(p + 1, acc)
  ELSE IF c < 32 THEN Fail                \* control character, or the end
  ELSE IF c # 92 THEN PStr(s, p + 1, q, Append(acc, c))
  ELSE LET d == s[p+1]
           Esc(x) == PStr(s, p + 2, q, Append(acc, x))
       IN CASE d = 98 -> Esc(8)
            [] d = 116 -> Esc(9)
            [] d = 110 -> Esc(10)
            [] d = 102 -> Esc(12)
            [] d = 114 -> Esc(13)
            [] d = 47 -> Esc(47)
            [] d = 92 -> Esc(92)
            [] d = q -> Esc(q)
            [] d = 117 ->
                 LET u == Hex4(s, p + 2) IN
                 IF u < 0 \/ IsLow(u) THEN Fail
                 ELSE IF ~IsHigh(u) THEN PStr(s, p + 6, q, Append(acc, u))
                 ELSE IF s[p+6] # 92 THEN Fail
                 ELSE IF s[p+7] # 117 THEN Fail
                 ELSE LET w == Hex4(s, p + 8) IN
                      IF ~IsLow(w) THEN Fail
                      ELSE PStr(s, p + 12, q,
                                Append(acc, 65536 + 1024 * (u - 55296) + (w - 56320)))
            [] OTHER -> Fail
PString(s, p) == IF s[p] = 34 \/ s[p] = 39 THEN PStr(s, p + 1, s[p], <<>>) ELSE Fail

(* ---- integers and numbers ---- *)
Digits(s, a, b) == [i \in 1..(b - a) |-> s[a + i - 1] - 48]

\* int = "0" / (["-"] DIGIT1 *DIGIT); the value is [neg, ds]
PIntText(s, p) ==
  IF s[p] = 48 THEN Ok(p + 1, [neg |-> FALSE, ds |-> <<0>>])
  ELSE LET neg == s[p] = 45
           a == IF neg THEN p + 1 ELSE p
       IN IF IsDigit(s[a]) /\ s[a] # 48
          THEN LET b == SkipDigits(s, a + 1) IN Ok(b, [neg |-> neg, ds |-> Digits(s, a, b)])
          ELSE Fail
PInt(s, p) == LET r == PIntText(s, p)
              IN IF r.ok THEN IF IntInRange(r.v.ds) THEN r ELSE Fail ELSE Fail

\* exponents are small in everything that is in scope
ExpVal(ds) == LET a == StripLead(ds, 1)
              IN IF Len(a) > 4 THEN 100000 ELSE DigitsVal(a, Len(a))

\* number = (int / "-0") [frac] [exp]
PNumber(s, p) ==
  LET neg == s[p] = 45
      a == IF neg THEN p + 1 ELSE p
  IN IF ~IsDigit(s[a]) THEN Fail
     ELSE LET b == IF s[a] = 48 THEN a + 1 ELSE SkipDigits(s, a)
              hasFrac == s[b] = 46 /\ IsDigit(s[b+1])
              c == IF hasFrac THEN SkipDigits(s, b + 1) ELSE b
              isE == s[c] = 101 \/ s[c] = 69
              esgn == isE /\ (s[c+1] = 45 \/ s[c+1] = 43)
              d == IF esgn THEN c + 2 ELSE c + 1
              hasExp == isE /\ IsDigit(s[d])
              f == IF hasExp THEN SkipDigits(s, d) ELSE c
              ip == Digits(s, a, b)
              fp == IF hasFrac THEN Digits(s, b + 1, c) ELSE <<>>
              x == IF hasExp THEN ExpVal(Digits(s, d, f)) ELSE 0
              ex == IF esgn /\ s[c+1] = 45 THEN -x ELSE x
              z == StripLead(ip, 1)
              float == hasFrac \/ hasExp \/ (neg /\ z = <<>>) \/ Beyond64(neg, z)
          IN Ok(f, DecF(neg, ip \o fp, ex - Len(fp), float))

(* ---- mutually recursive part ---- *)
RECURSIVE PSegs(_, _, _), PSels(_, _, _), PSel(_, _), POr(_, _), POrRest(_, _, _),
          PAnd(_, _), PAndRest(_, _, _), PBasic(_, _), PCall(_, _), PArgs(_, _, _)

PQuery(s, p) ==
  IF s[p] = 36 \/ s[p] = 64
  THEN LET r == PSegs(s, p + 1, <<>>)
       IN IF r.ok THEN Ok(r.p, [abs |-> s[p] = 36, segs |-> r.v]) ELSE Fail
  ELSE Fail

Seg(desc, sels) == [desc |-> desc, sels |-> sels]

PSegs(s, p, acc) ==
  LET q == SkipS(s, p)
      Bracket(x, desc) == LET r == PSels(s, SkipS(s, x + 1), <<>>)
                          IN IF r.ok THEN PSegs(s, r.p, Append(acc, Seg(desc, r.v))) ELSE Fail
      Short(x, desc) ==
        IF s[x] = 42 THEN PSegs(s, x + 1, Append(acc, Seg(desc, <<[k |-> "wild"]>>)))
        ELSE IF IsNameFirst(s[x])
        THEN LET y == SkipName(s, x + 1)
             IN PSegs(s, y, Append(acc, Seg(desc, <<[k |-> "name", s |-> SubSeq(s, x, y - 1)]>>)))
        ELSE Fail
  IN IF s[q] = 91 THEN Bracket(q, FALSE)
     ELSE IF s[q] # 46 THEN Ok(p, acc)
     ELSE IF s[q+1] # 46 THEN Short(q + 1, FALSE)
     ELSE IF s[q+2] = 91 THEN Bracket(q + 2, TRUE)
     ELSE Short(q + 2, TRUE)

PSels(s, p, acc) ==
  LET r == PSel(s, p) IN
  IF ~r.ok THEN Fail
  ELSE LET q == SkipS(s, r.p) IN
       IF s[q] = 44 THEN PSels(s, SkipS(s, q + 1), Append(acc, r.v))
       ELSE IF s[q] = 93 THEN Ok(q + 1, Append(acc, r.v))
       ELSE Fail

\* [int S] ":" S [int S] [":" [S int]]
PSlice(s, p, start) ==   \* s[p] is the first colon
  LET a == SkipS(s, p + 1)
      i == PInt(s, a)
      en == IF i.ok THEN <<i.v>> ELSE <<>>
      ae == IF i.ok THEN i.p ELSE p + 1
      b == SkipS(s, ae)
  IN IF s[b] # 58
     THEN Ok(ae, [k |-> "slice", st |-> start, en |-> en, sp |-> <<>>])
     ELSE LET c == SkipS(s, b + 1)
              j == PInt(s, c)
          IN IF j.ok THEN Ok(j.p, [k |-> "slice", st |-> start, en |-> en, sp |-> <<j.v>>])
             ELSE Ok(b + 1, [k |-> "slice", st |-> start, en |-> en, sp |-> <<>>])

PSel(s, p) ==
  LET c == s[p] IN
  IF c = 42 THEN Ok(p + 1, [k |-> "wild"])
  ELSE IF c = 34 \/ c = 39
  THEN LET r == PString(s, p) IN IF r.ok THEN Ok(r.p, [k |-> "name", s |-> r.v]) ELSE Fail
  ELSE IF c = 63
  THEN LET r == POr(s, SkipS(s, p + 1)) IN IF r.ok THEN Ok(r.p, [k |-> "filt", f |-> r.v]) ELSE Fail
  ELSE IF c = 58 THEN PSlice(s, p, <<>>)
  ELSE LET i == PInt(s, p) IN
       IF ~i.ok THEN Fail
       ELSE LET q == SkipS(s, i.p) IN
            IF s[q] = 58 THEN PSlice(s, q, <<i.v>>)
            ELSE Ok(i.p, [k |-> "idx", i |-> i.v])

One(k, es) == IF Len(es) = 1 THEN es[1] ELSE [k |-> k, es |-> es]

POr(s, p) == LET r == PAnd(s, p) IN IF r.ok THEN POrRest(s, r.p, <<r.v>>) ELSE Fail
POrRest(s, p, acc) ==
  LET q == SkipS(s, p) IN
  IF s[q] = 124
  THEN IF s[q+1] # 124 THEN Fail
       ELSE LET r == PAnd(s, SkipS(s, q + 2))
            IN IF r.ok THEN POrRest(s, r.p, Append(acc, r.v)) ELSE Fail
  ELSE Ok(p, One("or", acc))
PAnd(s, p) == LET r == PBasic(s, p) IN IF r.ok THEN PAndRest(s, r.p, <<r.v>>) ELSE Fail
PAndRest(s, p, acc) ==
  LET q == SkipS(s, p) IN
  IF s[q] = 38
  THEN IF s[q+1] # 38 THEN Fail
       ELSE LET r == PBasic(s, SkipS(s, q + 2))
            IN IF r.ok THEN PAndRest(s, r.p, Append(acc, r.v)) ELSE Fail
  ELSE Ok(p, One("and", acc))

\* comparison operator at p: <<length, op>>
OpAt(s, p) ==
  CASE s[p] = 61 -> IF s[p+1] = 61 THEN <<2, "==">> ELSE <<0, "">>
    [] s[p] = 33 -> IF s[p+1] = 61 THEN <<2, "!=">> ELSE <<0, "">>
    [] s[p] = 60 -> IF s[p+1] = 61 THEN <<2, "<=">> ELSE <<1, "<">>
    [] s[p] = 62 -> IF s[p+1] = 61 THEN <<2, ">=">> ELSE <<1, ">">>
    [] OTHER -> <<0, "">>

IsSingular(q) == \A i \in 1..Len(q.segs) :
  /\ ~q.segs[i].desc
  /\ Len(q.segs[i].sels) = 1
  /\ q.segs[i].sels[1].k \in {"name", "idx"}

\* Singular-query syntax proper, from p to exactly e: no blank space in brackets
RECURSIVE SingularText(_, _, _)
SingularText(s, p, e) ==
  IF p = e THEN TRUE
  ELSE LET q == SkipS(s, p) IN
       IF s[q] = 46 THEN SingularText(s, SkipName(s, q + 1), e)
       ELSE LET r == IF s[q+1] = 34 \/ s[q+1] = 39 THEN PString(s, q + 1) ELSE PInt(s, q + 1)
            IN IF ~r.ok THEN FALSE
               ELSE IF s[r.p] # 93 THEN FALSE ELSE SingularText(s, r.p + 1, e)

Keyword(s, a, b) ==   \* the literal spelled by s[a..b-1], or Fail
  LET w == SubSeq(s, a, b - 1) IN
  IF w = <<116, 114, 117, 101>> THEN Ok(b, [t |-> "b", b |-> TRUE])
  ELSE IF w = <<102, 97, 108, 115, 101>> THEN Ok(b, [t |-> "b", b |-> FALSE])
  ELSE IF w = <<110, 117, 108, 108>> THEN Ok(b, [t |-> "n"])
  ELSE Fail

PLiteral(s, p) ==
  IF s[p] = 34 \/ s[p] = 39
  THEN LET r == PString(s, p) IN IF r.ok THEN Ok(r.p, [t |-> "s", s |-> r.v]) ELSE Fail
  ELSE IF IsLower(s[p]) THEN Keyword(s, p, SkipFn(s, p))
  ELSE PNumber(s, p)

IsCallAt(s, p) == IsLower(s[p]) /\ s[SkipFn(s, p)] = 40

\* an operand of any kind: literal, query or call
POperand(s, p) ==
  IF s[p] = 36 \/ s[p] = 64
  THEN LET r == PQuery(s, p) IN IF r.ok THEN Ok(r.p, [k |-> "qry", q |-> r.v]) ELSE Fail
  ELSE IF IsCallAt(s, p)
  THEN LET r == PCall(s, p) IN IF r.ok THEN Ok(r.p, [k |-> "call", c |-> r.v]) ELSE Fail
  ELSE LET r == PLiteral(s, p) IN IF r.ok THEN Ok(r.p, [k |-> "lit", v |-> r.v]) ELSE Fail

\* may the operand read from p to r.p stand in a comparison?
Comparable(s, p, r) ==
  r.v.k = "qry" => IF IsSingular(r.v.q)
                   THEN \/ s[Len(s)] = -2
                        \/ SingularText(s, p + 1, r.p)
                   ELSE FALSE

PBasic(s, p) ==
  IF s[p] = 33
  THEN LET q == SkipS(s, p + 1)
           r == IF s[q] = 40 THEN PBasic(s, q)
                ELSE LET x == POperand(s, q) IN
                     IF ~x.ok THEN Fail
                     ELSE CASE x.v.k = "qry" -> Ok(x.p, [k |-> "test", q |-> x.v.q])
                            [] x.v.k = "call" -> Ok(x.p, [k |-> "ftest", c |-> x.v.c])
                            [] OTHER -> Fail
       IN IF r.ok THEN Ok(r.p, [k |-> "not", f |-> r.v]) ELSE Fail
  ELSE IF s[p] = 40
  THEN LET r == POr(s, SkipS(s, p + 1)) IN
       IF ~r.ok THEN Fail
       ELSE LET q == SkipS(s, r.p) IN IF s[q] = 41 THEN Ok(q + 1, r.v) ELSE Fail
  ELSE LET l == POperand(s, p) IN
       IF ~l.ok THEN Fail
       ELSE LET q == SkipS(s, l.p)
                op == OpAt(s, q)
            IN IF op[1] > 0
               THEN IF ~Comparable(s, p, l) THEN Fail
                    ELSE LET z == SkipS(s, q + op[1])
                             r == POperand(s, z)
                         IN IF ~r.ok THEN Fail
                            ELSE IF ~Comparable(s, z, r) THEN Fail
                            ELSE Ok(r.p, [k |-> "cmp", op |-> op[2], l |-> l.v, r |-> r.v])
               ELSE CASE l.v.k = "qry" -> Ok(l.p, [k |-> "test", q |-> l.v.q])
                      [] l.v.k = "call" -> Ok(l.p, [k |-> "ftest", c |-> l.v.c])
                      [] OTHER -> Fail

PCall(s, p) ==
  LET n == SkipFn(s, p)                   \* s[n] is the opening parenthesis
      a == SkipS(s, n + 1)
      r == IF s[a] = 41 THEN Ok(a + 1, <<>>) ELSE PArgs(s, a, <<>>)
  IN IF r.ok THEN Ok(r.p, [fn |-> SubSeq(s, p, n - 1), args |-> r.v]) ELSE Fail

PArg(s, p) ==
  LET x == IF s[p] = 33 \/ s[p] = 40 THEN Fail ELSE POperand(s, p)
      simple == IF x.ok THEN s[SkipS(s, x.p)] \in {44, 41} ELSE FALSE
  IN IF simple THEN x
     ELSE LET r == POr(s, p) IN IF r.ok THEN Ok(r.p, [k |-> "log", f |-> r.v]) ELSE Fail

PArgs(s, p, acc) ==
  LET r == PArg(s, p) IN
  IF ~r.ok THEN Fail
  ELSE LET q == SkipS(s, r.p) IN
       IF s[q] = 44 THEN PArgs(s, SkipS(s, q + 1), Append(acc, r.v))
       ELSE IF s[q] = 41 THEN Ok(q + 1, Append(acc, r.v))
       ELSE Fail

(* jsonpath-query, all of the text *)
ParseText(s) ==
  IF s[1] # 36 THEN Fail
  ELSE LET r == PQuery(s, 1) IN
       IF ~r.ok THEN Fail ELSE IF r.p = Len(s) THEN r ELSE Fail
=============================================================================

------------------------------ MODULE JPRegex ------------------------------
(***************************************************************************)
(* I-Regexp (RFC 9485), as match() and search() need it.  A pattern is     *)
(* parsed to                                                               *)
(*   [k |-> "alt", rs], [k |-> "cat", rs], [k |-> "rep", lo, hi, r]        *)
(*   (hi = -1: unbounded), [k |-> "set", neg, ivs: Seq(<<from, to>>)],     *)
(*   [k |-> "any"]                                                         *)
(* and matched by computing the set of positions where a match that begins *)
(* at a given position can end.                                            *)
(*                                                                         *)
(* A text that is not I-Regexp is either invalid in every dialect ("bad":  *)
(* the functions are then false), or possibly valid in the dialect of the  *)
(* underlying engine ("ext": what happens then is not specified).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RxBad == [st |-> "bad"]
RxExt == [st |-> "ext"]
RxOk(p, r) == [st |-> "ok", p |-> p, r |-> r]
RxChar(c) == [k |-> "set", neg |-> FALSE, ivs |-> <<<<c, c>>>>]

\* s ends in the sentinel -1
RECURSIVE RxAlt(_, _, _), RxCat(_, _, _)

RxAtEnd(s, p) == s[p] = -1 \/ s[p] = 124 \/ s[p] = 41

\* ( ) * + . ? [ \ ] { | } are not normal characters, - is one outside classes
RxSpecial(c) == c \in {40, 41, 42, 43, 46, 63, 91, 92, 93, 123, 124, 125}
\* SingleCharEsc: \ followed by one of ( ) * + - . ? [ \ ] ^ n r t { | }
RxEsc(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
              [] c \in {40, 41, 42, 43, 45, 46, 63, 91, 92, 93, 94, 123, 124, 125} -> c
              [] OTHER -> -1

\* Members of a character class, from p up to "]"; a "-" may come first or last
RECURSIVE RxClass(_, _, _, _)
RxClass(s, p, first, ivs) ==
  LET c == s[p]
      \* one character: <<next position, character>>, <<0, reason>>
      CharAt(x) == IF s[x] = -1 THEN <<0, 1>>
                   ELSE IF s[x] = 92 THEN IF s[x+1] = -1 THEN <<0, 1>>
                                          ELSE IF RxEsc(s[x+1]) = -1 THEN <<0, 2>>
                                          ELSE <<x + 2, RxEsc(s[x+1])>>
                   ELSE IF s[x] = 91 \/ s[x] = 93 \/ s[x] = 38 \/ s[x] = 126 \/ s[x] = 94 THEN <<0, 2>>
                   ELSE IF s[x] = 45 THEN <<0, 2>>
                   ELSE <<x + 1, s[x]>>
  IN IF c = 93 THEN IF first THEN RxExt ELSE [st |-> "ok", p |-> p + 1, ivs |-> ivs]
     ELSE IF c = 45 /\ (first \/ s[p+1] = 93)
     THEN RxClass(s, p + 1, FALSE, Append(ivs, <<45, 45>>))
     ELSE LET a == CharAt(p) IN
          IF a[1] = 0 THEN IF a[2] = 1 THEN RxBad ELSE RxExt
          ELSE IF s[a[1]] = 45 /\ s[a[1]+1] # 93
          THEN LET b == CharAt(a[1] + 1) IN
               IF b[1] = 0 THEN IF b[2] = 1 THEN RxBad ELSE RxExt
               ELSE IF b[2] < a[2] THEN RxBad
               ELSE RxClass(s, b[1], FALSE, Append(ivs, <<a[2], b[2]>>))
          ELSE RxClass(s, a[1], FALSE, Append(ivs, <<a[2], a[2]>>))

RxAtom(s, p) ==
  LET c == s[p] IN
  CASE c = 40 -> LET r == IF s[p+1] = 63 THEN RxExt ELSE RxAlt(s, p + 1, <<>>) IN
                 IF r.st # "ok" THEN r
                 ELSE IF s[r.p] = 41 THEN RxOk(r.p + 1, r.r) ELSE RxBad
    [] c = 46 -> RxOk(p + 1, [k |-> "any"])
    [] c = 91 -> LET neg == s[p+1] = 94
                     r == RxClass(s, IF neg THEN p + 2 ELSE p + 1, TRUE, <<>>)
                 IN IF r.st # "ok" THEN r
                    ELSE RxOk(r.p, [k |-> "set", neg |-> neg, ivs |-> r.ivs])
    [] c = 92 -> IF s[p+1] = -1 THEN RxBad
                 ELSE IF RxEsc(s[p+1]) = -1 THEN RxExt
                 ELSE RxOk(p + 2, RxChar(RxEsc(s[p+1])))
    [] c = 42 \/ c = 43 \/ c = 63 -> RxBad             \* nothing to repeat
    [] c = 93 \/ c = 123 \/ c = 125 \/ c = 94 \/ c = 36 -> RxExt
    [] OTHER -> RxOk(p + 1, RxChar(c))

RxDig(c) == 48 <= c /\ c <= 57
RECURSIVE RxNum(_, _, _)
RxNum(s, p, n) == IF RxDig(s[p]) /\ n < 1000 THEN RxNum(s, p + 1, 10 * n + s[p] - 48) ELSE <<p, n>>

RxQuant(s, p, r) ==   \* the optional quantifier at p of atom r
  LET c == s[p]
      Q(lo, hi, x) == IF s[x] \in {42, 43, 63, 123} THEN RxExt
                      ELSE RxOk(x, [k |-> "rep", lo |-> lo, hi |-> hi, r |-> r])
  IN CASE c = 42 -> Q(0, -1, p + 1)
       [] c = 43 -> Q(1, -1, p + 1)
       [] c = 63 -> Q(0, 1, p + 1)
       [] c = 123 ->
            IF ~RxDig(s[p+1]) THEN RxExt
            ELSE LET a == RxNum(s, p + 1, 0) IN
                 IF s[a[1]] = 125 THEN Q(a[2], a[2], a[1] + 1)
                 ELSE IF s[a[1]] # 44 THEN RxExt
                 ELSE IF s[a[1]+1] = 125 THEN Q(a[2], -1, a[1] + 2)
                 ELSE IF ~RxDig(s[a[1]+1]) THEN RxExt
                 ELSE LET b == RxNum(s, a[1] + 1, 0) IN
                      IF s[b[1]] # 125 THEN RxExt
                      ELSE IF b[2] < a[2] THEN RxBad
                      ELSE Q(a[2], b[2], b[1] + 1)
       [] OTHER -> RxOk(p, r)

RxCat(s, p, acc) ==
  IF RxAtEnd(s, p) THEN RxOk(p, [k |-> "cat", rs |-> acc])
  ELSE LET a == RxAtom(s, p) IN
       IF a.st # "ok" THEN a
       ELSE LET q == RxQuant(s, a.p, a.r) IN
            IF q.st # "ok" THEN q ELSE RxCat(s, q.p, Append(acc, q.r))

RxAlt(s, p, acc) ==
  LET r == RxCat(s, p, <<>>) IN
  IF r.st # "ok" THEN r
  ELSE IF s[r.p] = 124 THEN RxAlt(s, r.p + 1, Append(acc, r.r))
  ELSE RxOk(r.p, [k |-> "alt", rs |-> Append(acc, r.r)])

RxParse(text) == LET s == Append(text, -1)
                     r == RxAlt(s, 1, <<>>)
                 IN IF r.st # "ok" THEN r
                    ELSE IF r.p = Len(s) THEN r ELSE RxBad     \* an unmatched ")"

(* ---- matching ---- *)
RECURSIVE RxEnds(_, _, _), RxEndsCat(_, _, _, _), RxRepMin(_, _, _, _), RxRepMax(_, _, _, _, _)

RxIn(set, c) == (\E i \in 1..Len(set.ivs) : set.ivs[i][1] <= c /\ c <= set.ivs[i][2]) # set.neg

\* the positions where matches of r on s that begin at i end
RxEnds(r, s, i) ==
  CASE r.k = "alt" -> UNION {RxEnds(r.rs[j], s, i) : j \in 1..Len(r.rs)}
    [] r.k = "cat" -> RxEndsCat(r.rs, s, {i}, 1)
    [] r.k = "any" -> IF i > Len(s) THEN {} ELSE IF s[i] \in {10, 13} THEN {} ELSE {i + 1}
    [] r.k = "set" -> IF i > Len(s) THEN {} ELSE IF RxIn(r, s[i]) THEN {i + 1} ELSE {}
    [] r.k = "rep" ->
         LET from == RxRepMin(r.r, s, {i}, r.lo) IN
         RxRepMax(r.r, s, from, from, IF r.hi = -1 THEN -1 ELSE r.hi - r.lo)
RxEndsCat(rs, s, from, j) ==
  IF j > Len(rs) THEN from
  ELSE RxEndsCat(rs, s, UNION {RxEnds(rs[j], s, i) : i \in from}, j + 1)
RxRepMin(r, s, from, n) ==
  IF n = 0 \/ from = {} THEN from
  ELSE RxRepMin(r, s, UNION {RxEnds(r, s, i) : i \in from}, n - 1)
RxRepMax(r, s, new, all, n) ==
  IF n = 0 \/ new = {} THEN all
  ELSE LET nx == UNION {RxEnds(r, s, i) : i \in new}
       IN RxRepMax(r, s, nx \ all, all \cup nx, IF n = -1 THEN -1 ELSE n - 1)

\* only for patterns with RxParse(pat).st = "ok"
RxMatch(pat, s) == (Len(s) + 1) \in RxEnds(RxParse(pat).r, s, 1)
RxSearch(pat, s) == LET r == RxParse(pat).r
                    IN \E i \in 1..(Len(s) + 1) : RxEnds(r, s, i) # {}
=============================================================================

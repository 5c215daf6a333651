------------------------------ MODULE JPGrammar ------------------------------
(***************************************************************************)
(* The ABNF of RFC 9535 (Appendix A), rule by rule.  A rule is an operator *)
(* that gives, for a text that ends in a sentinel and a position, the set  *)
(* of positions where what it describes can end.  It is not how one would  *)
(* parse: JPParse is, and MC_Text checks that both accept the same texts.  *)
(***************************************************************************)
EXTENDS JPValue

Then(S, Rule(_)) == UNION {Rule(p) : p \in S}
Star(S, Rule(_)) ==
  LET RECURSIVE Go(_, _)
      Go(all, new) == LET more == Then(new, Rule) \ all IN IF more = {} THEN all ELSE Go(all \cup more, more)
  IN Go(S, S)

Ch(s, p, C) == IF s[p] \in C THEN {p + 1} ELSE {}
Word(s, p, w) == IF p + Len(w) <= Len(s) THEN IF SubSeq(s, p, p + Len(w) - 1) = w THEN {p + Len(w)} ELSE {} ELSE {}

gDIGIT == 48..57
gDIGIT1 == 49..57
gLC == 97..122
gALPHA == (65..90) \cup gLC
gHEX == gDIGIT \cup (65..70) \cup (97..102)
gScalar(c) == (128 <= c /\ c <= 55295) \/ (57344 <= c /\ c <= 1114111)

gB(s, p) == Ch(s, p, {32, 9, 10, 13})
gS(s, S) == Star(S, LAMBDA p : gB(s, p))
gDigits(s, S) == Star(S, LAMBDA p : Ch(s, p, gDIGIT))

\* int = "0" / (["-"] DIGIT1 *DIGIT)
gInt(s, p) == Ch(s, p, {48})
              \cup gDigits(s, Then({p} \cup Ch(s, p, {45}), LAMBDA x : Ch(s, x, gDIGIT1)))

\* where an integer is an index or part of a slice it must be in range (2.1)
gIndex(s, p) == {e \in gInt(s, p) :
                   LET a == IF s[p] = 45 THEN p + 1 ELSE p IN IntInRange([i \in 1..(e - a) |-> s[a + i - 1] - 48])}

(* ---- strings ---- *)
gHexes(s, p, n) == LET RECURSIVE Go(_, _)
                       Go(S, k) == IF k = 0 THEN S ELSE Go(Then(S, LAMBDA x : Ch(s, x, gHEX)), k - 1)
                   IN Go({p}, n)
gD == {68, 100}
gNonSurrogate(s, p) == Then(Ch(s, p, gHEX \ gD), LAMBDA x : gHexes(s, x, 3))
                       \cup Then(Then(Ch(s, p, gD), LAMBDA x : Ch(s, x, 48..55)), LAMBDA x : gHexes(s, x, 2))
gHighSur(s, p) == Then(Then(Ch(s, p, gD), LAMBDA x : Ch(s, x, {56, 57, 65, 66, 97, 98})), LAMBDA x : gHexes(s, x, 2))
gLowSur(s, p) == Then(Then(Ch(s, p, gD), LAMBDA x : Ch(s, x, (67..70) \cup (99..102))), LAMBDA x : gHexes(s, x, 2))
gHexChar(s, p) == gNonSurrogate(s, p)
                  \cup Then(Then(gHighSur(s, p), LAMBDA x : Word(s, x, <<92, 117>>)), LAMBDA x : gLowSur(s, x))
gEscapable(s, p) == Ch(s, p, {98, 102, 110, 114, 116, 47, 92})
                    \cup Then(Ch(s, p, {117}), LAMBDA x : gHexChar(s, x))
gUnescaped(s, p) == LET c == s[p] IN
  IF c \in {32, 33} \/ c \in 35..38 \/ c \in 40..91 \/ (93 <= c /\ c <= 55295) \/ (57344 <= c /\ c <= 1114111) THEN {p + 1} ELSE {}
gQuoted(s, p, quote, other) ==
  gUnescaped(s, p) \cup Ch(s, p, {other})
  \cup Then(Ch(s, p, {92}), LAMBDA x : Ch(s, x, {quote}) \cup gEscapable(s, x))
gStringOf(s, p, quote, other) ==
  Then(Star(Ch(s, p, {quote}), LAMBDA x : gQuoted(s, x, quote, other)), LAMBDA x : Ch(s, x, {quote}))
gString(s, p) == gStringOf(s, p, 34, 39) \cup gStringOf(s, p, 39, 34)

(* ---- numbers and literals ---- *)
gFrac(s, p) == gDigits(s, Then(Ch(s, p, {46}), LAMBDA x : Ch(s, x, gDIGIT)))
gExp(s, p) == LET e == Ch(s, p, {101, 69})
              IN gDigits(s, Then(e \cup Then(e, LAMBDA x : Ch(s, x, {43, 45})), LAMBDA x : Ch(s, x, gDIGIT)))
gNumber(s, p) == LET a == gInt(s, p) \cup Word(s, p, <<45, 48>>)
                     b == a \cup Then(a, LAMBDA x : gFrac(s, x))
                 IN b \cup Then(b, LAMBDA x : gExp(s, x))
gLiteral(s, p) == gNumber(s, p) \cup gString(s, p) \cup Word(s, p, <<116, 114, 117, 101>>)
                  \cup Word(s, p, <<102, 97, 108, 115, 101>>) \cup Word(s, p, <<110, 117, 108, 108>>)

(* ---- names ---- *)
gNameFirst(s, p) == IF s[p] \in gALPHA \/ s[p] = 95 \/ gScalar(s[p]) THEN {p + 1} ELSE {}
gNameChar(s, p) == gNameFirst(s, p) \cup Ch(s, p, gDIGIT)
gShorthand(s, p) == Star(gNameFirst(s, p), LAMBDA x : gNameChar(s, x))
gFnName(s, p) == Star(Ch(s, p, gLC), LAMBDA x : Ch(s, x, gLC \cup gDIGIT \cup {95}))

(* ---- segments and selectors ---- *)
\* slice-selector = [start S] ":" S [end S] [":" [S step]]
gSlice(s, p) ==
  LET a == {p} \cup gS(s, gIndex(s, p))
      b == gS(s, Then(a, LAMBDA x : Ch(s, x, {58})))
      c == b \cup gS(s, Then(b, LAMBDA x : gIndex(s, x)))
      d == Then(c, LAMBDA x : Ch(s, x, {58}))
  IN c \cup d \cup Then(gS(s, d), LAMBDA x : gIndex(s, x))

RECURSIVE gSegments(_, _), gSegment(_, _), gBracketed(_, _), gSelector(_, _), gOr(_, _), gAnd(_, _), gBasic(_, _),
          gFunction(_, _), gArgument(_, _), gFilterQuery(_, _), gComparable(_, _)
gSegments(s, S) == Star(S, LAMBDA p : Then(gS(s, {p}), LAMBDA x : gSegment(s, x)))
gSegment(s, p) ==
  gBracketed(s, p)
  \cup Then(Ch(s, p, {46}), LAMBDA x : Ch(s, x, {42}) \cup gShorthand(s, x))
  \cup Then(Word(s, p, <<46, 46>>), LAMBDA x : gBracketed(s, x) \cup Ch(s, x, {42}) \cup gShorthand(s, x))
gSep(s, S, c) == gS(s, Then(gS(s, S), LAMBDA x : Word(s, x, c)))
gBracketed(s, p) ==
  LET first == Then(gS(s, Ch(s, p, {91})), LAMBDA x : gSelector(s, x))
      all == Star(first, LAMBDA x : Then(gSep(s, {x}, <<44>>), LAMBDA y : gSelector(s, y)))
  IN Then(gS(s, all), LAMBDA x : Ch(s, x, {93}))
gSelector(s, p) == gString(s, p) \cup Ch(s, p, {42}) \cup gSlice(s, p) \cup gIndex(s, p)
                   \cup Then(gS(s, Ch(s, p, {63})), LAMBDA x : gOr(s, x))

(* ---- filters ---- *)
gOr(s, p) == Star(gAnd(s, p), LAMBDA x : Then(gSep(s, {x}, <<124, 124>>), LAMBDA y : gAnd(s, y)))
gAnd(s, p) == Star(gBasic(s, p), LAMBDA x : Then(gSep(s, {x}, <<38, 38>>), LAMBDA y : gBasic(s, y)))
gNot(s, p) == {p} \cup gS(s, Ch(s, p, {33}))
gParen(s, p) == Then(gS(s, Then(gS(s, Then(gNot(s, p), LAMBDA x : Ch(s, x, {40}))), LAMBDA x : gOr(s, x))), LAMBDA x : Ch(s, x, {41}))
gTest(s, p) == Then(gNot(s, p), LAMBDA x : gFilterQuery(s, x) \cup gFunction(s, x))
gOp(s, p) == Word(s, p, <<61, 61>>) \cup Word(s, p, <<33, 61>>) \cup Word(s, p, <<60, 61>>) \cup Word(s, p, <<62, 61>>)
             \cup Ch(s, p, {60, 62})
gComparison(s, p) == Then(gS(s, Then(gS(s, gComparable(s, p)), LAMBDA x : gOp(s, x))), LAMBDA x : gComparable(s, x))
gBasic(s, p) == gParen(s, p) \cup gComparison(s, p) \cup gTest(s, p)
gFilterQuery(s, p) == gSegments(s, Ch(s, p, {36, 64}))
gSingularSegment(s, p) ==
  Then(Then(Ch(s, p, {91}), LAMBDA x : gString(s, x) \cup gIndex(s, x)), LAMBDA x : Ch(s, x, {93}))
  \cup Then(Ch(s, p, {46}), LAMBDA x : gShorthand(s, x))
gSingular(s, p) == Star(Ch(s, p, {36, 64}), LAMBDA x : Then(gS(s, {x}), LAMBDA y : gSingularSegment(s, y)))
gComparable(s, p) == gLiteral(s, p) \cup gSingular(s, p) \cup gFunction(s, p)

(* ---- functions ---- *)
gFunction(s, p) ==
  LET open == gS(s, Then(gFnName(s, p), LAMBDA x : Ch(s, x, {40})))
      first == Then(open, LAMBDA x : gArgument(s, x))
      all == Star(first, LAMBDA x : Then(gSep(s, {x}, <<44>>), LAMBDA y : gArgument(s, y)))
  IN Then(gS(s, open \cup all), LAMBDA x : Ch(s, x, {41}))
gArgument(s, p) == gLiteral(s, p) \cup gFilterQuery(s, p) \cup gOr(s, p) \cup gFunction(s, p)

gQuery(s) == gSegments(s, Ch(s, 1, {36}))
Derives(text) == LET s == Append(text, -1) IN Len(s) \in gQuery(s)
=============================================================================

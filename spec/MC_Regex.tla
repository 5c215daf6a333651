------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* Regular expressions: every pattern that a few tokens form, typed token  *)
(* by token, against every short string.  JPRegex matches by sets of end   *)
(* positions; here a pattern stands for its language, cut off at a length, *)
(* in the way language theory defines it, and both must agree.             *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES toks
vars == <<toks>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
Up(a, b) == IF Thorough THEN b ELSE a

Tokens ==
  CASE Suite = "ops" -> <<T("a"), T("b"), T("."), T("("), T(")"), T("|"), T("*"), T("+"), T("?"), T("{2}"), T("{1,2}"), T("{0}"), T("{1,}")>>
    [] Suite = "class" -> <<T("["), T("]"), T("^"), T("-"), T("a"), T("b"), T("\\"), T("n"), T("."), T("*"), <<233>>, T("|")>>
    [] Suite = "esc" -> <<T("\\"), T("n"), T("t"), T("("), T(")"), T("."), T("|"), T("{"), T("}"), T("*"), T("a"), T("1"), <<10>>, T("d")>>
Longest == CASE Suite = "ops" -> Up(4, 5) [] Suite = "class" -> Up(4, 5) [] Suite = "esc" -> Up(3, 5)

Chars == CASE Suite = "ops" -> <<97, 98, 10>>
           [] Suite = "class" -> <<97, 98, 10, 233, 94, 45, 110, 92>>
           [] Suite = "esc" -> <<97, 10, 46, 40, 124, 92, 110, 9, 123, 49>>
Most == IF Suite = "ops" THEN 3 ELSE 2      \* length of the strings
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(w, Chars[k]) : k \in 1..Len(Chars)} : w \in Words(n - 1)}
All == UNION {Words(n) : n \in 0..Most}
\* strings for the library, and beside them values that match nothing
Longer == CASE Suite = "ops" -> {T("aa"), T("ab"), T("ba"), T("bb"), T("aaa"), T("aab"), T("bab"), T("abab"), <<97, 10>>, <<10, 98>>, <<97, 10, 98>>}
            [] Suite = "class" -> {T("ab"), T("-a"), T("a^"), T("nn"), T("b-"), <<233, 97>>, <<92, 110>>, <<10, 10>>}
            [] Suite = "esc" -> {T("aa"), T("(a"), T("1{"), <<10, 97>>, <<92, 110>>, T("|."), T("a1")}
WordSeq == SetToSeq(UNION {Words(n) : n \in 0..1} \cup Longer)
Doc == Arr([k \in 1..Len(WordSeq) |-> Str(WordSeq[k])] \o <<Num(1), Null, Arr(<<Str(T("a"))>>)>>)

Pattern == FlattenSeq([k \in 1..Len(toks) |-> Tokens[toks[k]]])
QueryOf(f, pat) == AbsQ(<<Child(<<Filt(FTest(f, <<Qry(RelQ(<<>>)), Lit(Str(pat))>>))>>)>>)
Vector(q, st) == QVector(q, Text(q, st), Doc, EvalPaths(q, Doc))
Turn == FoldSeq(LAMBDA x, y : x + y, 0, toks) % 3
Emit == \A pat \in {Pattern'} :
          RxParse(pat).st # "ext" =>
            \* the longest patterns take turns with match and search
            /\ (Len(toks') < Longest \/ Thorough \/ Turn' = 0) => PrintT("VEC " \o ToJson(Vector(QueryOf(T("match"), pat), Plain)))
            /\ (Len(toks') < Longest \/ Thorough \/ Turn' = 1) => PrintT("VEC " \o ToJson(Vector(QueryOf(T("search"), pat), IF Len(toks') % 2 = 0 THEN Bracketed ELSE Loose)))

Init == toks = <<>>
\* a pattern that cannot be in I-Regexp, whatever follows, is not extended
Hopeless == LET r == RxParse(Pattern) IN r.st = "ext" /\ Suite = "ops"
Type(k) == /\ Len(toks) < Longest
           /\ toks' = Append(toks, k)
           /\ Emit
Next == ~Hopeless /\ \E k \in 1..Len(Tokens) : Type(k)
Spec == Init /\ [][Next]_vars

(* ---- languages, as sets of strings of at most Most characters ---- *)
Cut(S) == {w \in S : Len(w) <= Most}
Cat(S, W) == Cut({u \o w : u \in S, w \in W})
RECURSIVE Power(_, _), Closure(_, _, _), Lang(_), LangCat(_, _)
Power(L, n) == IF n = 0 THEN {<<>>} ELSE Cat(Power(L, n - 1), L)
\* the union of the powers of L applied to S: n more of them, -1 for all
Closure(S, L, n) == IF n = 0 THEN S
                    ELSE LET more == S \cup Cat(S, L) IN IF more = S THEN S ELSE Closure(more, L, IF n = -1 THEN -1 ELSE n - 1)
Lang(r) == CASE r.k = "alt" -> UNION {Lang(r.rs[k]) : k \in 1..Len(r.rs)}
             [] r.k = "cat" -> LangCat(r.rs, Len(r.rs))
             [] r.k = "rep" -> UNION {Closure(Power(l, r.lo), l, IF r.hi = -1 THEN -1 ELSE r.hi - r.lo) : l \in {Lang(r.r)}}
             [] r.k = "set" -> {<<Chars[k]>> : k \in {j \in 1..Len(Chars) :
                                   (\E m \in 1..Len(r.ivs) : Chars[j] \in r.ivs[m][1]..r.ivs[m][2]) # r.neg}}
             [] r.k = "any" -> {<<Chars[k]>> : k \in {j \in 1..Len(Chars) : Chars[j] # 10}}
LangCat(rs, n) == IF n = 0 THEN {<<>>} ELSE Cat(LangCat(rs, n - 1), Lang(rs[n]))

Languages ==
  \A pat \in {Pattern} : \A p \in {RxParse(pat)} :
    p.st = "ok" => \A l \in {Lang(p.r)} : \A w \in All :
      /\ RxMatch(pat, w) = (w \in l)
      /\ RxSearch(pat, w) = (\E x \in 1..(Len(w) + 1) : \E y \in (x - 1)..Len(w) : SubSeq(w, x, y) \in l)
\* what a pattern matches, it finds
MatchSearch == \A pat \in {Pattern} : RxParse(pat).st = "ok" => \A w \in All : RxMatch(pat, w) => RxSearch(pat, w)
\* a pattern that is wrong stays wrong in parentheses; one that is right stays so, with the same matches
Grouped == \A pat \in {Pattern} : \A p \in {RxParse(pat)} : \A g \in {RxParse(<<40>> \o pat \o <<41>>)} :
             p.st = "ok" => g.st = "ok" /\ \A w \in {T("ab"), T("a"), <<>>, <<10>>} : RxMatch(pat, w) = RxMatch(<<40>> \o pat \o <<41>>, w)
=============================================================================

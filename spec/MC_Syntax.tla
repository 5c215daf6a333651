------------------------------ MODULE MC_Syntax ------------------------------
(***************************************************************************)
(* Every text that a few tokens can form, up to a length, within a         *)
(* context: a query is typed token by token.  Each text is a state; the    *)
(* parser of the specification and the ABNF must agree on it, and the      *)
(* library must accept it exactly if they do, and then select what the     *)
(* meaning of the query selects on a document of the suite.                *)
(***************************************************************************)
EXTENDS JPText, JPKnown, JPGrammar, Json, IOUtils, TLC

VARIABLES ctx, toks
vars == <<ctx, toks>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
Up(a, b) == IF Thorough THEN b ELSE a

N1(n) == Num(n)
KA == T("a")
KB == T("b")

(* ---- contexts: what stands before and after ---- *)
Contexts ==
  CASE Suite = "strq" -> <<<<T("$['"), T("']")>>>>
    [] Suite = "strd" -> <<<<T("$[?@==\""), T("\"]")>>>>
    [] Suite = "sur" -> <<<<T("$['\\u"), T("']")>>, <<T("$[?@!=\"x\\u"), T("\"]")>>>>
    [] Suite = "num" -> <<<<T("$[?@=="), T("]")>>>>
    [] Suite = "int" -> <<<<T("$["), T("]")>>>>
    [] Suite = "segs" -> <<<<T("$"), <<>>>>>>
    [] Suite = "filt" -> <<<<T("$[?"), T("]")>>>>
    [] Suite = "call" -> <<<<T("$[?"), T("]")>>>>
    [] Suite = "sing" -> <<<<T("$[?@"), T("==1]")>>, <<T("$[?1==$"), T("]")>>>>

Tokens ==
  CASE Suite \in {"strq", "strd"} ->
         <<T("\\"), T("'"), T("\""), T("\\u"), T("n"), T("0041"), T("D83D"), T("dE00"), T("d7Ff"), <<31>>, <<10>>, <<233>>, T("/"), T("7")>>
    [] Suite = "sur" ->
         <<T("D83D"), T("dc00"), T("DFFF"), T("dbff"), T("D7FF"), T("e000"), T("\\u"), T("\\"), T("u"), T("00"), T("g"), <<128512>>>>
    [] Suite = "num" ->
         <<T("0"), T("1"), T("5"), T("-"), T("+"), T("."), T("e"), T("E"), T("00")>>
    [] Suite = "int" ->
         <<T("0"), T("1"), T("2"), T("-"), T(":"), T(" "), T("9007199254740991"), T("9007199254740992"), T(","), T("."), T("+")>>
    [] Suite = "segs" ->
         <<T("."), T(".."), T("*"), T("["), T("]"), T("a"), T("0"), T("'b'"), T(","), T(":"), T(" "), T("?@"), <<233>>, T("$")>>
    [] Suite = "filt" ->
         <<T("@"), T(".a"), T("$"), T("=="), T("<"), T("&&"), T("||"), T("!"), T("("), T(")"), T("1"), T("'x'"), T(" "), T("true"), T(".*"), T("=")>>
    [] Suite = "call" ->
         <<T("count"), T("length"), T("match"), T("("), T(")"), T(","), T("@"), T(".*"), T("=="), T("1"), T("'a'"), T("!"), T(" "), T("&&")>>
    [] Suite = "sing" ->
         <<T(".a"), T("[0]"), T("['b']"), T("[-1]"), T(" "), T(".*"), T("[0,1]"), T("["), T("]"), T("0"), T("..a"), T("[1:]")>>
Longest == CASE Suite \in {"strq", "strd"} -> Up(4, 5) [] Suite = "sur" -> Up(4, 5) [] Suite = "num" -> Up(4, 6)
             [] Suite = "int" -> Up(4, 5) [] Suite = "segs" -> Up(4, 5) [] Suite = "filt" -> Up(3, 5) [] Suite = "call" -> Up(4, 5)
             [] Suite = "sing" -> Up(3, 4)

Doc ==
  CASE Suite = "strq" -> Obj(<<<<<<>>, N1(0)>>, <<<<10>>, N1(1)>>, <<T("\""), N1(2)>>, <<T("'"), N1(3)>>, <<T("/"), N1(4)>>, <<T("0041"), N1(5)>>,
                               <<T("7"), N1(6)>>, <<T("77"), N1(7)>>, <<T("A"), N1(8)>>, <<T("\\"), N1(9)>>, <<T("n"), N1(10)>>, <<<<233>>, N1(11)>>,
                               <<<<55295>>, N1(12)>>, <<<<128512>>, N1(13)>>>>)
    [] Suite = "strd" -> Arr(<<Str(<<>>), Str(<<10>>), Str(T("\"")), Str(T("'")), Str(T("/")), Str(T("A")), Str(T("\\")), Str(T("n")), Str(<<233>>),
                               Str(<<55295>>), Str(<<128512>>), Str(T("77"))>>)
    [] Suite = "sur" -> Obj(<<<<<<55295>>, N1(1)>>, <<<<57344>>, N1(2)>>, <<<<128512>>, N1(4)>>, <<<<1113088>>, N1(3)>>, <<<<1114111>>, N1(5)>>>>)
    [] Suite = "num" -> Arr(<<N1(0), N1(1), N1(5), N1(-1), N1(10), N1(15), N1(-5), N1(50), N1(100), Dec(FALSE, <<1>>, -1), Dec(FALSE, <<5>>, -1),
                              Dec(FALSE, <<1>>, 5), Dec(FALSE, <<5>>, -5), Dec(TRUE, <<1, 5>>, -1), Bool(TRUE)>>)
    [] Suite = "int" -> Arr(<<N1(0), N1(1), N1(2), N1(3)>>)
    [] Suite = "segs" -> Obj(<<<<KA, Arr(<<Obj(<<<<KA, N1(1)>>, <<KB, N1(2)>>>>), N1(3)>>)>>, <<KB, Obj(<<<<KA, Null>>>>)>>, <<<<233>>, N1(5)>>>>)
    [] Suite = "filt" -> Arr(<<N1(1), Obj(<<<<KA, N1(1)>>>>), Str(T("x")), Bool(TRUE), Arr(<<>>), Obj(<<<<KA, Str(T("x"))>>, <<KB, N1(0)>>>>)>>)
    [] Suite = "call" -> Arr(<<Str(T("a")), Arr(<<N1(1)>>), Obj(<<<<KA, N1(1)>>>>), N1(1), Str(<<>>)>>)
    [] Suite = "sing" -> Arr(<<N1(1), Arr(<<N1(1), N1(2)>>), Obj(<<<<KA, N1(1)>>, <<KB, Arr(<<N1(0), N1(1)>>)>>>>), Obj(<<<<KA, Arr(<<N1(1)>>)>>, <<KB, N1(1)>>>>)>>)

Text0 == Contexts[ctx][1] \o FlattenSeq([i \in 1..Len(toks) |-> Tokens[toks[i]]]) \o Contexts[ctx][2]

Bounds(t) == LET RECURSIVE Go(_, _)
                 Go(i, o) == IF i > Len(t) THEN <<o>> ELSE <<o>> \o Go(i + 1, o + Utf8Len(t[i]))
             IN Go(1, 0)
Vector(t) ==
  LET r == ParseStrict(t)
  IN IF (IF r.ok THEN OddQuery(r.v) ELSE FALSE) THEN [k |-> "p", s |-> t, ok |-> 3, bd |-> Bounds(t)]
     ELSE IF r.ok THEN QVector(r.v, t, Doc, EvalPaths(r.v, Doc))
     ELSE [k |-> "p", s |-> t, ok |-> IF ParseLenient(t).ok THEN 2 ELSE 0, bd |-> Bounds(t)]

Init == ctx \in 1..Len(Contexts) /\ toks = <<>>
Type(k) == /\ Len(toks) < Longest
           /\ toks' = Append(toks, k)
           /\ UNCHANGED ctx
           /\ PrintT("VEC " \o ToJson(Vector(Text0')))
Next == \E k \in 1..Len(Tokens) : Type(k)
Spec == Init /\ [][Next]_vars

(* The parser reads exactly the texts that the ABNF derives *)
SameLanguage == ParseText(Strict(Text0)).ok = Derives(Text0)
(* leniency only adds texts, and does not change what a text means *)
LenientMore == LET r == ParseText(Strict(Text0)) IN r.ok => ParseText(Lenient(Text0)) = r
=============================================================================

------------------------------ MODULE MC_Edit ------------------------------
(***************************************************************************)
(* Queries that are mistyped.  A textV is taken, and at one place a         *)
(* character is put in, exchanged or left out, a part is repeated, left    *)
(* out or exchanged with the next: everything next to the texts of valid   *)
(* queries, with characters of every kind.  Parser and ABNF must agree on  *)
(* each, the library must accept it exactly if they do, and select what    *)
(* the query, which may be another one now, selects on the document.       *)
(***************************************************************************)
EXTENDS JPText, JPKnown, JPGrammar, Json, IOUtils, TLC

VARIABLES textV, at, kind, pc
vars == <<textV, at, kind, pc>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
Smile == <<128512>>
AllBases ==
  CASE Suite = "segs" ->
         <<T("$.a['b'][0]"), T("$..a[*]"), T("$[?@.a,1:2]"), T("$[-1,*].b"), T("$[1:3:2]"), T("$[ :: -1 ]"), T("$..[0,'a']"), T("$.a.*..b"), T("$['a'] ['b']"),
           <<36, 46, 233, 95>> \o T("1"), <<36, 46>> \o Smile, T("$"), T("$..*"), T("$._a1"), T("$[\"a\",'b']")>>
    [] Suite = "filt" ->
         <<T("$[?@.a==1]"), T("$[?!(@.a)]"), T("$[?@.a&&@.b||!@]"), T("$[?(@.a||@.b)&&$.a]"), T("$[?@.a<=$.b]"), T("$[?@>='x']"), T("$[?!@.a]"), T("$[?@[0]!=@['b']]"),
           T("$[?true==@.a]"), T("$[?null!=@]"), T("$[?@ < false]"), T("$[?((@.b))]"), T("$[?@..a]"), T("$[?@.*[?@>1]]"), T("$[?$]"), T("$[?! ( @.a ) ]")>>
    [] Suite = "fn" ->
         <<T("$[?length(@)==1]"), T("$[?count(@.*)>1]"), T("$[?match(@,'x')]"), T("$[?!search(@.a,\"x\")]"), T("$[?value(@..a)==1]"), T("$[?length(value(@.*))>0]"),
           T("$[?hasn(@.a)&&lid(@.b==0)]"), T("$[?one()==@.a]"), T("$[?lboth(@.a, !@.b)]"), T("$[?1<=count( @ )]"), T("$[?length('x')==1]"), T("$[?lid(hasn(@.*))]")>>
    [] Suite = "str" ->
         <<T("$['\\u0061']"), T("$[\"\\\"\"]"), T("$['\\'']"), T("$['\\n']"), T("$['\\uD83D\\uDE00']"), T("$['\\/\\\\']"), T("$[?@=='\\u00e9']"), T("$[?@!=\"\\t\"]"), T("$['\"']"), T("$[\"'\"]"),
           <<36, 91, 39, 233, 39, 93>>, T("$['\\b\\f\\r']")>>
    [] Suite = "num" ->
         <<T("$[10]"), T("$[-1]"), T("$[?@==-1.5e+2]"), T("$[?@==0.10]"), T("$[?@<1E3]"), T("$[?@>=-0]"), T("$[9007199254740991]"), T("$[0:-9007199254740991]"), T("$[?@[1]==15e-1]"), T("$[?100==@]"), T("$[?@==0e0]"),
           T("$[?@==1.0E-01]")>>
Bases == ToSet(AllBases)

Specials == {0, 1, 8, 9, 10, 11, 12, 13, 31, 127, 128, 133, 160, 169, 233, 768, 8232, 8233, 12288, 55295, 57344, 64976, 65279, 65533, 65535, 65536, 128512, 1114111}
Ascii0 == {c \in 32..126 : ~((49 < c /\ c < 57) \/ (67 < c /\ c <= 90 /\ c # 69) \/ (102 < c /\ c < 122 /\ c \notin {110, 116, 117}))}
Chars == IF Thorough THEN Specials \cup (32..126) ELSE {c \in Specials : c \notin {1, 8, 160, 169, 768, 8233, 12288, 64976, 65533}} \cup Ascii0

Doc == Obj(<<<<<<>>, Num(0)>>, <<<<9>>, Num(7)>>, <<<<10>>, Num(1)>>, <<T("\""), Num(2)>>, <<T("'"), Num(3)>>, <<T("/\\"), Num(15)>>, <<T("1"), Num(-1)>>, <<T("_a1"), Num(100)>>,
             <<T("a"), Obj(<<<<T("a"), Num(1)>>, <<T("b"), Arr(<<Num(0), Obj(<<<<T("a"), Str(T("x"))>>>>), Num(2), Str(<<233>>)>>)>>>>)>>,
             <<T("b"), Arr(<<Obj(<<<<T("a"), Num(1)>>, <<T("b"), Num(1)>>>>), Num(10), Arr(<<Num(1), Dec(FALSE, <<1, 5>>, -1)>>), Str(T("x")), Obj(<<<<T("b"), Bool(TRUE)>>>>)>>)>>,
             <<<<233>>, Bool(FALSE)>>, <<<<233, 95, 49>>, Null>>, <<Smile, Dec(TRUE, <<1, 5>>, 1)>>>>)

(* ---- the edits at a place, between the at-th character and the next ---- *)
Before(i) == SubSeq(textV, 1, i)
After1(i) == SubSeq(textV, i + 1, Len(textV))
PutIn(cs) == Before(at) \o cs \o After1(at)
Instead1(cs) == Before(at - 1) \o cs \o After1(at)
Part(k) == SubSeq(textV, at + 1, at + k)
Edits ==
  CASE kind = "put" -> {PutIn(<<c>>) : c \in Chars}
    [] kind = "exchange" -> IF at = 0 THEN {} ELSE {Instead1(<<c>>) : c \in Chars}
    [] kind = "part" -> UNION {LET rest == After1(at + k)
                               IN {Before(at) \o rest, Before(at) \o Part(k) \o Part(k) \o rest, Before(at) \o Part(k) \o Part(k) \o Part(k) \o rest}
                                  \cup {Before(at) \o Part(k) \o <<32>> \o Part(k) \o rest}
                                  \cup (IF at + k < Len(textV) THEN {Before(at) \o <<textV[at + k + 1]>> \o Part(k) \o After1(at + k + 1)} ELSE {})
                                 : k \in {j \in 1..4 : at + j <= Len(textV)}}
                       \cup {PutIn(<<c, d>>) : c \in {32, 33, 39, 40, 46, 92}, d \in {33, 34, 39, 40, 41, 42, 46, 32, 9}}
                       \cup {Before(at), After1(at)}                  \* cut off
                       \cup {PutIn(<<33, 33, 33>>), PutIn(<<46, 46, 46>>), PutIn(<<32, 10, 13, 9>>), PutIn(<<40, 40, 40>>)}

RECURSIVE BoundsFrom(_, _, _)
BoundsFrom(t, i, o) == IF i > Len(t) THEN <<o>> ELSE <<o>> \o BoundsFrom(t, i + 1, o + Utf8Len(t[i]))
Vector(t) ==
  The({IF (IF r.ok THEN LeftOpen(r.v, Doc) ELSE FALSE) THEN [k |-> "p", s |-> t, ok |-> 3, bd |-> BoundsFrom(t, 1, 0)]
       ELSE IF r.ok THEN QVector(r.v, t, Doc, EvalPaths(r.v, Doc))
       ELSE [k |-> "p", s |-> t, ok |-> IF ParseLenient(t).ok THEN 2 ELSE 0, bd |-> BoundsFrom(t, 1, 0)] : r \in {ParseStrict(t)}})

Kinds == {"put", "exchange", "part"}
Init == textV \in Bases /\ at = 0 /\ kind \in Kinds /\ pc = "move"
Move == /\ pc = "move" /\ at < Len(textV)
        /\ at' = at + 1 /\ UNCHANGED <<textV, kind, pc>>
Edit == /\ pc = "move"
        /\ \E es \in {Edits} : \E t \in es :
             /\ textV' = t
             /\ PrintT("VEC " \o ToJson(Vector(t)))
        /\ pc' = "edited" /\ UNCHANGED <<at, kind>>
Next == Move \/ Edit
View == IF pc = "move" THEN vars ELSE <<textV>>
Spec == Init /\ [][Next]_vars

Valid == pc = "move" => ParseStrict(textV).ok
(* The parser reads exactly the texts that the ABNF derives *)
SameLanguage == ParseText(Strict(textV)).ok = Derives(textV)
(* leniency only adds texts, and does not change what a textV means *)
LenientMore == \A r \in {ParseText(Strict(textV))} : r.ok => ParseText(Lenient(textV)) = r
=============================================================================

------------------------------- MODULE MC_Norm -------------------------------
(***************************************************************************)
(* Locations and their texts, for names of every kind of character: a walk *)
(* from the root to a node, one step after the other, that writes the      *)
(* Normalized Path and the JSON pointer as it goes.                        *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES xV, yV,      \* two names of the document
          at,        \* the location reached
          np, ptr    \* its texts
vars == <<xV, yV, at, np, ptr>>

Thorough == IOEnv.TIER = "thorough"
Chars == {39, 34, 92, 47, 126, 48, 49, 97, 10, 1, 233} \cup
         (IF Thorough THEN {8, 12, 31, 127, 93, 91, 36, 32, 45, 117, 8232, 55295, 57344, 128512, 65, 98, 46, 35, 37} ELSE {31, 127, 128512})
Ones == {<<c>> : c \in Chars}
Pairs == {<<c, d>> : c \in Chars, d \in Chars}
Seconds == {<<>>, T("~1"), T("0")} \cup (IF Thorough THEN {T("'"), T("a"), <<92, 92>>, T("~01"), <<128512, 10>>} ELSE {})

Sorted(kvs) == SortSeq(kvs, LAMBDA a, b : StrLt(a[1], b[1]))
Ten == [k \in 1..11 |-> Num(k)]
Doc == IF xV = yV THEN Obj(<<<<xV, Arr(<<Obj(<<<<xV, Null>>>>), Arr(<<>>), Num(1)>>)>>>>)
       ELSE Obj(Sorted(<<<<xV, Arr(<<Obj(<<<<xV, Obj(<<<<yV, Num(0)>>>>)>>>>), Num(1), Str(xV)>>)>>,
                         <<yV, Obj(Sorted(<<<<xV, Arr(Ten)>>, <<yV, Obj(<<>>)>>>>))>>>>))

Here == Follow(Doc, at)[1]
Init == /\ xV \in Ones \cup {<<>>}
        /\ yV = <<>> /\ at = <<>> /\ np = <<>> /\ ptr = <<>>
\* choose the document, then walk
Choose == /\ np = <<>>
          /\ \E a \in {xV} \cup {xV \o c : c \in Ones}, b \in Seconds :
               /\ xV' = a /\ yV' = b
          /\ np' = <<36>> /\ UNCHANGED <<at, ptr>>
          /\ PrintT("VEC " \o ToJson([k |-> "loc", d |-> Doc', all |->
                LET ns == {r \in {Descendants(Root(Doc'))} : TRUE}
                IN UNION {{[p |-> r[k].p, np |-> NormalPath(r[k].p), ptr |-> Pointer(r[k].p)] : k \in 1..Len(r)} : r \in ns}]))
EscapedName(s) == FlattenSeq([k \in 1..Len(s) |-> NormalChar(s[k])])
Walk == /\ np # <<>>
        /\ \E k \in 1..Kids(Here) :
             LET v == Here
             IN IF v.t = "a"
                THEN /\ at' = Append(at, IdxEl(k - 1))
                     /\ np' = np \o <<91>> \o Decimal(k - 1) \o <<93>>
                     /\ ptr' = ptr \o <<47>> \o Decimal(k - 1)
                ELSE /\ at' = Append(at, NameEl(v.o[k].k))
                     /\ np' = np \o <<91, 39>> \o EscapedName(v.o[k].k) \o <<39, 93>>
                     /\ ptr' = ptr \o <<47>> \o FlattenSeq([j \in 1..Len(v.o[k].k) |-> PointerChar(v.o[k].k[j])])
        /\ UNCHANGED <<xV, yV>>
Next == Choose \/ Walk
Spec == Init /\ [][Next]_vars

Chosen == np # <<>>
(* RFC 6901: the value a pointer leads to, <<>> if none *)
RECURSIVE Unescape(_), TokenEnd(_, _), Resolve(_, _)
Unescape(t) == IF Len(t) = 0 THEN <<>>
               ELSE IF t[1] # 126 THEN <<t[1]>> \o Unescape(Tail(t))
               ELSE <<IF t[2] = 48 THEN 126 ELSE 47>> \o Unescape(SubSeq(t, 3, Len(t)))
TokenEnd(t, k) == IF k > Len(t) THEN k ELSE IF t[k] = 47 THEN k ELSE TokenEnd(t, k + 1)
IndexOf(s) == IF s # <<>> /\ (\A k \in 1..Len(s) : IsDigit(s[k])) /\ (Len(s) = 1 \/ s[1] # 48)
              THEN <<DigitsVal([k \in 1..Len(s) |-> s[k] - 48], Len(s))>> ELSE <<>>
Resolve(n, t) ==
  IF t = <<>> THEN <<n.p>>
  ELSE LET e == TokenEnd(t, 2)
           s == Unescape(SubSeq(t, 2, e - 1))
           rest == SubSeq(t, e, Len(t))
           ks == {k \in 1..Kids(n.v) : IF n.v.t = "o" THEN n.v.o[k].k = s ELSE IndexOf(s) = <<k - 1>>}
       IN IF ks = {} THEN <<>> ELSE Resolve(ChildAt(n, CHOOSE k \in ks : TRUE), rest)

Texts == Chosen => np = NormalPath(at) /\ ptr = Pointer(at)
Pointed == Chosen => Resolve(Root(Doc), ptr) = <<at>>
\* the normalized path is a query that selects the node, and its own normalized path
SelectsIt == Chosen => LET r == ParseStrict(np)
                       IN IF r.ok THEN IsSingular(r.v) /\ EvalPaths(r.v, Doc) = <<at>> ELSE FALSE
\* distinct locations have distinct texts; visited in order, they are sorted
Injective == Chosen /\ at = <<>> =>
  \A ns \in {Descendants(Root(Doc))} :
     /\ \A j \in 1..Len(ns) : \A k \in 1..Len(ns) :
          j < k => /\ NormalPath(ns[j].p) # NormalPath(ns[k].p)
                   /\ Pointer(ns[j].p) # Pointer(ns[k].p)
                   /\ PathLt(ns[j].p, ns[k].p) /\ ~PathLt(ns[k].p, ns[j].p)
=============================================================================

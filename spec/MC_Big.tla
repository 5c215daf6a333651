------------------------------- MODULE MC_Big -------------------------------
(***************************************************************************)
(* Documents and queries of any size.  A family of documents has a member  *)
(* for each nV, and the outcome of a query on it is given in closed form:   *)
(* runs of nodes, of which the k-th is where f + k s says.  While nV is     *)
(* small, the closed forms are checked against JPEval, and the texts of    *)
(* the queries against the grammar; the same forms then give the outcomes  *)
(* for an nV that no enumeration reaches: around powers of two, where a     *)
(* counter might overflow or an implementation change its ways.            *)
(***************************************************************************)
EXTENDS JPText, JPKnown, Json, IOUtils, TLC

VARIABLES kind, nV, pc
vars == <<kind, nV, pc>>

Suite == IOEnv.SUITE
Thorough == IOEnv.TIER = "thorough"
Small == 6
A == T("a")

(* ---- families of documents ---- *)
Pad(i) == [k \in 1..5 |-> 48 + ((i \div (CASE k = 1 -> 10000 [] k = 2 -> 1000 [] k = 3 -> 100 [] k = 4 -> 10 [] OTHER -> 1)) % 10)]
Chr(c, m) == [i \in 1..m |-> c]
RECURSIVE Nest(_, _)
Nest(k, m) == IF m = 0 THEN Num(1) ELSE IF k = "deep" THEN Arr(<<Nest(k, m - 1)>>) ELSE Obj(<<<<A, Nest(k, m - 1)>>>>)
Ints(m) == Arr([i \in 1..m |-> Num(i - 1)])
Mems(m) == Obj([i \in 1..m |-> <<Pad(i - 1), Num(i - 1)>>])
CharOf == [str1 |-> 97, str2 |-> 233, str3 |-> 8364, str4 |-> 128512, key1 |-> 97, key3 |-> 8364, key4 |-> 128512]
Doc(k, m) ==
  CASE k = "ints" -> Ints(m)
    [] k = "objs" -> Mems(m)
    [] k = "rows" -> Arr([i \in 1..m |-> Arr(<<Num(i - 1)>>)])
    [] k = "recs" -> Arr([i \in 1..m |-> Obj(<<<<A, Num(i - 1)>>>>)])
    [] k = "wrap" -> Arr(<<Ints(m)>>)
    [] k = "wrapo" -> Arr(<<Mems(m)>>)
    [] k \in {"deep", "deepn"} -> Nest(k, m)
    [] k \in {"str1", "str2", "str3", "str4"} -> Arr(<<Str(Chr(CharOf[k], m)), Str(Chr(CharOf[k], m + 1))>>)
    [] k \in {"key1", "key3", "key4"} -> Obj(<<<<Chr(CharOf[k], m), Num(1)>>, <<Chr(CharOf[k], m + 1), Num(2)>>>>)

(* ---- outcomes: runs ---- *)
Run(at, f, s, c) == [at |-> at, f |-> f, s |-> s, c |-> IF c < 0 THEN 0 ELSE c]
All(at, m) == Run(at, 0, 1, m)
One1(at, i, m) == Run(at, i, 1, IF 0 <= i /\ i < m THEN 1 ELSE 0)
If(c, at, i) == <<Run(at, i, 1, IF c THEN 1 ELSE 0)>>
PathAt(at, i) ==
  CASE at = "idx" -> <<IdxEl(i)>>
    [] at = "name" -> <<NameEl(Pad(i))>>
    [] at = "row" -> <<IdxEl(i), IdxEl(0)>>
    [] at = "rec" -> <<IdxEl(i), NameEl(A)>>
    [] at = "in" -> <<IdxEl(0), IdxEl(i)>>
    [] at = "ino" -> <<IdxEl(0), NameEl(Pad(i))>>
    [] at = "deep" -> [j \in 1..i |-> IdxEl(0)]
    [] at = "deepn" -> [j \in 1..i |-> NameEl(A)]
    [] at \in DOMAIN CharOf -> <<NameEl(Chr(CharOf[at], i))>>
    [] at = "root" -> <<>>
Expand1(r) == [k \in 1..r.c |-> PathAt(r.at, r.f + (k - 1) * r.s)]
Expand(rs) == FlattenSeq([i \in 1..Len(rs) |-> Expand1(rs[i])])
\* a query, its outcome, and - if given - that without duplicates, in order
Case3(q, rs, dd) == [q |-> q, rs |-> rs, dd |-> dd]
Case(q, rs) == Case3(q, rs, <<>>)

S(i) == <<I(i)>>
Z == <<>>
Q(sels) == AbsQ(<<Child(sels)>>)
R(segs) == RelQ(segs)
Me == Qry(R(<<>>))
Fq(f) == Q(<<Filt(f)>>)
K(m) == Lit(Num(m))
Call1(fn, a) == CallArg(T(fn), <<a>>)

\* numbers around nV, and around what a byte or two may count
Near(m) == SetToSortSeq({0, 1, -1, m - 1, m, m + 1, -m, -m - 1, -m + 1, m \div 2, 255, 256, 257, -256, -257, 65535, 65536, -65536, -65537, 2147483647, -2147483647}, LAMBDA a, b : a < b)
Nears(m) == SelectSeq(Near(m), LAMBDA i : i >= 0 /\ i < 99999)

(* ---- index and slice ---- *)
IdxRun(at, m, i) == LET j == IF i < 0 THEN m + i ELSE i IN <<One1(at, j, m)>>
Clamp(x, lo, hi) == Min2(Max2(x, lo), hi)
\* the arithmetic of slices, without taking one step after the other; o is <<>> or <<i>>
SliceRun(at, m, st, en, sp) ==
  LET d == IF sp = Z THEN 1 ELSE sp[1]
      a == IF st = Z THEN (IF d >= 0 THEN 0 ELSE m - 1) ELSE IF st[1] >= 0 THEN st[1] ELSE m + st[1]
      b == IF en = Z THEN (IF d >= 0 THEN m ELSE -1) ELSE IF en[1] >= 0 THEN en[1] ELSE m + en[1]
  IN IF d = 0 THEN <<>>
     ELSE IF d > 0 THEN LET lo == Clamp(a, 0, m)
                            hi == Clamp(b, 0, m)
                        IN <<Run(at, lo, d, IF lo < hi THEN 1 + ((hi - lo - 1) \div d) ELSE 0)>>
     ELSE LET hi == Clamp(a, -1, m - 1)
              lo == Clamp(b, -1, m - 1)
          IN <<Run(at, hi, d, IF lo < hi THEN 1 + ((hi - lo - 1) \div (-d)) ELSE 0)>>
Opt(o) == IF o = Z THEN Z ELSE S(o[1])
SliceOf(st, en, sp) == Slice(Opt(st), Opt(en), Opt(sp))
SliceCase(m, st, en, sp) == Case(Q(<<SliceOf(st, en, sp)>>), SliceRun("idx", m, st, en, sp))
Bounds(m) == <<Z, <<0>>, <<1>>, <<-1>>, <<m \div 2>>, <<m - 1>>, <<m>>, <<m + 1>>, <<-m>>, <<1 - m>>, <<-m - 1>>, <<2147483647>>, <<-2147483647>>>>
Steps(m) == <<Z, <<1>>, <<-1>>, <<2>>, <<-3>>, <<7>>, <<m - 1>>, <<m>>, <<-m>>, <<m + 1>>, <<255>>, <<-256>>, <<257>>, <<65535>>, <<-65536>>, <<65537>>, <<0>>, <<2147483647>>, <<-2147483647>>>>
Product(X, Y) == FlattenSeq([i \in 1..Len(X) |-> [j \in 1..Len(Y) |-> <<X[i], Y[j]>>]])
SliceCases(m) ==
  LET bs == Bounds(m)
      ps == Product(bs, bs)
      ss == Steps(m)
      pick == SelectSeq(Product([i \in 1..Len(ps) |-> i], [i \in 1..Len(ss) |-> i]), LAMBDA x : m <= 70 \/ (x[1] + x[2]) % (IF m <= 1000 THEN 7 ELSE 61) = 0)
  IN [i \in 1..Len(pick) |-> SliceCase(m, ps[pick[i][1]][1], ps[pick[i][1]][2], ss[pick[i][2]])]
IdxCases(k, m) ==
  LET at == IF k = "ints" THEN "idx" ELSE "in"
      pre == IF k = "ints" THEN <<>> ELSE <<Child(<<Idx(0)>>)>>
  IN [i \in 1..Len(Near(m)) |-> Case(AbsQ(pre \o <<Child(<<Idx(Near(m)[i])>>)>>), IdxRun(at, m, Near(m)[i]))]

(* ---- children ---- *)
NameCase(k, m, i) == Case(AbsQ((IF k = "objs" THEN <<>> ELSE <<Child(<<Idx(0)>>)>>) \o <<Child(<<Name(Pad(i))>>)>>),
                          <<One1(IF k = "objs" THEN "name" ELSE "ino", i, m)>>)
Elems(k) == CASE k = "ints" -> "idx" [] k = "objs" -> "name"
ChildCases(k, m) ==
  CASE k \in {"ints", "objs"} ->
         LET at == Elems(k)
             sl == IF k = "ints" THEN Idx(m \div 2) ELSE Name(Pad(m \div 2))
             pick == <<One1(at, m \div 2, m)>>
             whole == <<All(at, m)>>
         IN <<Case3(Q(<<Wild>>), whole, whole), Case3(Q(<<Wild, Wild>>), whole \o whole, whole), Case3(AbsQ(<<Desc(<<Wild>>)>>), whole, whole),
              Case3(Q(<<Wild, sl>>), whole \o pick, whole), Case3(Q(<<sl, Wild, sl>>), pick \o whole \o pick, whole),
              Case3(Q(<<Wild, Wild, Wild>>), whole \o whole \o whole, whole), Case3(AbsQ(<<Desc(<<sl, Wild>>)>>), pick \o whole, whole),
              Case(AbsQ(<<Child(<<Wild>>), Child(<<Wild>>)>>), <<>>), Case3(AbsQ(<<>>), <<Run("root", 0, 1, 1)>>, <<Run("root", 0, 1, 1)>>),
              Case(Q(<<IF k = "ints" THEN Name(Pad(0)) ELSE Idx(0)>>), <<>>)>>
            \o (IF k = "ints"
                THEN IdxCases(k, m)
                     \o <<Case3(Q(<<Wild, SliceOf(Z, Z, <<-1>>)>>), whole \o SliceRun(at, m, Z, Z, <<-1>>), whole),
                          Case3(Q(<<SliceOf(Z, Z, <<-1>>)>>), SliceRun(at, m, Z, Z, <<-1>>), whole),
                          Case3(Q(<<SliceOf(<<m \div 2>>, Z, Z), SliceOf(Z, <<m \div 2>>, Z)>>), SliceRun(at, m, <<m \div 2>>, Z, Z) \o SliceRun(at, m, Z, <<m \div 2>>, Z), whole),
                          Case3(Q(<<SliceOf(<<1>>, Z, <<2>>), SliceOf(<<-1>>, Z, <<-1>>), SliceOf(Z, <<-1>>, <<3>>)>>),
                                SliceRun(at, m, <<1>>, Z, <<2>>) \o SliceRun(at, m, <<-1>>, Z, <<-1>>) \o SliceRun(at, m, Z, <<-1>>, <<3>>), whole)>>
                ELSE [i \in 1..Len(Nears(m)) |-> NameCase(k, m, Nears(m)[i])])
    [] k \in {"rows", "recs"} ->
         LET at == IF k = "rows" THEN "row" ELSE "rec"
             sl == IF k = "rows" THEN Idx(0) ELSE Name(A)
             all == <<All(at, m)>>
             own == IF k = "rows" THEN <<One1("idx", 0, m)>> ELSE <<>>     \* what sl selects of the document itself
         IN <<Case3(AbsQ(<<Child(<<Wild>>), Child(<<Wild>>)>>), all, all), Case(AbsQ(<<Child(<<Wild>>), Child(<<sl>>)>>), all),
              Case3(AbsQ(<<Desc(<<Wild>>)>>), <<All("idx", m)>> \o all, <<>>), Case(AbsQ(<<Desc(<<sl>>)>>), own \o all),
              Case3(AbsQ(<<Child(<<Wild>>), Child(<<sl>>)>>), all, all),
              Case(AbsQ(<<Child(<<SliceOf(Z, Z, <<-1>>)>>), Child(<<sl>>)>>), SliceRun(at, m, Z, Z, <<-1>>)),
              Case(AbsQ(<<Child(<<Idx(m - 1), Idx(0)>>), Child(<<Wild>>)>>), <<One1(at, IF m = 0 THEN -1 ELSE m - 1, m), One1(at, 0, m)>>),
              Case(Q(<<Filt(Exists(R(<<Child(<<sl>>)>>)))>>), <<All("idx", m)>>),
              Case(AbsQ(<<Child(<<Filt(Cmp(Qry(R(<<Child(<<sl>>)>>)), ">=", K(m \div 2)))>>), Child(<<sl>>)>>), <<Run(at, m \div 2, 1, m - (m \div 2))>>),
              Case(AbsQ(<<Desc(<<Filt(Cmp(Me, "<", K(m \div 2)))>>)>>), <<Run(at, 0, 1, m \div 2)>>)>>
    [] k = "wrap" -> IdxCases(k, m) \o <<Case3(AbsQ(<<Child(<<Wild>>), Child(<<Wild>>)>>), <<All("in", m)>>, <<All("in", m)>>),
                                         Case3(AbsQ(<<Child(<<Idx(0), Idx(-1)>>), Child(<<Wild>>)>>), <<All("in", m), All("in", m)>>, <<All("in", m)>>)>>
    [] k = "wrapo" -> [i \in 1..Len(Nears(m)) |-> NameCase(k, m, Nears(m)[i])]

(* ---- filters over many children, each i-th of which is the number i ---- *)
FiltCases(k, m) ==
  LET at == Elems(k)
      ks == <<0, 1, m \div 2, m - 1, m, 255, 256, 65535, 65536>>
      C(op, x) == Cmp(Me, op, K(x))
      Lo(x) == Clamp(x, 0, m)                       \* how many are less than x
      Less(x) == <<Run(at, 0, 1, Lo(x))>>
      From(x) == <<Run(at, Lo(x), 1, m - Lo(x))>>
      Is(x) == <<One1(at, x, m)>>
      per(x) == <<Case(Fq(C("<", x)), Less(x)), Case(Fq(C("<=", x)), Less(x + 1)), Case(Fq(C(">", x)), From(x + 1)), Case(Fq(C(">=", x)), From(x)),
                  Case(Fq(C("==", x)), Is(x)), Case(Fq(C("!=", x)), Less(x) \o From(x + 1)),
                  Case(Fq(Cmp(K(x), "<", Me)), From(x + 1)), Case(Fq(Not(C("<", x))), From(x)),
                  Case(Fq(Or(<<C("<", x), C(">", x)>>)), Less(x) \o From(x + 1)), Case(Fq(And(<<C(">=", x), C("<=", x)>>)), Is(x)),
                  Case3(Q(<<Filt(C(">=", x)), Filt(C("<", x))>>), From(x) \o Less(x), <<All(at, m)>>)>>
      last == IF k = "ints" THEN Idx(m \div 2) ELSE Name(Pad(m \div 2))
  IN FlattenSeq([i \in 1..Len(ks) |-> per(ks[i])])
     \o (IF m > 0 THEN <<Case(Fq(Cmp(Me, "<=", Qry(AbsQ(<<Child(<<last>>)>>)))), Less((m \div 2) + 1)),
                         Case(Fq(Cmp(Qry(AbsQ(<<Child(<<last>>)>>)), "==", Me)), Is(m \div 2))>> ELSE <<>>)
     \o <<Case(Fq(Exists(AbsQ(<<Child(<<last>>)>>))), <<All(at, m)>>), Case(Fq(Exists(R(<<Child(<<last>>)>>))), <<>>)>>

(* ---- functions of much ---- *)
Wraps(x, m) == SetToSortSeq({x, x - 1, x + 1, x - 256, x % 256, x % 128, x - 65536, x % 65536, 2 * x}, LAMBDA a, b : a < b)
Number(fn, arg, val, base) ==       \* is it this number?
  LET ks == Wraps(val, base)
  IN FlattenSeq([i \in 1..Len(ks) |-> <<Case(Fq(Cmp(Call1(fn, arg), "==", K(ks[i]))), If(ks[i] = val, "idx", 0))>>])
     \o <<Case(Fq(Cmp(Call1(fn, arg), ">", K(val - 1))), If(TRUE, "idx", 0)), Case(Fq(Cmp(Call1(fn, arg), ">=", K(val + 1))), If(FALSE, "idx", 0))>>
FnCases(k, m) ==
  CASE k \in {"wrap", "wrapo"} ->
         LET w == Qry(R(<<Child(<<Wild>>)>>))
         IN Number("length", Me, m, m) \o Number("count", w, m, m) \o Number("count", Qry(R(<<Child(<<Wild, Wild>>)>>)), 2 * m, m)
            \o Number("count", Qry(R(<<Desc(<<Wild>>)>>)), m, m)
            \o (IF k = "wrap" THEN Number("count", Qry(R(<<Child(<<SliceOf(<<1>>, Z, Z)>>)>>)), Max2(m - 1, 0), m)
                                   \o Number("count", Qry(R(<<Child(<<SliceOf(Z, Z, <<-2>>)>>)>>)), (m + 1) \div 2, m) ELSE <<>>)
            \o (IF m > 0 THEN Number("value", Qry(R(<<Child(<<IF k = "wrap" THEN Idx(m - 1) ELSE Name(Pad(m - 1))>>)>>)), m - 1, m) ELSE <<>>)
            \o <<Case(Fq(Cmp(Call1("value", w), "==", K(0))), If(m = 1, "idx", 0)), Case(Fq(Cmp(Me, "==", Qry(AbsQ(<<Child(<<Idx(0)>>)>>)))), If(TRUE, "idx", 0))>>
    [] k \in {"str1", "str2", "str3", "str4"} ->
         LET ks == Wraps(m, m)
             c == CharOf[k]
             lit == Lit(Str(Chr(c, m)))
         IN FlattenSeq([i \in 1..Len(ks) |->
               <<Case(Fq(Cmp(Call1("length", Me), "==", K(ks[i]))), If(ks[i] = m, "idx", 0) \o If(ks[i] = m + 1, "idx", 1)),
                 Case(Fq(Cmp(Call1("length", Me), "<", K(ks[i]))), If(m < ks[i], "idx", 0) \o If(m + 1 < ks[i], "idx", 1))>>])
            \o (IF m > 3000 THEN <<>>
                ELSE <<Case(Fq(Cmp(Me, "==", lit)), If(TRUE, "idx", 0)), Case(Fq(Cmp(Me, "<=", lit)), If(TRUE, "idx", 0)), Case(Fq(Cmp(lit, "<", Me)), If(TRUE, "idx", 1)),
                       Case(Fq(Cmp(Me, "!=", lit)), If(TRUE, "idx", 1)),
                       Case(Fq(FTest(T("match"), <<Me, lit>>)), If(TRUE, "idx", 0)), Case(Fq(FTest(T("search"), <<Me, lit>>)), <<Run("idx", 0, 1, 2)>>)>>)
            \o <<Case(Fq(FTest(T("match"), <<Me, Lit(Str(<<c, 42>>))>>)), <<Run("idx", 0, 1, 2)>>),
                 Case(Fq(FTest(T("match"), <<Me, Lit(Str(<<46, 43>>))>>)), If(m > 0, "idx", 0) \o If(TRUE, "idx", 1)),
                 Case(Fq(FTest(T("search"), <<Me, Lit(Str(<<c, c, c>>))>>)), If(m >= 3, "idx", 0) \o If(m >= 2, "idx", 1)),
                 Case(Fq(FTest(T("match"), <<Me, Lit(Str(<<40, c, c, 41, 42>>))>>)), <<One1("idx", m % 2, 2)>>)>>

(* ---- depth ---- *)
DeepCases(k, m) ==
  LET sl == IF k = "deep" THEN Idx(0) ELSE Name(A)
      Down(j) == AbsQ([i \in 1..j |-> Child(<<sl>>)])
      all == <<Run(k, 1, 1, m)>>
      ks == SelectSeq(<<0, 1, m \div 2, m - 1, m, m + 1>>, LAMBDA j : j >= 0)
      Astray(j, x) == AbsQ([i \in 1..m |-> IF i = j THEN x ELSE Child(<<sl>>)])
      js == SelectSeq(<<1, m \div 2, m - 1, m>>, LAMBDA j : 1 <= j /\ j <= m)
      off == IF k = "deep" THEN Idx(1) ELSE Name(<<98>>)
  IN [i \in 1..Len(ks) |-> Case(Down(ks[i]), If(ks[i] <= m, k, ks[i]))]
     \o [i \in 1..Len(js) |-> Case(Astray(js[i], Child(<<off>>)), <<>>)]
     \o [i \in 1..Len(js) |-> Case(Astray(js[i], Child(<<off, sl>>)), If(TRUE, k, m))]
     \o [i \in 1..Len(js) |-> Case(Astray(js[i], Child(<<sl, sl>>)), If(TRUE, k, m) \o If(TRUE, k, m))]
     \o <<Case3(AbsQ(<<Desc(<<Wild>>)>>), all, all), Case3(AbsQ(<<Desc(<<sl>>)>>), all, all), Case3(AbsQ(<<Desc(<<sl, Wild>>)>>), FlattenSeq([j \in 1..m |-> <<Run(k, j, 0, 2)>>]), all),
          Case(AbsQ(<<Desc(<<Wild>>), Child(<<Wild>>)>>), <<Run(k, 2, 1, m - 1)>>), Case(AbsQ(<<Child(<<Wild>>), Desc(<<sl>>)>>), <<Run(k, 2, 1, m - 1)>>),
          Case(AbsQ(<<Desc(<<Filt(Cmp(Me, "==", K(1)))>>)>>), If(m > 0, k, m)),
          Case(AbsQ(<<Desc(<<Filt(Exists(R(<<Child(<<sl>>)>>)))>>)>>), <<Run(k, 1, 1, m - 1)>>),
          Case(AbsQ(<<Desc(<<Filt(Exists(R(<<Child(<<sl>>), Child(<<Wild>>)>>)))>>)>>), <<Run(k, 1, 1, m - 2)>>),
          Case(AbsQ(<<Desc(<<Filt(Not(Exists(R(<<Desc(<<Wild>>)>>))))>>)>>), If(m > 0, k, m)),
          Case(AbsQ(<<Desc(<<Filt(Cmp(Call1("count", Qry(R(<<Desc(<<Wild>>)>>))), "==", K(m \div 2)))>>)>>), If(m > 0, k, m - (m \div 2))),
          Case(AbsQ(<<Desc(<<Filt(Exists(Down(m)))>>)>>), all),
          Case(AbsQ(<<Desc(<<Filt(Cmp(Qry(Down(m)), "==", Me))>>)>>), If(m > 0, k, m))>>

(* ---- long queries ---- *)
LongCases(k, m) ==
  CASE k = "ints" ->
         LET many(Op(_)) == [i \in 1..m |-> Op(i - 1)]
             C(op, x) == Cmp(Me, op, K(x))
             whole == <<All("idx", m)>>
         IN IF m < 2 THEN <<>>
            ELSE <<Case3(Q(many(LAMBDA i : Idx(i))), whole, whole), Case3(Q(many(LAMBDA i : Idx(-1 - i))), <<Run("idx", m - 1, -1, m)>>, whole),
                   Case3(Q(many(LAMBDA i : Idx(0))), <<Run("idx", 0, 0, m)>>, <<Run("idx", 0, 1, 1)>>),
                   Case3(Q(many(LAMBDA i : SliceOf(<<i>>, <<i + 1>>, Z))), whole, whole),
                   Case(Q(many(LAMBDA i : Filt(C("==", i)))), whole),
                   Case(Q(many(LAMBDA i : Idx(IF i = m - 1 THEN m ELSE i))), <<Run("idx", 0, 1, m - 1)>>),
                   Case(Q(many(LAMBDA i : Idx(IF i = m \div 2 THEN m ELSE i))), <<Run("idx", 0, 1, m \div 2), Run("idx", 1 + (m \div 2), 1, m - 1 - (m \div 2))>>),
                   Case(Fq(Or(many(LAMBDA i : C("==", IF i = m - 1 THEN m ELSE i)))), <<Run("idx", 0, 1, m - 1)>>),
                   Case(Fq(And(many(LAMBDA i : C("!=", IF i = m - 1 THEN m ELSE i)))), <<Run("idx", m - 1, 1, 1)>>),
                   Case(Fq(Or(many(LAMBDA i : C("==", i)))), whole), Case(Fq(Or(many(LAMBDA i : C("==", 2 * i)))), <<Run("idx", 0, 2, (m + 1) \div 2)>>),
                   Case(Fq(And(many(LAMBDA i : C("!=", i)))), <<>>), Case(Fq(And(many(LAMBDA i : C("!=", i + 1)))), <<Run("idx", 0, 1, 1)>>),
                   Case(Fq(Or(many(LAMBDA i : And(<<C(">", i - 1), C("<", i + 1)>>)))), whole),
                   Case(Fq(And(many(LAMBDA i : Or(<<C("<", m - 1 - i), C("<", m \div 2)>>)))), <<Run("idx", 0, 1, m \div 2)>>),
                   Case(Fq(Not(Or(many(LAMBDA i : C("==", i))))), <<>>),
                   Case(AbsQ(<<Desc(many(LAMBDA i : Idx(i)))>>), whole),
                   Case(Fq(Or(many(LAMBDA i : Exists(R(<<Child(<<Idx(i)>>)>>))))), <<>>), Case(Fq(And(many(LAMBDA i : Exists(AbsQ(<<Child(<<Idx(i)>>)>>))))), whole)>>
    [] k = "objs" ->
         LET many(Op(_)) == [i \in 1..m |-> Op(i - 1)]
             whole == <<All("name", m)>>
         IN IF m < 2 THEN <<>>
            ELSE <<Case3(Q(many(LAMBDA i : Name(Pad(i)))), whole, whole), Case3(Q(many(LAMBDA i : Name(Pad(m - 1 - i)))), <<Run("name", m - 1, -1, m)>>, whole),
                   Case(Fq(Or(many(LAMBDA i : Cmp(Me, "==", Qry(AbsQ(<<Child(<<Name(Pad(i))>>)>>)))))), whole)>>
    [] k \in {"key1", "key3", "key4"} ->
         LET c == CharOf[k]
         IN <<Case3(Q(<<Name(Chr(c, m))>>), If(TRUE, k, m), If(TRUE, k, m)), Case(Q(<<Name(Chr(c, m + 1)), Name(Chr(c, m))>>), <<Run(k, m + 1, -1, 2)>>), Case(Q(<<Name(Chr(c, m + 2))>>), <<>>),
              Case(AbsQ(<<Desc(<<Name(Chr(c, m + 1))>>)>>), If(TRUE, k, m + 1)), Case(Fq(Cmp(Qry(AbsQ(<<Child(<<Name(Chr(c, m))>>)>>)), "==", Me)), If(TRUE, k, m)),
              Case3(Q(<<Wild>>), <<Run(k, m, 1, 2)>>, <<Run(k, m, 1, 2)>>)>>

Kinds == CASE Suite = "child" -> {"ints", "objs", "rows", "recs", "wrap", "wrapo"}
           [] Suite = "slice" -> {"ints"}
           [] Suite = "filt" -> {"ints", "objs"}
           [] Suite = "fn" -> {"wrap", "wrapo", "str1", "str2", "str3", "str4"}
           [] Suite = "deep" -> {"deep", "deepn"}
           [] Suite = "long" -> {"ints", "objs", "key1", "key3", "key4"}
\* of the largest documents, some
Fewer(cs, m) == IF m < 20000 THEN cs
                ELSE LET js == SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : j % 5 = (IF kind = "ints" THEN 0 ELSE 2)) IN [i \in 1..Len(js) |-> cs[js[i]]]
Cases(k, m) == CASE Suite = "child" -> ChildCases(k, m)
                 [] Suite = "slice" -> SliceCases(m)
                 [] Suite = "filt" -> Fewer(FiltCases(k, m), m)
                 [] Suite = "fn" -> FnCases(k, m)
                 [] Suite = "deep" -> DeepCases(k, m)
                 [] Suite = "long" -> LongCases(k, m)
\* sizes of which the outcomes are replayed
Around(e) == {e - 1, e, e + 1}
Sizes == CASE Suite \in {"deep"} -> {10, 20, 40, 64, 100} \cup (IF Thorough THEN {127, 128, 129, 200} ELSE {129})
           [] Suite \in {"long"} -> {9, 10, 16, 17, 33, 100} \cup (IF Thorough THEN {20, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300} ELSE {64, 130, 257})
           [] OTHER -> {7, 9, 10, 12, 100, 300} \cup UNION {Around(e) : e \in {16, 32, 256}} \cup {64, 65, 127, 128, 129, 1000, 65537}
                       \cup (IF Thorough THEN UNION {Around(e) : e \in {64, 512, 1024, 4096, 32768, 65536}} \cup {70000} ELSE {})

Init == kind \in Kinds /\ nV = 0 /\ pc = "small"
Grow == /\ pc = "small" /\ nV < Small
        /\ nV' = nV + 1 /\ UNCHANGED <<kind, pc>>
Leap == /\ pc = "small" /\ nV = Small
        /\ nV' \in Sizes /\ pc' = "big" /\ UNCHANGED kind
StyleNo == <<Plain, Bracketed, Spaced, Loose>>
\* the texts of the first and the last of a run, and some between
Ends(r) == LET at == SetToSeq({x \in {0, 1, 9, 10, 100, 255, 256, 1000, 10000, 65535, 65536, r.c \div 2, r.c - 1} : 0 <= x /\ x < r.c /\ (r.s # 0 \/ x = 0)})
           IN [x \in 1..Len(at) |-> LET p == PathAt(r.at, r.f + r.s * at[x]) IN [p |-> p, np |-> NormalPath(p), ptr |-> Pointer(p)]]
RunVec(rs) == [i \in 1..Len(rs) |-> [at |-> rs[i].at, f |-> rs[i].f, s |-> rs[i].s, c |-> rs[i].c]]
QVec(c, st) == [s |-> Text(c.q, st), r |-> RunVec(c.rs), dd |-> RunVec(c.dd), ends |-> IF c.dd # <<>> /\ Len(c.dd) < 3 THEN Ends(c.dd[1]) ELSE <<>>]
Report == /\ pc = "big"
          /\ pc' = "done" /\ UNCHANGED <<kind, nV>>
          /\ \E cs \in {Cases(kind, nV)} :
               \A b \in 0..((Len(cs) - 1) \div 40) :
                 PrintT("VEC " \o ToJson([k |-> "big", doc |-> kind, n |-> nV,
                   qs |-> [i \in 1..Min2(40, Len(cs) - 40 * b) |-> QVec(cs[40 * b + i], StyleNo[1 + ((nV + i + b) % 4)])]]))
Next == Grow \/ Leap \/ Report
Spec == Init /\ [][Next]_vars

\* the closed forms are what JPEval defines
Closed == pc = "small" => \A d \in {Doc(kind, nV)}, cs \in {Cases(kind, nV)} : \A i \in 1..Len(cs) :
            EvalPaths(cs[i].q, d) = Expand(cs[i].rs)
Deduped == pc = "small" => \A cs \in {Cases(kind, nV)} : \A i \in 1..Len(cs) :
             cs[i].dd # <<>> => Expand(cs[i].dd) = DedupPaths(Expand(cs[i].rs))
\* the texts mean the queries
Reads == pc = "small" /\ (nV = Small \/ Suite \notin {"slice", "filt"}) => \A cs \in {Cases(kind, nV)} : \A i \in 1..Len(cs) : \A t \in {Text(cs[i].q, StyleNo[1 + ((nV + i) % 4)])} :
           LET r == ParseStrict(t) IN IF r.ok THEN r.v = cs[i].q ELSE FALSE
=============================================================================

------------------------------ MODULE JPValue ------------------------------
(***************************************************************************)
(* JSON values as RFC 9535 compares them.                                  *)
(*                                                                         *)
(*   [t |-> "n"]                               null                        *)
(*   [t |-> "b", b |-> BOOLEAN]                true / false                *)
(*   [t |-> "d", neg, ds, e, f]                the number (-1)^neg ds 10^e *)
(*   [t |-> "s", s |-> Seq(code point)]        string                      *)
(*   [t |-> "a", a |-> Seq(value)]             array                       *)
(*   [t |-> "o", o |-> Seq([k, v])]            object, in the map's        *)
(*                                             iteration order, keys       *)
(*                                             distinct                    *)
(*                                                                         *)
(* Numbers are decimals of unbounded precision (TLC's integers have 32     *)
(* bits): ds is a sequence of digits without leading or trailing zeros,    *)
(* and zero is ds = <<>>, e = 0, neg = FALSE.  f says whether the library  *)
(* has it as a double; no operator but ReprEq looks at it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- decimals ---- *)
RECURSIVE StripLead(_, _)
StripLead(ds, i) == IF i > Len(ds) THEN <<>>
                    ELSE IF ds[i] = 0 THEN StripLead(ds, i + 1)
                    ELSE SubSeq(ds, i, Len(ds))
RECURSIVE TrailZeros(_, _)
TrailZeros(ds, i) == IF i = 0 THEN 0
                     ELSE IF ds[i] = 0 THEN 1 + TrailZeros(ds, i - 1) ELSE 0

DecF(neg, ds, e, f) ==
  LET a == StripLead(ds, 1)
      z == TrailZeros(a, Len(a))
  IN IF a = <<>> THEN [t |-> "d", neg |-> FALSE, ds |-> <<>>, e |-> 0, f |-> f]
     ELSE [t |-> "d", neg |-> neg, ds |-> SubSeq(a, 1, Len(a) - z), e |-> e + z, f |-> f]

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)
\* an integer as the library has it
Num(n) == DecF(n < 0, NatDigits(IF n < 0 THEN -n ELSE n), 0, FALSE)

IsDec(d) == /\ d.ds = <<>> => d.e = 0 /\ ~d.neg
            /\ d.ds # <<>> => d.ds[1] # 0 /\ d.ds[Len(d.ds)] # 0
            /\ \A i \in 1..Len(d.ds) : d.ds[i] \in 0..9

RECURSIVE DigitsLt(_, _, _)
\* lexicographic with trailing zeros understood
DigitsLt(x, y, i) ==
  IF i > Len(x) /\ i > Len(y) THEN FALSE
  ELSE LET dx == IF i > Len(x) THEN 0 ELSE x[i]
           dy == IF i > Len(y) THEN 0 ELSE y[i]
       IN IF dx # dy THEN dx < dy ELSE DigitsLt(x, y, i + 1)

MagLt(x, y) ==
  IF x.ds = <<>> THEN y.ds # <<>>
  ELSE IF y.ds = <<>> THEN FALSE
  ELSE LET px == Len(x.ds) + x.e
           py == Len(y.ds) + y.e
       IN IF px # py THEN px < py ELSE DigitsLt(x.ds, y.ds, 1)

NumLt(x, y) == IF x.neg # y.neg THEN x.neg
               ELSE IF x.neg THEN MagLt(y, x) ELSE MagLt(x, y)
\* does the whole number neg ds (digits from the first that is not 0) exceed 64 bits?
Beyond64(neg, ds) ==
  LET max == IF neg THEN <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
             ELSE <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
  IN Len(ds) > Len(max) \/ (Len(ds) = Len(max) /\ DigitsLt(max, ds, 1))
\* the number ds 10^e as the library has it, if it is written in the shortest way
Dec(neg, ds, e) == DecF(neg, ds, e, IF e < 0 THEN TRUE ELSE IF Len(ds) + e > 20 THEN TRUE
                                    ELSE Beyond64(neg, ds \o [i \in 1..e |-> 0]))

NumEq(x, y) == x.neg = y.neg /\ x.ds = y.ds /\ x.e = y.e

(* ---- sequences of integers: strings, by code point ---- *)
RECURSIVE SeqLtFrom(_, _, _)
SeqLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE SeqLtFrom(a, b, i + 1)
StrLt(a, b) == SeqLtFrom(a, b, 1)

(* ---- equality of values ---- *)
Keys(v) == {v.o[i].k : i \in 1..Len(v.o)}
HasKey(v, k) == \E i \in 1..Len(v.o) : v.o[i].k = k
Member(v, k) == v.o[CHOOSE i \in 1..Len(v.o) : v.o[i].k = k].v

RECURSIVE ValEq(_, _)
ValEq(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "n" -> TRUE
       [] x.t = "b" -> x.b = y.b
       [] x.t = "d" -> NumEq(x, y)
       [] x.t = "s" -> x.s = y.s
       [] x.t = "a" -> /\ Len(x.a) = Len(y.a)
                       /\ \A i \in 1..Len(x.a) : ValEq(x.a[i], y.a[i])
       [] x.t = "o" -> /\ Len(x.o) = Len(y.o)
                       /\ \A i \in 1..Len(x.o) :
                            /\ HasKey(y, x.o[i].k)
                            /\ ValEq(x.o[i].v, Member(y, x.o[i].k))

\* KF6: how the library compares what is in arrays and objects: by representation
RECURSIVE ReprEq(_, _)
ReprEq(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "d" -> NumEq(x, y) /\ x.f = y.f
       [] x.t = "a" -> /\ Len(x.a) = Len(y.a)
                       /\ \A i \in 1..Len(x.a) : ReprEq(x.a[i], y.a[i])
       [] x.t = "o" -> /\ Len(x.o) = Len(y.o)
                       /\ \A i \in 1..Len(x.o) :
                            /\ HasKey(y, x.o[i].k)
                            /\ ReprEq(x.o[i].v, Member(y, x.o[i].k))
       [] OTHER -> ValEq(x, y)

\* The strict order of RFC 9535: numbers and strings only
ValLt(x, y) == /\ x.t = y.t
               /\ CASE x.t = "d" -> NumLt(x, y)
                    [] x.t = "s" -> StrLt(x.s, y.s)
                    [] OTHER -> FALSE

IsContainer(v) == v.t \in {"a", "o"}
Kids(v) == IF v.t = "a" THEN Len(v.a) ELSE IF v.t = "o" THEN Len(v.o) ELSE 0

RECURSIVE Size(_)
RECURSIVE SizeSum(_, _)
SizeSum(v, i) == IF i = 0 THEN 0
                 ELSE SizeSum(v, i - 1) + Size(IF v.t = "a" THEN v.a[i] ELSE v.o[i].v)
Size(v) == 1 + SizeSum(v, Kids(v))

(* ---- I-JSON integers: [neg, ds], ds without leading zeros, <<0>> for 0 ---- *)
MaxInt == <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 1>>
IntInRange(ds) == \/ Len(ds) < 16
                  \/ Len(ds) = 16 /\ ~DigitsLt(MaxInt, ds, 1)
RECURSIVE DigitsVal(_, _)
DigitsVal(ds, n) == IF n = 0 THEN 0 ELSE 10 * DigitsVal(ds, n - 1) + ds[n]
\* Integer of a magnitude that is clamped to 10^8, which exceeds the length of
\* any array considered
IntVal(i) == LET m == IF Len(i.ds) > 8 THEN 100000000 ELSE DigitsVal(i.ds, Len(i.ds))
             IN IF i.neg THEN -m ELSE m
=============================================================================

-------------------------------- MODULE MC_Int --------------------------------
(***************************************************************************)
(* The I-JSON integer as a register machine: a register that takes values, *)
(* and is added to, subtracted from and multiplied, and keeps its value    *)
(* when the result would be out of range.                                  *)
(***************************************************************************)
EXTENDS JPInt, Json, IOUtils, TLC

VARIABLES reg, steps
vars == <<reg, steps>>

Thorough == IOEnv.TIER = "thorough"
Up(a, b) == IF Thorough THEN b ELSE a
P(s) == [neg |-> FALSE, ds |-> s]
M(s) == [neg |-> TRUE, ds |-> s]
Max == P(MaxInt)
Min == M(MaxInt)
Small == {P(NatDigits(n)) : n \in {0, 1, 2, 3, 10, 99}} \cup {M(NatDigits(n)) : n \in {1, 2, 7}}
\* around the bounds, their halves, their square roots, and the bounds of 32 bits
Near == {Max, Min, P(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 0>>), M(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 8, 9>>),
         P(<<4, 5, 0, 3, 5, 9, 9, 6, 2, 7, 3, 7, 0, 4, 9, 5>>), P(<<4, 5, 0, 3, 5, 9, 9, 6, 2, 7, 3, 7, 0, 4, 9, 6>>),
         M(<<4, 5, 0, 3, 5, 9, 9, 6, 2, 7, 3, 7, 0, 4, 9, 6>>), M(<<4, 5, 0, 3, 5, 9, 9, 6, 2, 7, 3, 7, 0, 4, 9, 5>>),
         P(<<9, 4, 9, 0, 6, 2, 6, 5>>), P(<<9, 4, 9, 0, 6, 2, 6, 6>>), M(<<9, 4, 9, 0, 6, 2, 6, 5>>),
         P(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>), P(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>), P(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>), M(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>)}
Pool == Small \cup Near \cup (IF Thorough THEN {P(NatDigits(n)) : n \in {127, 128, 255, 256, 32767, 65535, 65536, 46341, 1000000}}
   \cup {M(NatDigits(n)) : n \in {128, 129, 32768, 32769, 65537}} \cup {P(<<3, 0, 0, 2, 3, 9, 9, 7, 5, 1, 5, 8, 0, 3, 3, 0>>), P(<<3, 0, 0, 2, 3, 9, 9, 7, 5, 1, 5, 8, 0, 3, 3, 1>>)} ELSE {})
\* integers that are converted: in range or not, up to the bounds of 64 and 128 bits
Wide == Pool \cup {IntAdd(Max, P(<<1>>)), IntAdd(Min, M(<<1>>)), IntAdd(Max, P(<<2>>)), P(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>),
   P(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>), M(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>), M(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 9>>),
   P(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>), P(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>),
   P(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 2, 1>>), P(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 1, 0>>), P(<<1, 8, 0, 1, 4, 3, 9, 8, 5, 0, 9, 4, 8, 1, 9, 8, 4>>)}

Vec(f, a, b, r) == PrintT("VEC " \o ToJson([k |-> "int", f |-> f, a |-> a, b |-> b, r |-> r]))
VecC(a, b) == PrintT("VEC " \o ToJson([k |-> "int", f |-> "cmp", a |-> a, b |-> b, c |-> IntCmp(a, b)]))
Zero == P(<<0>>)

Init == reg = Zero /\ steps = 0
Load == /\ steps = 0
        /\ \E x \in Wide : /\ reg' = IF IntInRange(x.ds) THEN x ELSE reg
                           /\ steps' = IF IntInRange(x.ds) THEN 1 ELSE 0
                           /\ Vec("from", x, Zero, Checked(x))
Op(f, y) == \E r \in {IntOp(f, reg, y)} :
              /\ reg' = IF r = <<>> THEN reg ELSE r[1]
              /\ Vec(f, reg, y, r)
Compute == /\ steps \in 1..Up(1, 2)
           /\ steps' = steps + 1
           /\ \E y \in Pool : \/ \E f \in {"add", "sub", "mul"} : Op(f, y)
                              \/ reg' = reg /\ VecC(reg, y)
                              \/ y = Zero /\ Op("abs", y)
Next == Load \/ Compute
Spec == Init /\ [][Next]_vars

Proper == LET a == reg.ds IN /\ IntInRange(a)
                             /\ Len(a) > 0 /\ (Len(a) > 1 => a[1] # 0) /\ (a = <<0>> => ~reg.neg)
\* laws of exact arithmetic
Laws == \A y \in Pool :
  /\ IntAdd(reg, y) = IntAdd(y, reg) /\ IntMul(reg, y) = IntMul(y, reg)
  /\ IntAdd(IntAdd(reg, y), Neg(y)) = reg
  /\ IntMul(reg, IntAdd(y, P(<<1>>))) = IntAdd(IntMul(reg, y), reg)
  /\ IntMul(reg, Neg(y)) = Neg(IntMul(reg, y))
  /\ IntCmp(reg, y) = -IntCmp(y, reg) /\ (IntCmp(reg, y) = 0 <=> reg = y)
  /\ IntCmp(reg, y) < 0 <=> IntAdd(reg, Neg(y)).neg
  /\ IntCmp(Zero, IntOp("abs", reg, y)[1]) <= 0
  /\ \A z \in Small : IntAdd(IntAdd(reg, y), z) = IntAdd(reg, IntAdd(y, z))
\* where TLC's own integers suffice
Native == Len(reg.ds) <= 4 => \A y \in {p \in Pool : Len(p.ds) <= 4} :
  /\ IntVal(IntAdd(reg, y)) = IntVal(reg) + IntVal(y)
  /\ IntVal(IntMul(reg, y)) = IntVal(reg) * IntVal(y)
  /\ IntCmp(reg, y) = (IF IntVal(reg) < IntVal(y) THEN -1 ELSE IF IntVal(reg) > IntVal(y) THEN 1 ELSE 0)
=============================================================================

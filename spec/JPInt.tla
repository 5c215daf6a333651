------------------------------- MODULE JPInt -------------------------------
(***************************************************************************)
(* The I-JSON integer type: integers [neg, ds] as in JPValue, with exact   *)
(* arithmetic on digit sequences.                                          *)
(***************************************************************************)
EXTENDS JPValue

Nz(ds) == LET a == StripLead(ds, 1) IN IF a = <<>> THEN <<0>> ELSE a
MkInt(neg, ds) == LET a == Nz(ds) IN [neg |-> neg /\ a # <<0>>, ds |-> a]
\* digits from the least significant one: k-th, 0 beyond
Dig(ds, k) == IF k > Len(ds) THEN 0 ELSE ds[Len(ds) + 1 - k]

MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DigitsLt(a, b, 1)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, carry) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == Dig(a, k) + Dig(b, k) + carry
       IN AddFrom(a, b, k + 1, s \div 10) \o <<s % 10>>
MagAdd(a, b) == Nz(AddFrom(a, b, 1, 0))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, k, borrow) ==      \* a >= b
  IF k > Len(a) THEN <<>>
  ELSE LET s == Dig(a, k) - Dig(b, k) - borrow
       IN SubFrom(a, b, k + 1, IF s < 0 THEN 1 ELSE 0) \o <<IF s < 0 THEN s + 10 ELSE s>>
MagSub(a, b) == Nz(SubFrom(a, b, 1, 0))
RECURSIVE MulDigit(_, _, _, _), MulFrom(_, _, _)
MulDigit(a, d, k, carry) ==
  IF k > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == Dig(a, k) * d + carry IN MulDigit(a, d, k + 1, s \div 10) \o <<s % 10>>
MulFrom(a, b, j) == IF j > Len(b) THEN <<0>>
                    ELSE MagAdd(Append(MulFrom(a, b, j + 1), 0), MulDigit(a, Dig(b, j), 1, 0))
MagMul(a, b) == Nz(MulFrom(a, b, 1))

Neg(x) == MkInt(~x.neg, x.ds)
IntAdd(x, y) == IF x.neg = y.neg THEN MkInt(x.neg, MagAdd(x.ds, y.ds))
                ELSE IF MagLess(x.ds, y.ds) THEN MkInt(y.neg, MagSub(y.ds, x.ds))
                ELSE MkInt(x.neg, MagSub(x.ds, y.ds))
IntMul(x, y) == MkInt(x.neg # y.neg, MagMul(x.ds, y.ds))
IntCmp(x, y) == IF x = y THEN 0
                ELSE IF x.neg # y.neg THEN (IF x.neg THEN -1 ELSE 1)
                ELSE IF MagLess(x.ds, y.ds) THEN (IF x.neg THEN 1 ELSE -1)
                ELSE (IF x.neg THEN -1 ELSE 1)
Checked(x) == IF IntInRange(x.ds) THEN <<x>> ELSE <<>>
IntOp(f, x, y) == CASE f = "add" -> Checked(IntAdd(x, y))
                    [] f = "sub" -> Checked(IntAdd(x, Neg(y)))
                    [] f = "mul" -> Checked(IntMul(x, y))
                    [] f = "abs" -> <<MkInt(FALSE, x.ds)>>
=============================================================================

------------------------------ MODULE JPPrint ------------------------------
(***************************************************************************)
(* Texts of locations: Normalized Paths (RFC 9535, 2.7) and JSON Pointers  *)
(* (RFC 6901), and the UTF-8 offsets of positions in a text.               *)
(***************************************************************************)
EXTENDS JPEval

RECURSIVE FlatMapSeq(_, _, _)
FlatMapSeq(Op(_), s, i) == IF i > Len(s) THEN <<>> ELSE Op(s[i]) \o FlatMapSeq(Op, s, i + 1)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
NormalChar(c) ==
  CASE c = 8 -> <<92, 98>>       \* \b
    [] c = 9 -> <<92, 116>>      \* \t
    [] c = 10 -> <<92, 110>>     \* \n
    [] c = 12 -> <<92, 102>>     \* \f
    [] c = 13 -> <<92, 114>>     \* \r
    [] c = 39 -> <<92, 39>>      \* \'
    [] c = 92 -> <<92, 92>>      \* \\
    [] c < 32 /\ c \notin {8, 9, 10, 12, 13} ->
         <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER -> <<c>>
Decimal(n) == LET ds == NatDigits(n) IN [i \in 1..Len(ds) |-> ds[i] + 48]

NormalElem(e) == IF e[1] = 0 THEN <<91>> \o Decimal(e[2]) \o <<93>>
                 ELSE <<91, 39>> \o FlattenSeq([i \in 1..(Len(e) - 1) |-> NormalChar(e[i + 1])]) \o <<39, 93>>
NormalPath(p) == <<36>> \o FlattenSeq([i \in 1..Len(p) |-> NormalElem(p[i])])

PointerChar(c) == CASE c = 126 -> <<126, 48>> [] c = 47 -> <<126, 49>> [] OTHER -> <<c>>
PointerElem(e) == <<47>> \o (IF e[1] = 0 THEN Decimal(e[2])
                             ELSE FlattenSeq([i \in 1..(Len(e) - 1) |-> PointerChar(e[i + 1])]))
Pointer(p) == FlattenSeq([i \in 1..Len(p) |-> PointerElem(p[i])])

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE IsBoundaryFrom(_, _, _)
IsBoundaryFrom(text, i, off) == IF off = 0 THEN TRUE
                                ELSE IF off < 0 \/ i > Len(text) THEN FALSE
                                ELSE IsBoundaryFrom(text, i + 1, off - Utf8Len(text[i]))
\* is the UTF-8 offset on a character boundary of the text, or its end?
IsBoundary(text, off) == IsBoundaryFrom(text, 1, off)
=============================================================================

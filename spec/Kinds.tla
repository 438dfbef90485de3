-------------------------------- MODULE Kinds --------------------------------
(***************************************************************************)
(* Kinds of JSON values, masks of kinds, and what a reference of each kind *)
(* answers when it is read as another one.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KindSeq == <<"String", "Object", "Array", "Number", "Boolean", "Null">>   \* in bit order, from bit 1
Kinds   == {KindSeq[k] : k \in 1..6}
None    == "InvalidToken"                       \* what a reference to nothing reports
Bit(k)  == 2 ^ k                                \* of KindSeq[k]
Has(mask, k) == (mask \div Bit(k)) % 2 = 1
Mask(S) == LET F[k \in 0..6] == IF k = 0 THEN 0 ELSE F[k - 1] + (IF KindSeq[k] \in S THEN Bit(k) ELSE 0) IN F[6]
Any     == Mask(Kinds)

\* The member kinds of a mask, in bit order.
Members(mask) == SelectSeq(KindSeq, LAMBDA x : \E k \in 1..6 : KindSeq[k] = x /\ Has(mask, k))
MemberSet(mask) == {KindSeq[k] : k \in {j \in 1..6 : Has(mask, j)}}

RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o s[i] \o Join(s, i + 1)
Name(mask) ==
  LET m == Members(mask) IN
  CASE Len(m) = 0 -> None
    [] Len(m) = 1 -> m[1]
    [] mask = Any -> "AnyValue"
    [] OTHER      -> "[" \o Join(m, 1) \o "]"

------------------------------------------------------------------------------
\* Reads.  Which conversions of a reference of a kind can succeed (on suitable text).
Reads == {"bool", "int", "uint", "float", "text", "get", "index", "iterate", "any", "json", "utext"}
Reads_(k) ==
  CASE k = "String"  -> {"text", "any", "json", "utext"}
    [] k = "Object"  -> {"get", "iterate", "any", "json"}
    [] k = "Array"   -> {"index", "iterate", "any", "json"}
    [] k = "Number"  -> {"int", "uint", "float", "any", "json"}
    [] k = "Boolean" -> {"bool", "any", "json"}
    [] k = "Null"    -> {"any", "json"}
    [] OTHER -> {}
\* The kinds a failed read names as wanted.
Wanted(read) == CASE read = "utext" -> {"String"} [] read = "json" -> Kinds [] OTHER -> {}

\* A type error names the actual kind and every wanted kind (the actual kind only, if it is among the wanted ones).
ErrorNames(kind, want) == IF kind \in MemberSet(want) THEN {kind} ELSE {kind} \cup MemberSet(want)
=============================================================================

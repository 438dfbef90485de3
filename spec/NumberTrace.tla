----------------------------- MODULE NumberTrace -----------------------------
(* Judges logged conversions.                                                *)
EXTENDS Number, Judge
Fmt(x) == IF x.bits = 32 THEN F32 ELSE F64
Check(x) ==
  IF x.op = "float"
  THEN LET n == Scan(x.s) IN
       IF ~n.ok THEN IF x.f.nan THEN "" ELSE "float: not a number" ELSE IF Rounded(n, x.f, F64) THEN "" ELSE "float: not the nearest value"
  ELSE IF x.op = "int" THEN IF x.i = ToInt(x.s) THEN "" ELSE "int: " \o ToString(ToInt(x.s))
  ELSE IF x.op = "uint" THEN IF x.i = ToUint(x.s) THEN "" ELSE "uint: " \o ToString(ToUint(x.s))
  ELSE IF Formatted(x.s, x.f, Fmt(x)) THEN "" ELSE "format"
=============================================================================

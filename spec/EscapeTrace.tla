----------------------------- MODULE EscapeTrace -----------------------------
(* Judges logged calls: [op |-> "esc", html, s, o] and [op |-> "unesc", s, o]. *)
EXTENDS Escape, Judge
Check(x) ==
  IF x.op = "esc"
  THEN IF ~Body(x.o, x.html) THEN "body" ELSE IF Unesc(x.o) # Sanitize(x.s) THEN "decodes to " \o ToString(Unesc(x.o)) ELSE ""
  ELSE IF Len(x.o) > Len(x.s) THEN "size"
  ELSE IF Defined(x.s) /\ x.o # Unesc(x.s) THEN "unescapes to " \o ToString(Unesc(x.s)) ELSE ""
=============================================================================

----------------------------- MODULE TestKitTrace -----------------------------
(* Judges recorded cases: [case, got] with the verdict of every run.          *)
EXTENDS TestKit, Judge
Check(x) == LET w == IF Passes(x.case) THEN "pass" ELSE "fail" IN
  IF x.got = <<>> THEN "never ran" ELSE IF \A k \in DOMAIN x.got : x.got[k] = w THEN "" ELSE "got " \o ToString(x.got) \o " instead of " \o w
==============================================================================

------------------------------- MODULE MCEscape -------------------------------
(* All texts built from up to N pieces; each is printed as a test.            *)
EXTENDS Escape, TLC, Json
CONSTANTS N, Emit
Pieces == {<<92>>, <<34>>, <<47>>, <<97>>, <<110>>, <<98>>, <<117>>, <<48, 48, 52, 49>>, <<100, 56, 51, 100>>, <<68, 69, 48, 48>>, <<50, 48, 50, 56>>,
           <<92, 117, 100, 56, 51, 68>>, <<92, 117, 68, 101, 48, 48>>, <<92, 117, 48, 48, 101, 57>>, <<92, 117, 102, 102, 102, 102>>, <<92, 117, 48, 48, 51>>, <<92, 114>>,
           <<226>>, <<128>>, <<168>>, <<237, 160, 128>>, <<240, 159, 152, 128>>, <<60>>, <<1>>, <<195, 169>>, <<255>>, <<127>>}
VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E p \in Pieces : s' = s \o p
Spec == Init /\ [][Next]_<<s, n>>
View == s
Inv ==
  /\ Defined(s) => Len(Unesc(s)) <= Len(s)
  /\ (Defined(s) /\ \A i \in DOMAIN s : s[i] # Back) => Unesc(s) = s
  /\ Sanitize(Sanitize(s)) = Sanitize(s)
  /\ Body(s, TRUE) => Body(s, FALSE)
  /\ Body(s, FALSE) => Defined(s) /\ Sanitize(Unesc(s)) = Unesc(s)
  /\ \A html \in BOOLEAN : LET e == Escape(s, html) IN Body(e, html) /\ Unesc(e) = Sanitize(s)
Test == Emit => PrintT("TEST " \o ToJson([s |-> s, def |-> Defined(s), u |-> IF Defined(s) THEN Unesc(s) ELSE <<>>, san |-> Sanitize(s), body |-> Body(s, FALSE)]))
=============================================================================

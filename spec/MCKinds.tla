------------------------------- MODULE MCKinds -------------------------------
(* Every mask, every pair of an actual kind and a wanted mask, every pair of  *)
(* a kind and a read.                                                         *)
EXTENDS Kinds, TLC, Json
Actual == Kinds \cup {None}
Cases == [t : {"mask"}, mask : 0..127] \cup [t : {"error"}, kind : Actual, mask : 0..127] \cup [t : {"read"}, kind : Actual]
VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Inv ==
  /\ c.t = "mask" => /\ Mask(MemberSet(c.mask)) = c.mask - (c.mask % 2)
                     /\ Len(Members(c.mask)) = Cardinality(MemberSet(c.mask))
                     /\ \A d \in 0..127 : Name(c.mask) = Name(d) => MemberSet(c.mask) = MemberSet(d)
  /\ c.t = "error" => (c.kind \in ErrorNames(c.kind, c.mask)) /\ ErrorNames(c.kind, c.mask) \subseteq {c.kind} \cup MemberSet(c.mask)
  /\ c.t = "read" => \A r \in Reads : r \in Reads_(c.kind) => c.kind \in Kinds
\* Distinct kinds are told apart by their reads, so that a wrong kind cannot go unnoticed.
ASSUME \A a, b \in Kinds : a # b => Reads_(a) # Reads_(b)
Out == CASE c.t = "mask" -> [t |-> "mask", mask |-> c.mask, members |-> Members(c.mask), name |-> Name(c.mask)]
         [] c.t = "error" -> [t |-> "error", kind |-> c.kind, mask |-> c.mask, names |-> ErrorNames(c.kind, c.mask)]
         [] OTHER -> [t |-> "read", kind |-> c.kind, reads |-> Reads_(c.kind), wanted |-> [r \in {"json", "utext"} |-> Wanted(r)]]
Test == PrintT("TEST " \o ToJson(Out))
=============================================================================

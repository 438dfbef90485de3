----------------------------- MODULE MCRegistry -----------------------------
(* All interleavings of small sets of requests.  Every complete one is a     *)
(* schedule to run the real registry with.                                   *)
EXTENDS Registry, TLC, Json, SequencesExt
CONSTANTS Long,                      \* callers ask for up to this many
          Emit
VARIABLE hist
ASSUME Proc = 1..Cardinality(Proc)
RECURSIVE Upto(_)
Upto(n) == IF n = 1 THEN {<<t>> : t \in Type} ELSE Upto(n - 1) \cup {<<t>> \o r : t \in Type, r \in Upto(n - 1)}
Reqs == SetToSeq(Upto(Long))
\* callers are alike: their requests are in order
Ordered(f) == \A p \in Proc : p + 1 \in Proc => f[p] <= f[p + 1]
Init == \E f \in [Proc -> DOMAIN Reqs] :
          /\ Ordered(f) /\ Start([p \in Proc |-> Reqs[f[p]]])
          /\ hist = [reqs |-> [p \in Proc |-> Reqs[f[p]]], order |-> <<>>]
MNext == Next /\ hist' = [hist EXCEPT !.order = IF Emit THEN Append(@, step') ELSE @]
allvars == <<vars, hist>>
Spec == Init /\ [][MNext]_allvars
FairSpec == Spec /\ \A p \in Proc : SF_allvars(Move(p) /\ step' = p /\ hist' = hist)
Inv == Good(answers, of) /\ Locked /\ Built /\ Live
\* answers so far are those of a registry that answers at once: the codec that an answer brings is
\* published by then and stays
Published == \A n \in DOMAIN answers : answers[n].c = IF answers[n].t \in Bad THEN None ELSE table[answers[n].t]
Test == (Emit /\ Done) => PrintT("TEST " \o ToJson([reqs |-> hist.reqs, order |-> hist.order]))
=============================================================================

------------------------------- MODULE MCBuffers -------------------------------
(* All interleavings of processes that run forests of nested calls, whatever *)
(* buffers the pool hands out.  A forest is a word of "i" (call) and "o"     *)
(* (end of its callback); the kind and outcome of a call is attached to i.   *)
EXTENDS Buffers, TLC, Json
CONSTANTS Calls,                     \* number of calls of each process
          Kinds,                     \* of calls
          Ends,                      \* of callbacks: ok, err, panic
          Emit
VARIABLES left, hist
allvars == <<bvars, left, hist>>
Marks == {[m |-> "i", k |-> x, e |-> y] : x \in Kinds, y \in Ends}
RECURSIVE Words(_, _)
Words(n, open) ==
  (IF n = 0 /\ open = 0 THEN {<<>>} ELSE {})
  \cup (IF n > 0 THEN {<<m>> \o r : m \in Marks, r \in Words(n - 1, open + 1)} ELSE {})
  \cup (IF open > 0 THEN {<<[m |-> "o"]>> \o r : r \in Words(n, open - 1)} ELSE {})
Init == /\ BufInit
        /\ \E w \in [Proc -> Words(Calls, 0)] : left = w /\ hist = [prog |-> w, order |-> <<>>, pick |-> <<>>]
Log(p) == IF Emit THEN [hist EXCEPT !.order = Append(@, p)] ELSE hist
Free == {b \in DOMAIN bufs : bufs[b].free}
Pos(b) == IF b > Len(bufs) THEN 0 ELSE Cardinality({x \in Free : x <= b})
Busy2(p) == stack[p] # <<>> /\ Top(p).st # "called"
Move(p) ==
  \/ Busy2(p) /\ (Call(p) \/ Give(p)) /\ left' = left /\ hist' = Log(p)
  \/ /\ ~Busy2(p) /\ left[p] # <<>>
     /\ left' = [left EXCEPT ![p] = Tail(@)]
     /\ IF Head(left[p]).m = "i"
        THEN \E b \in Free \cup {Len(bufs) + 1} :
               /\ Take(p, p * 100 + Len(left[p]), b)
               /\ hist' = IF Emit THEN [Log(p) EXCEPT !.pick = Append(@, Pos(b))] ELSE hist
        ELSE Return(p) /\ hist' = Log(p)
Next == \E p \in Proc : Move(p)
Spec == Init /\ [][Next]_allvars
Done == \A p \in Proc : left[p] = <<>> /\ stack[p] = <<>>
Live == Done \/ ENABLED Next
Test == (Emit /\ Done) => PrintT("TEST " \o ToJson(hist))
=============================================================================

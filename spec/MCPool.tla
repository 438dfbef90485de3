-------------------------------- MODULE MCPool --------------------------------
(* All interleavings of holders that follow small programs, whatever the     *)
(* pools hand out.  Every complete one is a schedule for the real pools.     *)
EXTENDS Pool, TLC, Json
CONSTANTS Steps,                     \* length of the programs
          Emit
VARIABLES left,                      \* what each holder still does; a call in two steps stays until its end
          hist
\* get from a pool, parse into the last document got, edit or look at the k-th reference, put the last document got
Acts == {[a |-> "get", pool |-> n] : n \in Name} \cup {[a |-> "put", pool |-> n] : n \in Name} \cup {[a |-> x] : x \in {"parse", "edit"}}
\* programs that hold at most two documents and do not use what they do not have
RECURSIVE Progs(_, _, _)
Progs(n, held, nrefs) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {
    LET ok == CASE x.a = "get" -> held < 2 /\ n > 1 [] x.a = "edit" -> nrefs > 0 [] OTHER -> held > 0
        h2 == CASE x.a = "get" -> held + 1 [] x.a = "put" -> held - 1 [] OTHER -> held
        r2 == IF x.a = "parse" THEN nrefs + 1 ELSE nrefs
    IN IF ok THEN {<<x>> \o r : r \in Progs(n - 1, h2, r2)} ELSE {} : x \in Acts }
Programs == Progs(Steps, 0, 0)
allvars == <<pvars, left, hist>>
Val(p, n) == ToString(p * 100 + n)
Init == /\ PoolInit
        /\ \E f \in [Proc -> Programs] : left = f /\ hist = [prog |-> f, order |-> <<>>, pick |-> <<>>]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Pos(pool, d) == IF d > Len(docs) THEN 0 ELSE Cardinality({x \in Free(pool) : x <= d})
Move(p) ==
  /\ left[p] # <<>>
  /\ LET x == Head(left[p])  rest == [left EXCEPT ![p] = Tail(@)]  k == Steps - Len(left[p]) IN
     /\ \/ x.a = "get" /\ left' = rest
           /\ \E d \in Free(x.pool) \cup {Len(docs) + 1} :
                Get(p, x.pool, d) /\ hist' = IF Emit THEN [hist EXCEPT !.order = Append(@, p), !.pick = Append(@, Pos(x.pool, d))] ELSE hist
        \/ x.a = "parse" /\ Parse(p, Max(Held(p)), Val(p, k)) /\ left' = rest /\ hist' = IF Emit THEN [hist EXCEPT !.order = Append(@, p)] ELSE hist
        \/ x.a = "edit" /\ Edit(p, 1, Val(p, k)) /\ left' = rest /\ hist' = IF Emit THEN [hist EXCEPT !.order = Append(@, p)] ELSE hist
        \/ x.a = "put" /\ at[p] = <<>> /\ PutBegin(p, Max(Held(p)), x.pool) /\ left' = left /\ hist' = IF Emit THEN [hist EXCEPT !.order = Append(@, p)] ELSE hist
        \/ x.a = "put" /\ PutEnd(p) /\ left' = rest /\ hist' = IF Emit THEN [hist EXCEPT !.order = Append(@, p)] ELSE hist
Next == \E p \in Proc : Move(p)
Spec == Init /\ [][Next]_allvars
Done == \A p \in Proc : left[p] = <<>>
Live == Done \/ ENABLED Next
Test == (Emit /\ Done) => PrintT("TEST " \o ToJson(hist))
=============================================================================

-------------------------------- MODULE Buffers --------------------------------
(* Calls that write something into a buffer of a common pool, hand the bytes *)
(* to a callback, and give the buffer back when it returns or fails.         *)
(* Callbacks make such calls themselves, and several processes do so at      *)
(* once.  A frame is a call that is going on.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Proc
VARIABLES bufs,     \* sequence of [free, has]: has is the number of the frame whose bytes are in the buffer
          stack     \* process -> sequence of [f, b, st], innermost last
bvars == <<bufs, stack>>
Top(p) == stack[p][Len(stack[p])]
Pop(p) == SubSeq(stack[p], 1, Len(stack[p]) - 1)
Frames == UNION {{stack[p][n] : n \in DOMAIN stack[p]} : p \in Proc}
BufInit == bufs = <<>> /\ stack = [p \in Proc |-> <<>>]
InCallback(p) == IF stack[p] = <<>> THEN TRUE ELSE Top(p).st = "called"
Take(p, f, b) ==
  /\ InCallback(p)
  /\ \/ b = Len(bufs) + 1 /\ bufs' = Append(bufs, [free |-> FALSE, has |-> 0])
     \/ b \in DOMAIN bufs /\ bufs[b].free /\ bufs' = [bufs EXCEPT ![b].free = FALSE]
  /\ stack' = [stack EXCEPT ![p] = Append(@, [f |-> f, b |-> b, st |-> "taken"])]
Call(p) == /\ stack[p] # <<>> /\ Top(p).st = "taken"
           /\ bufs' = [bufs EXCEPT ![Top(p).b].has = Top(p).f]
           /\ stack' = [stack EXCEPT ![p][Len(stack[p])].st = "called"]
Return(p) == /\ stack[p] # <<>> /\ Top(p).st = "called"
             /\ stack' = [stack EXCEPT ![p][Len(stack[p])].st = "returned"] /\ UNCHANGED bufs
Give(p) == /\ stack[p] # <<>> /\ Top(p).st = "returned"
           /\ bufs' = [bufs EXCEPT ![Top(p).b].free = TRUE] /\ stack' = [stack EXCEPT ![p] = Pop(p)]

\* ---------------------------------------------------------------- what holds
\* the bytes of a call are its own from the callback's start to its end
Intact == \A x \in Frames : x.st # "taken" => bufs[x.b].has = x.f
Apart == \A x, y \in Frames : x.f # y.f => x.b # y.b
Busy == \A x \in Frames : ~bufs[x.b].free
BufInv == Intact /\ Apart /\ Busy
=============================================================================

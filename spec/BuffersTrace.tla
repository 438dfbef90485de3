----------------------------- MODULE BuffersTrace -----------------------------
(* Judges recorded runs of nested calls: each record is [frames], a frame    *)
(* [k, e, want, start, stop, got, out, wout]: the bytes its callback is to   *)
(* get, those it saw at its start and at its end, how it ended and what the  *)
(* caller got from the call.                                                 *)
EXTENDS Integers, Sequences, Judge
Bad(f) ==
  IF f.calls # 1 THEN "the callback ran " \o ToString(f.calls) \o " times"
  ELSE IF f.start # f.want THEN "the callback got " \o f.start \o " instead of " \o f.want
  ELSE IF f.stop # f.start THEN "the bytes of the callback changed to " \o f.stop
  ELSE IF f.got # f.e THEN "the callback ended with " \o f.e \o ", the call with " \o f.got
  ELSE IF f.e = "" /\ f.out # f.wout THEN "the call returned " \o f.out \o " instead of " \o f.wout
  ELSE ""
RECURSIVE All(_, _)
All(fs, n) == IF n > Len(fs) THEN "" ELSE LET w == Bad(fs[n]) IN IF w # "" THEN "call " \o ToString(n) \o " (" \o fs[n].k \o "): " \o w ELSE All(fs, n + 1)
Check(x) == All(x.frames, 1)
=============================================================================

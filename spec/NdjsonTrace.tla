----------------------------- MODULE NdjsonTrace -----------------------------
(* Judges recorded streams:                                                  *)
(*  [op |-> "read", t, o, ev, lines, calls]                                  *)
(*     lines  the text of every line and the JSON it is (bad if it is not)   *)
(*     calls  of Decode, in order: what went in, the error and what came out *)
(*  [op |-> "write", t, o, calls]                                            *)
(*     calls  of Encode: the value, whether the writer fails, the error, the *)
(*            Write calls made and the JSON of the first                     *)
EXTENDS Codec, Judge
Nd == INSTANCE Ndjson
Call(x, e, nth, c) ==                                    \* nth: number of lines up to e
  CASE e.k = "fail" -> IF c.err = "fail" THEN "" ELSE "reader failure reported as " \o ToString(c.err)
    [] e.k = "eof" -> IF c.err = "eof" THEN "" ELSE "end of stream reported as " \o ToString(c.err)
    [] OTHER ->
         IF nth > Len(x.lines) THEN "no tree for the line" ELSE
         LET l == x.lines[nth] IN
         IF l.s # e.s THEN "the driver split the stream differently"
         ELSE IF l.a.k = "bad" THEN IF c.err \in {"", "eof", "fail"} THEN "malformed line reported as " \o ToString(c.err) ELSE ""
         ELSE LET r == Dec(x.t, c.old, l.a, x.o) IN
              IF r.e # "" THEN IF c.err = (IF r.e = "custom" THEN "custom" ELSE "other") THEN "" ELSE "error " \o ToString(c.err) \o " instead of " \o r.e
              ELSE IF c.err # "" THEN "unexpected error " \o c.err
              ELSE IF Same(r.v, c.new) THEN "" ELSE "the line decodes to " \o ToString(r.v)
\* number of lines among the first n
RECURSIVE CountLines(_, _)
CountLines(E, n) == IF n = 0 THEN 0 ELSE CountLines(E, n - 1) + (IF E[n].k = "line" THEN 1 ELSE 0)
RECURSIVE Calls(_, _, _)
Calls(x, E, n) ==
  IF n > Len(x.calls) THEN ""
  ELSE LET w == Call(x, IF n <= Len(E) THEN E[n] ELSE Nd!EEof, CountLines(E, IF n <= Len(E) THEN n ELSE Len(E)), x.calls[n]) IN
       IF w = "" THEN Calls(x, E, n + 1) ELSE "call " \o ToString(n) \o ": " \o w
CheckRead(x) ==
  LET E == Nd!Expected(x.ev) IN
  IF Len(x.calls) <= Len(E) THEN "only " \o ToString(Len(x.calls)) \o " calls" ELSE Calls(x, E, 1)
Written(x, c) ==
  LET Ers == Errs(x.t, c.v, x.o) IN
  IF Ers # {} THEN IF c.err \notin Ers THEN "error " \o c.err ELSE IF c.writes # <<>> THEN "something was written" ELSE ""
  ELSE IF Len(c.writes) # 1 THEN "not exactly one write"
  ELSE LET w == c.writes[1] IN
       IF w = <<>> \/ w[Len(w)] # Nd!LF \/ \E n \in 1..(Len(w) - 1) : w[n] = Nd!LF THEN "not exactly one line"
       ELSE IF ~Says(Enc(x.t, c.v, x.o, NoHint), c.out) THEN "the line is not the value"
       ELSE IF c.err # (IF c.fails >= 0 THEN "fail" ELSE "") THEN "error " \o c.err ELSE ""
RECURSIVE CheckWrite(_, _)
CheckWrite(x, n) ==
  IF n > Len(x.calls) \/ Unsupported(x.t, x.o, TRUE) THEN ""
  ELSE LET w == Written(x, x.calls[n]) IN IF w = "" THEN CheckWrite(x, n + 1) ELSE "call " \o ToString(n) \o ": " \o w
Check(x) == IF x.op = "read" THEN CheckRead(x) ELSE CheckWrite(x, 1)
=============================================================================

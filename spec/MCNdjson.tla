------------------------------- MODULE MCNdjson -------------------------------
(* A buffered line reader as a machine of single reads, over every sequence   *)
(* of events up to a size: whatever the reads deliver at a time, what Decode  *)
(* returns is Expected.  Every sequence of events is a test.                  *)
EXTENDS Ndjson, TLC, Json
CONSTANTS N, Cap, Symbols, Emit
Marks == {"", "fail", "eof"}
RECURSIVE Evs(_, _)
Evs(n, k) == {<<>>} \cup (IF k = 0 THEN {}
  ELSE UNION {{<<[s |-> s, e |-> m]>> \o r : s \in [1..j -> Symbols], m \in (IF j = 0 THEN {"fail", "eof"} ELSE Marks), r \in Evs(n - j, k - 1)} : j \in 0..n})

VARIABLES ev,        \* all events
          j, at,     \* the reader: event and bytes of it that were read
          buf, err,  \* the buffer and what the last read reported with it
          line, out  \* the start of the line, what Decode returned
vars == <<ev, j, at, buf, err, line, out>>
Init == /\ ev \in Evs(N, N)
        /\ j = 1 /\ at = 0 /\ buf = <<>> /\ err = "" /\ line = <<>> /\ out = <<>>
HasLine == \E n \in DOMAIN buf : buf[n] = LF
\* one read into the buffer: some of the bytes of the event, all of them with its report
Read ==
  /\ ~HasLine /\ err = "" /\ Len(buf) < Cap
  /\ IF j > Len(ev)
     THEN err' = "eof" /\ UNCHANGED <<j, at, buf>>
     ELSE \E n \in 0..(Cap - Len(buf)) :
            LET left == Len(ev[j].s) - at IN
            /\ n <= left /\ (n = 0 => left = 0)
            /\ buf' = buf \o SubSeq(ev[j].s, at + 1, at + n)
            /\ IF n = left /\ (left = 0 \/ ev[j].e # "") THEN j' = j + 1 /\ at' = 0 /\ err' = ev[j].e
               ELSE IF n = left THEN j' = j + 1 /\ at' = 0 /\ err' = ""
               ELSE j' = j /\ at' = at + n /\ err' = ""
  /\ UNCHANGED <<ev, line, out>>
Deliver(s) == out' = Append(out, ELine(s)) /\ line' = <<>>
\* the buffer has a line, is full, or the reader reported something
Slice ==
  /\ UNCHANGED <<ev, j, at>>
  /\ IF HasLine
     THEN LET n == CHOOSE n \in DOMAIN buf : buf[n] = LF /\ \A m \in 1..(n - 1) : buf[m] # LF IN
          Deliver(line \o SubSeq(buf, 1, n - 1)) /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ err' = err
     ELSE IF err # ""
     THEN LET rest == line \o buf IN
          /\ buf' = <<>> /\ err' = ""
          /\ IF err = "fail" THEN out' = Append(out, EFail) /\ line' = rest
             ELSE IF rest = <<>> THEN out' = Append(out, EEof) /\ line' = <<>>
             ELSE Deliver(rest)
     ELSE Len(buf) >= Cap /\ line' = line \o buf /\ buf' = <<>> /\ UNCHANGED <<err, out>>
Next == Len(out) < Len(Expected(ev)) + 2 /\ (Read \/ Slice)
Spec == Init /\ [][Next]_vars

E == Expected(ev)
\* Decode returns what is expected, and the end of the stream ever after
Delivered == \A n \in DOMAIN out : out[n] = IF n <= Len(E) THEN E[n] ELSE EEof
\* it never gets stuck before that
Progress == Len(out) < Len(E) + 2 => ENABLED (Read \/ Slice)
\* no byte is lost or delivered twice
RECURSIVE Flat(_), Lines(_)
Flat(e) == IF e = <<>> THEN <<>> ELSE Head(e).s \o Flat(Tail(e))
Lines(o) == IF o = <<>> THEN <<>> ELSE (IF Head(o).k = "line" THEN Head(o).s ELSE <<>>) \o Lines(Tail(o))
NoLF(s) == SelectSeq(s, LAMBDA b : b # LF)
Whole == NoLF(Flat(ev)) = Lines(E)
\* how the bytes of events without a report are cut does not matter
RECURSIVE Glue(_)
Glue(e) == IF Len(e) < 2 THEN e
           ELSE IF Head(e).e = "" THEN Glue(<<[s |-> Head(e).s \o e[2].s, e |-> e[2].e]>> \o Tail(Tail(e)))
           ELSE <<Head(e)>> \o Glue(Tail(e))
Cuts == Expected(Glue(ev)) = E
Inv == Delivered /\ Progress /\ (out = <<>> => Whole /\ Cuts)
Test == (Emit /\ j = 1 /\ at = 0 /\ buf = <<>> /\ err = "" /\ out = <<>>) => PrintT("TEST " \o ToJson([ev |-> ev]))
=============================================================================

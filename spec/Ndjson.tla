-------------------------------- MODULE Ndjson --------------------------------
(***************************************************************************)
(* A stream of JSON lines.  What a reader does is a sequence of events      *)
(*   [s |-> bytes, e |-> "" | "fail" | "eof"]                               *)
(* the bytes it delivers, in any number of reads, and what it reports after *)
(* them; it reports the end of the stream ever after.                       *)
(* Decode calls give, one after the other, the elements of Expected:        *)
(*   [k |-> "line", s]  a value from this line                              *)
(*   [k |-> "fail"]     the failure of the reader                           *)
(*   [k |-> "eof"]      the end of the stream                               *)
(* Bytes read before a failure stay and are the start of the line that is   *)
(* completed later.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
LF == 10
ELine(s) == [k |-> "line", s |-> s]
EFail == [k |-> "fail"]
EEof == [k |-> "eof"]
RECURSIVE Walk(_, _, _, _)
\* event j from byte i on, cur has been read of the current line
Walk(ev, j, i, cur) ==
  IF j > Len(ev) THEN IF cur = <<>> THEN <<>> ELSE <<ELine(cur)>>
  ELSE LET s == ev[j].s
           N == {n \in i..Len(s) : s[n] = LF}
       IN IF N # {} THEN LET n == CHOOSE n \in N : \A m \in N : n <= m IN
                         <<ELine(cur \o SubSeq(s, i, n - 1))>> \o Walk(ev, j, n + 1, <<>>)
          ELSE LET rest == cur \o SubSeq(s, i, Len(s)) IN
               CASE ev[j].e = "fail" -> <<EFail>> \o Walk(ev, j + 1, 1, rest)
                 [] ev[j].e = "eof" -> (IF rest = <<>> THEN <<EEof>> ELSE <<ELine(rest)>>) \o Walk(ev, j + 1, 1, <<>>)
                 [] OTHER -> Walk(ev, j + 1, 1, rest)
Expected(ev) == Walk(ev, 1, 1, <<>>)
=============================================================================

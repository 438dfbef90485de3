----------------------------- MODULE MCJsonText -----------------------------
(* All texts over an alphabet of byte classes up to length N.  Texts that   *)
(* are rejected or complete are not extended.                               *)
EXTENDS JsonText, FiniteSets, TLC, Json, IOUtils
CONSTANTS Alphabet, N
R == INSTANCE RfcText

VARIABLES text, s, r
vars == <<text, s, r>>

Init == text = <<>> /\ s = Init0 /\ r = R!RInit
Next == /\ Len(text) < N
        /\ s.m \notin {"done", "err"}
        /\ \E b \in Alphabet : text' = Append(text, b) /\ s' = Step(s, b) /\ r' = R!RStep(r, b)
Spec == Init /\ [][Next]_vars

\* A text that makes the value complete from mode m below stack st.
Closer(st) == [i \in 1..Len(st) |-> IF st[Len(st) + 1 - i] = "A" THEN RBRACK ELSE RBRACE]
Finish(m) ==
  CASE m \in {"val", "arr0"} -> <<48>>
    [] m \in {"str"} -> <<QUOTE>>
    [] m = "stresc" -> <<110, QUOTE>>
    [] m = "key" -> <<QUOTE, COLON, 48>>
    [] m = "keyesc" -> <<110, QUOTE, COLON, 48>>
    [] m = "colon" -> <<COLON, 48>>
    [] m = "objKey" -> <<QUOTE, QUOTE, COLON, 48>>
    [] m \in LitModes -> LET l == Literal[LitOf(m)] IN SubSeq(l, LitPos(m) + 1, Len(l))
    [] OTHER -> <<>>
Completion(x) == Finish(x.m) \o Closer(x.st)

\* C03: a text is either rejected or a prefix of an accepted one.
Viable == s.m \notin {"err"} => Outcome(RunFrom(s, Completion(s), 1)).kind = "ok"
\* The automaton is a fold: parsing the text in one go is the state reached byte by byte.
Fold == Run(text) = s
\* An error is at or before the last byte read, and everything before its position was viable.
ErrAtToken == s.m = "err" => /\ s.errpos \in 0..(Len(text) - 1)
                             /\ Run(SubSeq(text, 1, s.errpos)).m # "err"
                             /\ (s.errtyp \notin {"Boolean", "Null"} => s.errpos = Len(text) - 1)
\* C04: compaction is accepted, tree preserving, free of insignificant space and a fixed point.
CompactOk ==
  LET o == Outcome(s) IN o.kind = "ok" =>
    LET c == Compact(text, o.toks)  p == Parse(c) IN
    /\ p.kind = "ok" /\ p.pos = Len(c)
    /\ Content(c, p.toks) = Content(text, o.toks)
    /\ Compact(c, p.toks) = c
    /\ Len(c) <= o.pos
\* Tokens nest, and every emitted offset lies in the consumed text.
TokOk == /\ \A i \in 1..Len(s.toks) : 0 <= s.toks[i][2] /\ s.toks[i][2] <= s.toks[i][3] /\ s.toks[i][3] <= s.pos
         /\ \A i \in 1..(Len(s.toks) - 1) : s.toks[i][3] <= s.toks[i + 1][2]
\* RFC 8259 is included: valid text is never rejected and complete at the same byte.
RfcIncluded == r.m # "err" => /\ s.m # "err"
                              /\ (R!RComplete(r) <=> Outcome(s).kind = "ok") \/ r.m \in R!NumModes
                              /\ (s.m = "done" <=> r.m = "done")
\* The control does not depend on the part of the stack below its top.
Inv == Viable /\ Fold /\ ErrAtToken /\ CompactOk /\ TokOk /\ RfcIncluded

------------------------------------------------------------------------------
\* Export of the complete control table and of the end-of-input table.
Table == [delta |-> [m \in Modes |-> [b \in 1..256 |-> LET d == Delta(m, b - 1) IN <<d.m, d.a, d.t>>]],
          eof   |-> [m \in Modes |-> [t \in Tops |-> EofType(m, t)]],
          want  |-> [m \in Modes |-> [set |-> IF Cardinality(Expected(m)) < 20 THEN Expected(m) ELSE {}, word |-> ExpectedWord(m)]],
          after |-> [t \in Tops |-> After(t)]]
Export == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, Table)
=============================================================================

--------------------------- MODULE GeneratedTrace ---------------------------
(* Judges what the generator did for a type, and what its code did:            *)
(*   [t, o, gen, msg, compiles, has, others, cases]                            *)
(*   gen "" or what went wrong, has <<append, unmarshal>>: the methods there are *)
(*   [op |-> "enc", v, err, kept, out]   [op |-> "dec", a, old, err, new]        *)
EXTENDS Generated, Judge
CaseOf(x, c) ==
  IF c.err = "panic" THEN "panics: " \o c.msg
  ELSE CASE c.op = "enc" ->
         IF ~c.kept THEN "changes what was in the buffer"
         ELSE IF c.v.k # "nil" /\ GFails(x.t, c.v, x.o, x.t) THEN IF c.err = "custom" THEN "" ELSE "encoding does not report the error of a method"
         ELSE IF c.err # "" THEN "encoding fails"
         ELSE LET e == AppendJSON(x.t, c.v, x.o) IN IF Says(e, c.out) THEN "" ELSE "encodes to something other than " \o ToString(e)
    [] c.op = "dec" ->
         LET r == UnmarshalNodeJSON(x.t, c.old, c.a, x.o) IN
         IF r.e # "" THEN IF c.err # "" THEN "" ELSE "no error of kind " \o r.e
         ELSE IF c.err # "" THEN "decoding fails"
         ELSE IF Same(r.v, c.new) THEN "" ELSE "decodes to something other than " \o ToString(r.v)
Check(x) ==
  IF GAmbiguous(x.t, x.o) THEN ""
  ELSE IF Refused(x.t, x.o) THEN IF x.gen = "" THEN "the generator has code for a type it cannot do" ELSE ""
  ELSE IF x.gen # "" THEN "generator: " \o x.gen
  ELSE IF ~x.compiles THEN "the code does not compile"
  ELSE IF x.has # <<x.o.append, x.o.unmarshal>> THEN "wrong methods"
  ELSE IF x.others THEN "methods for types that were not asked for"
  ELSE LET B == {j \in DOMAIN x.cases : CaseOf(x, x.cases[j]) # ""} IN
       IF B = {} THEN "" ELSE LET j == CHOOSE j \in B : \A l \in B : j <= l IN "case " \o ToString(j) \o ": " \o CaseOf(x, x.cases[j])
=============================================================================

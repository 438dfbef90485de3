------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The text format accepted by the parser, as a pushdown automaton that    *)
(* consumes one byte per step.  Scalars are lazy: a number is everything   *)
(* up to a delimiter, a string everything up to its unescaped quote.       *)
(*                                                                         *)
(* State: mode, stack of open containers ("A"/"O"), position, start of the *)
(* current scalar or key, emitted tokens.  A token is <<kind, from, to>>   *)
(* with 0-based half-open source offsets:                                  *)
(*   "[" "]" "{" "}"  structure       "K" key (between its quotes)         *)
(*   "S" string (between its quotes)  "N" number  "T" "F" literals "Z" null*)
(***************************************************************************)
EXTENDS Integers, Sequences

Space  == {9, 10, 13, 32}
Digit  == 48..57
NumEnd == Space \cup {44, 93, 125}       \* space  ,  ]  }

QUOTE == 34  COMMA == 44  MINUS == 45  COLON == 58  LBRACK == 91  BSLASH == 92
RBRACK == 93  LBRACE == 123  RBRACE == 125

Literal == [t |-> <<116,114,117,101>>, f |-> <<102,97,108,115,101>>, n |-> <<110,117,108,108>>]
LitKind == [t |-> "T", f |-> "F", n |-> "Z"]
LitType == [t |-> "Boolean", f |-> "Boolean", n |-> "Null"]

LitModes == {"t1","t2","t3","f1","f2","f3","f4","n1","n2","n3"}
LitOf(m)  == CASE m \in {"t1","t2","t3"} -> "t" [] m \in {"f1","f2","f3","f4"} -> "f" [] OTHER -> "n"
LitPos(m) == CASE m \in {"t1","f1","n1"} -> 1 [] m \in {"t2","f2","n2"} -> 2
               [] m \in {"t3","f3","n3"} -> 3 [] OTHER -> 4

Modes == {"val","arr0","obj0","key","keyesc","colon","arrNext","objNext","objKey",
          "num","str","stresc"} \cup LitModes
Tops  == {"-", "A", "O"}                  \* "-" : no open container

\* Mode after a complete value below the given top of stack
After(top) == CASE top = "A" -> "arrNext" [] top = "O" -> "objNext" [] OTHER -> "done"

\* One step of the control: m next mode ("after" = After(new top)), a action, t type if rejected.
D(m, a)   == [m |-> m, a |-> a, t |-> ""]
Bad(t)    == [m |-> "err", a |-> "tok", t |-> t]     \* rejected at this byte
BadLit(t) == [m |-> "err", a |-> "lit", t |-> t]     \* rejected at the start of the literal

ValueStart(b) ==
  CASE b = QUOTE            -> D("str", "markq")
    [] b = LBRACE           -> D("obj0", "openO")
    [] b = LBRACK           -> D("arr0", "openA")
    [] b \in Digit \/ b = MINUS -> D("num", "mark")
    [] b = 116              -> D("t1", "mark")
    [] b = 102              -> D("f1", "mark")
    [] b = 110              -> D("n1", "mark")
    [] b \in Space          -> D("val", "skip")
    [] OTHER                -> Bad("AnyValue")

Delta(m, b) ==
  CASE m = "val"  -> ValueStart(b)
    [] m = "arr0" -> IF b = RBRACK THEN D("after", "close")
                     ELSE IF b \in Space THEN D("arr0", "skip") ELSE ValueStart(b)
    [] m = "obj0" -> IF b = RBRACE THEN D("after", "close")
                     ELSE IF b = QUOTE THEN D("key", "markq")
                     ELSE IF b \in Space THEN D("obj0", "skip") ELSE Bad("Object")
    [] m = "objKey" -> IF b = QUOTE THEN D("key", "markq")
                     ELSE IF b \in Space THEN D("objKey", "skip") ELSE Bad("Object")
    [] m = "key"  -> IF b = QUOTE THEN D("colon", "key")
                     ELSE IF b = BSLASH THEN D("keyesc", "skip") ELSE D("key", "skip")
    [] m = "keyesc" -> D("key", "skip")
    [] m = "colon" -> IF b = COLON THEN D("val", "skip")
                     ELSE IF b \in Space THEN D("colon", "skip") ELSE Bad("Object")
    [] m = "arrNext" -> IF b = COMMA THEN D("val", "skip")
                     ELSE IF b = RBRACK THEN D("after", "close")
                     ELSE IF b \in Space THEN D("arrNext", "skip") ELSE Bad("Array")
    [] m = "objNext" -> IF b = COMMA THEN D("objKey", "skip")
                     ELSE IF b = RBRACE THEN D("after", "close")
                     ELSE IF b \in Space THEN D("objNext", "skip") ELSE Bad("Object")
    [] m = "num"  -> IF b \in NumEnd THEN D("after", "numEnd") ELSE D("num", "skip")
    [] m = "str"  -> IF b = QUOTE THEN D("after", "strEnd")
                     ELSE IF b = BSLASH THEN D("stresc", "skip") ELSE D("str", "skip")
    [] m = "stresc" -> D("str", "skip")
    [] m \in LitModes ->
         LET l == LitOf(m)  k == LitPos(m)  lit == Literal[l] IN
         IF b # lit[k + 1] THEN BadLit(LitType[l])
         ELSE IF k + 1 = Len(lit) THEN D("after", LitKind[l])
         ELSE D(CASE l = "t" -> <<"t1","t2","t3">>[k + 1]
                  [] l = "f" -> <<"f1","f2","f3","f4">>[k + 1]
                  [] OTHER   -> <<"n1","n2","n3">>[k + 1], "skip")

\* What the end of the input means: "" = the value is complete, else the kind cut short.
EofType(m, top) ==
  CASE m = "val" -> "AnyValue"
    [] m \in {"arr0", "arrNext"} -> "Array"
    [] m \in {"obj0", "objKey", "key", "keyesc", "colon", "objNext"} -> "Object"
    [] m \in {"str", "stresc"} -> "String"
    [] m = "num" -> CASE top = "A" -> "Array" [] top = "O" -> "Object" [] OTHER -> ""
    [] OTHER -> LitType[LitOf(m)]

\* What an error says was expected: the rest of the literal, or the bytes that go on from here.
Expected(m) == IF m \in LitModes THEN {} ELSE {b \in 0..255 : Delta(m, b).m # "err" /\ b \notin Space}
ExpectedWord(m) == IF m \in LitModes THEN Literal[LitOf(m)] ELSE <<>>

------------------------------------------------------------------------------
Top(st) == IF st = <<>> THEN "-" ELSE st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

Init0 == [m |-> "val", st |-> <<>>, pos |-> 0, mark |-> 0, toks |-> <<>>, errpos |-> -1, errtyp |-> ""]

Emit(s, k, from, to) == Append(s.toks, <<k, from, to>>)

RECURSIVE Step(_, _)
Step(s, b) ==
  IF s.m \in {"done", "err"} THEN s
  ELSE LET d == Delta(s.m, b)  p == s.pos IN
  CASE d.m = "err" -> [s EXCEPT !.m = "err", !.errtyp = d.t, !.errpos = IF d.a = "lit" THEN s.mark ELSE p]
    [] d.a = "skip"   -> [s EXCEPT !.m = d.m, !.pos = p + 1]
    [] d.a = "mark"   -> [s EXCEPT !.m = d.m, !.pos = p + 1, !.mark = p]
    [] d.a = "markq"  -> [s EXCEPT !.m = d.m, !.pos = p + 1, !.mark = p + 1]
    [] d.a = "openA"  -> [s EXCEPT !.m = d.m, !.pos = p + 1, !.st = Append(s.st, "A"), !.toks = Emit(s, "[", p, p + 1)]
    [] d.a = "openO"  -> [s EXCEPT !.m = d.m, !.pos = p + 1, !.st = Append(s.st, "O"), !.toks = Emit(s, "{", p, p + 1)]
    [] d.a = "close"  -> LET st1 == Pop(s.st) IN
                         [s EXCEPT !.m = After(Top(st1)), !.pos = p + 1, !.st = st1,
                                   !.toks = Emit(s, IF Top(s.st) = "A" THEN "]" ELSE "}", p, p + 1)]
    [] d.a = "key"    -> [s EXCEPT !.m = d.m, !.pos = p + 1, !.toks = Emit(s, "K", s.mark, p)]
    [] d.a = "strEnd" -> [s EXCEPT !.m = After(Top(s.st)), !.pos = p + 1, !.toks = Emit(s, "S", s.mark, p)]
    [] d.a = "numEnd" -> Step([s EXCEPT !.m = After(Top(s.st)), !.toks = Emit(s, "N", s.mark, p)], b)
    [] OTHER          -> [s EXCEPT !.m = After(Top(s.st)), !.pos = p + 1, !.toks = Emit(s, d.a, s.mark, p + 1)]

RECURSIVE RunFrom(_, _, _)
RunFrom(s, text, i) ==
  IF i > Len(text) \/ s.m \in {"done", "err"} THEN s ELSE RunFrom(Step(s, text[i]), text, i + 1)
Run(text) == RunFrom(Init0, text, 1)

\* The outcome of parsing a text of which s is the state at its end.
Outcome(s) ==
  IF s.m = "err" THEN [kind |-> "err", typ |-> s.errtyp, pos |-> s.errpos, toks |-> <<>>]
  ELSE IF s.m = "done" THEN [kind |-> "ok", typ |-> "", pos |-> s.pos, toks |-> s.toks]
  ELSE LET t == EofType(s.m, Top(s.st)) IN
       IF t = "" THEN [kind |-> "ok", typ |-> "", pos |-> s.pos, toks |-> Emit(s, "N", s.mark, s.pos)]
       ELSE [kind |-> "eof", typ |-> t, pos |-> 0, toks |-> <<>>]
Parse(text) == Outcome(Run(text))

------------------------------------------------------------------------------
\* The compact serialization of a token sequence over its source text.
Slice(text, from, to) == SubSeq(text, from + 1, to)
Scalar(text, tok) ==
  CASE tok[1] = "S" -> <<QUOTE>> \o Slice(text, tok[2], tok[3]) \o <<QUOTE>>
    [] tok[1] = "K" -> <<QUOTE>> \o Slice(text, tok[2], tok[3]) \o <<QUOTE, COLON>>
    [] OTHER -> Slice(text, tok[2], tok[3])

Closers == {"]", "}"}
NeedsComma(prev, tok) == prev \notin {"", "[", "{", "K"} /\ tok[1] \notin Closers
RECURSIVE CompactFrom(_, _, _, _)
CompactFrom(text, toks, i, prev) ==
  IF i > Len(toks) THEN <<>>
  ELSE (IF NeedsComma(prev, toks[i]) THEN <<COMMA>> ELSE <<>>)
       \o Scalar(text, toks[i]) \o CompactFrom(text, toks, i + 1, toks[i][1])
Compact(text, toks) == CompactFrom(text, toks, 1, "")

\* The content of a token sequence, independent of offsets (equality of trees).
Content(text, toks) == [i \in 1..Len(toks) |-> <<toks[i][1], Slice(text, toks[i][2], toks[i][3])>>]
=============================================================================

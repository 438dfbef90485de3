------------------------------- MODULE RfcText -------------------------------
(***************************************************************************)
(* RFC 8259 as a byte automaton (strict numbers, escapes and controls;     *)
(* UTF-8 well-formedness is left to Escape.tla).  Used only to relate the  *)
(* parser's lenient format to the standard: see MCJsonText.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE JsonText

Hex == (48..57) \cup (65..70) \cup (97..102)
Esc == {34, 92, 47, 98, 102, 110, 114, 116}
RInit == [m |-> "val", st |-> <<>>]

NumStart(b) == CASE b = MINUS -> "minus" [] b = 48 -> "zero" [] OTHER -> "int"
NumNext(m, b) ==
  CASE m = "minus" -> IF b = 48 THEN "zero" ELSE IF b \in 49..57 THEN "int" ELSE "err"
    [] m \in {"zero", "int"} -> IF m = "int" /\ b \in Digit THEN "int" ELSE IF b = 46 THEN "dot"
                    ELSE IF b \in {69, 101} THEN "e" ELSE IF b \in NumEnd THEN "end" ELSE "err"
    [] m = "dot"  -> IF b \in Digit THEN "frac" ELSE "err"
    [] m = "frac" -> IF b \in Digit THEN "frac" ELSE IF b \in {69, 101} THEN "e" ELSE IF b \in NumEnd THEN "end" ELSE "err"
    [] m = "e"    -> IF b \in {43, 45} THEN "esign" ELSE IF b \in Digit THEN "exp" ELSE "err"
    [] m = "esign" -> IF b \in Digit THEN "exp" ELSE "err"
    [] OTHER      -> IF b \in Digit THEN "exp" ELSE IF b \in NumEnd THEN "end" ELSE "err"
NumModes == {"minus","zero","int","dot","frac","e","esign","exp"}
NumFinal == {"zero","int","frac","exp"}
StrModes == {"s","se","su1","su2","su3","su4"}
StrNext(m, b) ==
  CASE m = "s"   -> IF b = QUOTE THEN "end" ELSE IF b = BSLASH THEN "se" ELSE IF b < 32 THEN "err" ELSE "s"
    [] m = "se"  -> IF b \in Esc THEN "s" ELSE IF b = 117 THEN "su1" ELSE "err"
    [] OTHER     -> IF b \notin Hex THEN "err" ELSE CASE m = "su1" -> "su2" [] m = "su2" -> "su3" [] m = "su3" -> "su4" [] OTHER -> "s"
KeyModes == {"ks","kse","ksu1","ksu2","ksu3","ksu4"}
KS == [ks |-> "s", kse |-> "se", ksu1 |-> "su1", ksu2 |-> "su2", ksu3 |-> "su3", ksu4 |-> "su4"]
SK == [s |-> "ks", se |-> "kse", su1 |-> "ksu1", su2 |-> "ksu2", su3 |-> "ksu3", su4 |-> "ksu4"]

Aft(r) == [r EXCEPT !.m = After(Top(r.st))]
Cls(r) == LET st1 == Pop(r.st) IN [m |-> After(Top(st1)), st |-> st1]
To(r, m) == [r EXCEPT !.m = m]
Rej(r) == To(r, "err")
Val(r, b) ==
  CASE b \in Space -> r
    [] b = QUOTE -> To(r, "s")
    [] b = LBRACE -> [m |-> "obj0", st |-> Append(r.st, "O")]
    [] b = LBRACK -> [m |-> "arr0", st |-> Append(r.st, "A")]
    [] b \in Digit \/ b = MINUS -> To(r, NumStart(b))
    [] b = 116 -> To(r, "t1") [] b = 102 -> To(r, "f1") [] b = 110 -> To(r, "n1")
    [] OTHER -> Rej(r)

RECURSIVE RStep(_, _)
RStep(r, b) ==
  LET m == r.m IN
  CASE m \in {"done", "err"} -> r
    [] m \in NumModes -> LET x == NumNext(m, b) IN IF x = "end" THEN RStep(Aft(r), b) ELSE To(r, x)
    [] m \in StrModes -> LET x == StrNext(m, b) IN IF x = "end" THEN Aft(r) ELSE To(r, x)
    [] m \in KeyModes -> LET x == StrNext(KS[m], b) IN
                         IF x = "end" THEN To(r, "colon") ELSE IF x = "err" THEN Rej(r) ELSE To(r, SK[x])
    [] m \in LitModes -> LET l == LitOf(m)  k == LitPos(m) IN
                         IF b # Literal[l][k + 1] THEN Rej(r)
                         ELSE IF k + 1 = Len(Literal[l]) THEN Aft(r) ELSE To(r, Delta(m, b).m)
    [] m = "val"  -> Val(r, b)
    [] m = "arr0" -> IF b = RBRACK THEN Cls(r) ELSE Val(r, b)
    [] m = "obj0" -> IF b = RBRACE THEN Cls(r) ELSE IF b = QUOTE THEN To(r, "ks") ELSE IF b \in Space THEN r ELSE Rej(r)
    [] m = "objKey" -> IF b = QUOTE THEN To(r, "ks") ELSE IF b \in Space THEN r ELSE Rej(r)
    [] m = "colon" -> IF b = COLON THEN To(r, "val") ELSE IF b \in Space THEN r ELSE Rej(r)
    [] m = "arrNext" -> IF b = COMMA THEN To(r, "val") ELSE IF b = RBRACK THEN Cls(r) ELSE IF b \in Space THEN r ELSE Rej(r)
    [] OTHER -> IF b = COMMA THEN To(r, "objKey") ELSE IF b = RBRACE THEN Cls(r) ELSE IF b \in Space THEN r ELSE Rej(r)

RComplete(r) == r.m = "done" \/ (r.m \in NumFinal /\ r.st = <<>>)
=============================================================================

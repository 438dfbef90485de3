-------------------------------- MODULE Escape --------------------------------
(***************************************************************************)
(* Escaped string bodies, over bytes (0..255).                             *)
(*   Unesc(s)     what an escaped text denotes (RFC 8259 section 7, plus   *)
(*                what is kept of escapes that are not any)                *)
(*   Defined(s)   s has no \u followed by four bytes that are not hex      *)
(*   Sanitize(b)  b with U+FFFD for each byte of malformed UTF-8           *)
(*   Body(s, html) s may stand between JSON quotes                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Quote == 34  Slash == 47  Back == 92  Uu == 117
Repl == <<239, 191, 189>>                              \* U+FFFD

At(b, i) == IF i \in DOMAIN b THEN b[i] ELSE -1
Cont(c) == c \in 128..191
\* RFC 3629: length of the well-formed sequence at i, 0 if there is none
Utf8Len(b, i) ==
  LET c == b[i]  d == At(b, i + 1) IN
  CASE c < 128 -> 1
    [] c \in 194..223 /\ Cont(d) -> 2
    [] /\ c \in 224..239 /\ Cont(At(b, i + 2))
       /\ (IF c = 224 THEN d \in 160..191 ELSE IF c = 237 THEN d \in 128..159 ELSE Cont(d)) -> 3
    [] /\ c \in 240..244 /\ Cont(At(b, i + 2)) /\ Cont(At(b, i + 3))
       /\ (IF c = 240 THEN d \in 144..191 ELSE IF c = 244 THEN d \in 128..143 ELSE Cont(d)) -> 4
    [] OTHER -> 0
RECURSIVE San(_, _)
San(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == Utf8Len(b, i) IN
       IF n = 0 THEN Repl \o San(b, i + 1) ELSE SubSeq(b, i, i + n - 1) \o San(b, i + n)
Sanitize(b) == San(b, 1)

\* ---- code points
Utf8(r) ==
  CASE r < 128   -> <<r>>
    [] r < 2048  -> <<192 + (r \div 64), 128 + (r % 64)>>
    [] r < 65536 -> <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
    [] OTHER     -> <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
IsHex4(s, i) == i + 3 <= Len(s) /\ \A k \in i..(i + 3) : HexVal(s[k]) >= 0
Hex4(s, i) == 4096 * HexVal(s[i]) + 256 * HexVal(s[i + 1]) + 16 * HexVal(s[i + 2]) + HexVal(s[i + 3])
High(r) == r \in 55296..56319
Low(r)  == r \in 56320..57343
EscOf == [c \in {34, 47, 92, 98, 102, 110, 114, 116} |->
            CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* one unit of escaped text at i: [n bytes read, out bytes denoted, ok: defined]
Unit(s, i) ==
  LET e == At(s, i + 1) IN
  IF s[i] # Back THEN [n |-> 1, out |-> <<s[i]>>, ok |-> TRUE]
  ELSE IF e \in DOMAIN EscOf THEN [n |-> 2, out |-> <<EscOf[e]>>, ok |-> TRUE]
  ELSE IF e # Uu \/ i + 5 > Len(s)                       \* no escape, truncated or final backslash: kept
  THEN IF e = -1 THEN [n |-> 1, out |-> <<Back>>, ok |-> TRUE] ELSE [n |-> 2, out |-> <<Back, e>>, ok |-> TRUE]
  ELSE IF ~IsHex4(s, i + 2) THEN [n |-> 6, out |-> <<>>, ok |-> FALSE]
  ELSE LET r == Hex4(s, i + 2) IN
       IF High(r) /\ At(s, i + 6) = Back /\ At(s, i + 7) = Uu /\ IsHex4(s, i + 8) /\ Low(Hex4(s, i + 8))
       THEN [n |-> 12, out |-> Utf8(65536 + 1024 * (r - 55296) + (Hex4(s, i + 8) - 56320)), ok |-> TRUE]
       ELSE IF High(r) \/ Low(r) THEN [n |-> 6, out |-> Repl, ok |-> TRUE]
       ELSE [n |-> 6, out |-> Utf8(r), ok |-> TRUE]
RECURSIVE UnescFrom(_, _), DefFrom(_, _)
UnescFrom(s, i) == IF i > Len(s) THEN <<>> ELSE LET u == Unit(s, i) IN u.out \o UnescFrom(s, i + u.n)
DefFrom(s, i) == i > Len(s) \/ LET u == Unit(s, i) IN u.ok /\ DefFrom(s, i + u.n)
Unesc(s) == UnescFrom(s, 1)
Defined(s) == DefFrom(s, 1)

\* ---- may s stand between quotes?
RECURSIVE BodyFrom(_, _, _)
BodyFrom(s, html, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i]  n == Utf8Len(s, i) IN
       IF c = Back THEN IF At(s, i + 1) \in DOMAIN EscOf THEN BodyFrom(s, html, i + 2)
                        ELSE At(s, i + 1) = Uu /\ IsHex4(s, i + 2) /\ BodyFrom(s, html, i + 6)
       ELSE /\ n # 0 /\ c >= 32 /\ c # Quote
            /\ ~(html /\ c \in {60, 62, 38})
            /\ ~(c = 226 /\ s[i + 1] = 128 /\ s[i + 2] \in {168, 169})   \* U+2028, U+2029
            /\ BodyFrom(s, html, i + n)
Body(s, html) == BodyFrom(s, html, 1)

\* ---- one escaping that satisfies all of this, to show that the requirements are consistent
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
U4(r) == <<Back, Uu, HexDigit(r \div 4096), HexDigit((r \div 256) % 16), HexDigit((r \div 16) % 16), HexDigit(r % 16)>>
RECURSIVE EscFrom(_, _, _)
EscFrom(b, html, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET c == b[i]  n == Utf8Len(b, i) IN
       IF n = 0 THEN U4(65533) \o EscFrom(b, html, i + 1)
       ELSE IF n = 3 /\ c = 226 /\ b[i + 1] = 128 /\ b[i + 2] \in {168, 169} THEN U4(8064 + b[i + 2]) \o EscFrom(b, html, i + 3)
       ELSE IF n > 1 THEN SubSeq(b, i, i + n - 1) \o EscFrom(b, html, i + n)
       ELSE IF c \in {Quote, Back} THEN <<Back, c>> \o EscFrom(b, html, i + 1)
       ELSE IF c < 32 \/ (html /\ c \in {60, 62, 38}) THEN U4(c) \o EscFrom(b, html, i + 1)
       ELSE <<c>> \o EscFrom(b, html, i + 1)
Escape(b, html) == EscFrom(b, html, 1)
=============================================================================

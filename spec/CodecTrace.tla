------------------------------ MODULE CodecTrace ------------------------------
(* Judges what the reflective codec did:                                     *)
(*   [op |-> "enc", t, v, o, err, out]      out is the JSON that was written  *)
(*   [op |-> "dec", t, old, a, o, err, new] a the JSON that was decoded       *)
(*   [op |-> "round", t, v, o, err, new]    new is what came back             *)
EXTENDS Codec, Judge
RECURSIVE AllMatched(_), Finite(_)
\* only types whose two directions belong together, and values JSON can hold
AllMatched(t) ==
  CASE t.k = "custom" -> Matched(t)
    [] t.k \in {"ptr", "slice", "array"} -> AllMatched(t.e)
    [] t.k = "map" -> AllMatched(t.e) /\ (t.key.k # "custom" \/ (("text" \in Range(t.key.enc) /\ ~t.key.penc) = ("text" \in Range(t.key.dec))))
    [] t.k = "struct" -> \A j \in DOMAIN t.f : AllMatched(t.f[j].t)
    [] OTHER -> TRUE
Finite(v) ==
  CASE v.k = "n" -> v.n \notin {NaNText, PInf, MInf}
    [] v.k = "p" -> Finite(v.p)
    [] v.k = "a" -> \A j \in DOMAIN v.a : Finite(v.a[j])
    [] v.k = "f" -> \A j \in DOMAIN v.f : Finite(v.f[j])
    [] v.k = "m" -> \A j \in DOMAIN v.m : Finite(v.m[j].v)
    [] v.k = "any" -> Finite(v.v)
    [] OTHER -> TRUE
Check(x) ==
  LET u == Unsupported(x.t, x.o, TRUE) IN
  CASE u -> IF Unsupported(x.t, x.o, FALSE) /\ x.err # "other" THEN "unsupported type accepted: " \o x.err ELSE ""
    [] x.op = "enc" ->
         LET E == Errs(x.t, x.v, x.o) IN
         IF E # {} THEN IF x.err \in E THEN "" ELSE "error " \o x.err \o " instead of " \o ToString(E)
         ELSE IF x.err # "" THEN "unexpected error " \o x.err
         ELSE IF Says(Enc(x.t, x.v, x.o, NoHint), x.out) THEN "" ELSE "encodes to " \o ToString(Enc(x.t, x.v, x.o, NoHint))
    [] x.op = "dec" ->
         IF x.a.k = "bad" THEN IF x.err = "" THEN "malformed text accepted" ELSE ""
         ELSE LET r == Dec(x.t, x.old, x.a, x.o) IN
              IF r.e # "" THEN IF x.err = "" THEN "no error of kind " \o r.e
                               ELSE IF (r.e = "custom") # (x.err = "custom") THEN "error " \o x.err \o " instead of " \o r.e ELSE ""
              ELSE IF x.err # "" THEN "unexpected error " \o x.err
              ELSE IF Same(r.v, x.new) THEN "" ELSE "decodes to " \o ToString(r.v)
    [] x.op = "round" ->
         IF ~AllMatched(x.t) \/ ~Finite(x.v) THEN ""
         ELSE IF Errs(x.t, x.v, x.o) # {} THEN ""
         ELSE IF x.err # "" THEN "error " \o x.err \o " in a round trip"
         ELSE IF Kept(x.t, x.v, x.new, x.o) THEN "" ELSE "the round trip loses something"
=============================================================================

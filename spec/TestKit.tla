------------------------------- MODULE TestKit -------------------------------
(***************************************************************************)
(* The test kit: what a test case made of a value, options and a method    *)
(* says when the method does a certain thing.                              *)
(*                                                                         *)
(* A case is [api, x, opts, do]:                                           *)
(*   x     [form, typ, v]  a value, a pointer to one, a nil pointer or nil;*)
(*         v is the JSON text the value stands for                         *)
(*   opts  sequence of options, the last of a kind counts                  *)
(*   do    [k, s, err] what the method under test does: return or keep the *)
(*         right text (echo), another (fixed) or none, and its error       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The types of the harness: methods with the right shape by receiver, and methods with a wrong one.
Val(t, api) ==
  CASE api = "append"    -> (CASE t = "std" -> {"AppendJSON", "Other"} [] t = "map" -> {"AppendJSON"} [] OTHER -> {})
    [] OTHER             -> (CASE t = "map" -> {"UnmarshalNodeJSON"} [] OTHER -> {})
Ptr(t, api) ==
  Val(t, api) \cup
  (CASE api = "append"   -> (CASE t = "ptr" -> {"AppendJSON"} [] OTHER -> {})
     [] OTHER            -> (CASE t = "std" -> {"UnmarshalNodeJSON", "OtherNode"} [] t = "ptr" -> {"UnmarshalNodeJSON"} [] OTHER -> {}))
Types == {"std", "ptr", "none", "odd", "map"}
Default(api) == IF api = "append" THEN "AppendJSON" ELSE "UnmarshalNodeJSON"
Proper(api, r, name) == name \in (IF r.form = "value" THEN Val(r.typ, api) ELSE Ptr(r.typ, api))

\* The last option of a kind, or d.
RECURSIVE Last(_, _, _)
Last(opts, kind, d) == IF opts = <<>> THEN d ELSE IF opts[Len(opts)].o = kind THEN opts[Len(opts)] ELSE Last(SubSeq(opts, 1, Len(opts) - 1), kind, d)

------------------------------------------------------------------------------
\* JSON sources
None == "none"                                  \* not to be had
TextOf(v) == IF v = "" THEN "null" ELSE v       \* what encoding/json writes for a value
DefaultText(x) == IF x.form = "nilptr" THEN "null" ELSE IF x.v = "!" THEN None ELSE TextOf(x.v)
Text(j, x) ==
  CASE j.k = "default" -> DefaultText(x)
    [] j.k \in {"text", "bytes", "func", "reader"} -> j.s
    [] j.k = "nil" -> "null"
    [] j.k = "value" -> "7"
    [] OTHER -> None                            \* funcerr, readerr, chan
\* The value a text parses to, in compact form.
BadText == {"", "{", "[1", "tru"}
Compact(s) == CASE s = " 1 " -> "1" [] s = "[ ]" -> "[]" [] OTHER -> s

------------------------------------------------------------------------------
\* Error outcomes
Message(e) == CASE e = "one" -> {"boom", "one"} [] e = "two" -> {"boom", "two"} [] e = "ptr" -> {"typed"} [] OTHER -> {}
Matches(m, e) ==
  CASE m.k = "is"     -> e = m.s
    [] m.k = "string" -> m.s \in Message(e)
    [] m.k = "regexp" -> m.s \in Message(e)
    [] m.k = "func"   -> m.s = "all" \/ m.s = e
    [] OTHER          -> TRUE                   \* true
Expecting(m) == m.k \notin {"default", "nil", "false"} /\ ~(m.k \in {"string", "regexp", "func"} /\ m.s = "")

------------------------------------------------------------------------------
\* Verdicts
Appended(c, x) == CASE c.do.k = "echo" -> x.v [] c.do.k = "fixed" -> c.do.s [] OTHER -> ""
AppendPasses(c) ==
  LET m == Last(c.opts, "error", [o |-> "error", k |-> "default", s |-> ""])
      n == Last(c.opts, "method", [o |-> "method", s |-> Default("append")]).s
      t == Text(Last(c.opts, "json", [o |-> "json", k |-> "default", s |-> ""]), c.x)
  IN /\ c.x.form # "nil"
     /\ Proper("append", c.x, n)
     /\ IF Expecting(m) THEN c.do.err # "" /\ Matches(m, c.do.err)
        ELSE c.do.err = "" /\ t # None /\ t = Appended(c, c.x)
Blank(x) == [form |-> "ptr", typ |-> x.typ, v |-> ""]
\* The value held after the method did its work with text t.
Stored(c, r, t) ==
  IF r.typ = "map" /\ r.v = "" THEN ""          \* a nil map cannot hold anything
  ELSE IF r.form = "nilptr" THEN "" ELSE CASE c.do.k = "echo" -> Compact(t) [] c.do.k = "fixed" -> c.do.s [] OTHER -> r.v
UnmarshalPasses(c) ==
  LET m == Last(c.opts, "error", [o |-> "error", k |-> "default", s |-> ""])
      n == Last(c.opts, "method", [o |-> "method", s |-> Default("unmarshal")]).s
      t == Text(Last(c.opts, "json", [o |-> "json", k |-> "default", s |-> ""]), c.x)
      v == Last(c.opts, "value", [o |-> "value", form |-> "nil", typ |-> "", v |-> ""])
      r == IF v.form = "nil" THEN Blank(c.x) ELSE v
  IN /\ c.x.form # "nil"
     /\ Proper("unmarshal", r, n)
     /\ t # None /\ t \notin BadText
     /\ IF Expecting(m) THEN c.do.err # "" /\ Matches(m, c.do.err)
        ELSE /\ c.do.err = ""
             /\ c.x.form # "nilptr" /\ r.form # "nilptr"
             /\ r.typ = c.x.typ
             /\ Stored(c, r, t) = c.x.v
Passes(c) == IF c.api = "append" THEN AppendPasses(c) ELSE UnmarshalPasses(c)
\* Calling a method with a value receiver through a nil pointer ends in a panic of the runtime.
Callable(c) == LET v == Last(c.opts, "value", [form |-> "nil", typ |-> ""]) IN
  /\ ~(c.api = "append" /\ c.x.form = "nilptr" /\ c.x.typ \in {"std", "map"})
  /\ ~(c.api = "unmarshal" /\ v.form = "nilptr" /\ v.typ = "map")
==============================================================================

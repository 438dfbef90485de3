------------------------------ MODULE MCTestKit ------------------------------
(* All cases with up to Free options away from the default.                  *)
EXTENDS TestKit, TLC, Json
CONSTANTS Free, Emit
Xs == {[form |-> "nil", typ |-> "", v |-> ""]} \cup
      [form : {"value", "ptr"}, typ : Types, v : {"1", "2"}] \cup
      [form : {"value", "ptr"}, typ : {"std", "map"}, v : {"", "!"}] \cup
      [form : {"nilptr"}, typ : {"std", "ptr", "none"}, v : {""}]
Methods == {[o |-> "method", s |-> n] : n \in {"AppendJSON", "UnmarshalNodeJSON", "Other", "OtherNode", "Missing", "NoArgs", "NoErr", "Strings", "Variadic", "Named", "Three", "NodePtr", "NodeOnly", "NodeString", "NodeBool", "NodeOwn", "hidden"}}
Jsons == {[o |-> "json", k |-> k, s |-> s] : k \in {"text", "bytes", "func", "reader"}, s \in {"1", " 1 ", "{", ""}} \cup {[o |-> "json", k |-> k, s |-> ""] : k \in {"nil", "value", "funcerr", "readerr", "chan"}}
Values == {[o |-> "value", form |-> "nil", typ |-> "", v |-> ""]} \cup {[o |-> "value", form |-> f, typ |-> t, v |-> v] : f \in {"value", "ptr"}, t \in Types, v \in {"", "1", "2"}} \cup {[o |-> "value", form |-> "nilptr", typ |-> t, v |-> ""] : t \in {"std", "ptr", "none"}}
Errors == {[o |-> "error", k |-> k, s |-> ""] : k \in {"nil", "true", "false"}} \cup
          {[o |-> "error", k |-> "is", s |-> s] : s \in {"one", "two", "ptr"}} \cup
          {[o |-> "error", k |-> k, s |-> s] : k \in {"string", "regexp"}, s \in {"", "boom", "one", "zzz", "typed"}} \cup
          {[o |-> "error", k |-> "func", s |-> s] : s \in {"", "all", "one", "none"}}
Does == [k : {"echo", "none"}, s : {""}, err : {"", "one"}] \cup {[k |-> "fixed", s |-> "2", err |-> e] : e \in {"", "one", "two", "ptr"}}
\* Sequences of options, at most one of a kind, in every order if two.
OptSets == LET K == <<Methods, Jsons, Values, Errors>> IN
  {<<>>} \cup UNION {{<<a>> : a \in K[i]} : i \in 1..4}
         \cup (IF Free >= 2 THEN UNION {{<<a, b>> : a \in K[i], b \in K[j]} : i \in 1..4, j \in 1..4} ELSE {})
VARIABLE c
Small == /\ Callable(c)
         /\ \A k \in DOMAIN c.opts : c.opts[k].o = "value" => c.api = "unmarshal"
         /\ Len(c.opts) = 2 => c.x.v = "1" /\ (c.do.k = "none" => c.do.err = "")
                               /\ (c.opts[1].o = "json" => c.opts[1].s \in {"1", "{"})
         /\ Len(c.opts) = 2 => (c.opts[1].o = c.opts[2].o => c.opts[1].o = "error" \/ c.do.err = "")
Init == \E api \in {"append", "unmarshal"}, x \in Xs, o \in OptSets, d \in Does :
          /\ c = [api |-> api, x |-> x, opts |-> o, do |-> d]
          /\ Small
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* A case that expects nothing special passes for the right implementation only.
Plain == c.opts = <<>> /\ c.x.form # "nil" => (Passes(c) => c.do.err = "")
\* A method passes with an error exactly when one is expected.
Silent == Passes(c) => (c.do.err # "" <=> Expecting(Last(c.opts, "error", [o |-> "error", k |-> "default", s |-> ""])))
\* A later option of a kind makes the earlier ones void.
LastWins == Len(c.opts) = 2 /\ c.opts[1].o = c.opts[2].o => Passes(c) = Passes([c EXCEPT !.opts = <<c.opts[2]>>])
Test == Emit => PrintT("TEST " \o ToJson([case |-> c, pass |-> Passes(c)]))
==============================================================================

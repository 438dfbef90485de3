---------------------------- MODULE JsonTextTrace ----------------------------
(* Judges logged parses of the real code:                                    *)
(* [b text, kind/typ/pos outcome, tree content, json serialization].         *)
EXTENDS JsonText, Judge

Check(x) ==
  LET o == Parse(x.b) IN
  IF x.kind # o.kind THEN "kind: spec " \o o.kind
  ELSE IF o.kind # "ok" THEN
       IF x.typ # o.typ THEN "type: spec " \o o.typ
       ELSE IF o.kind = "err" /\ x.pos # o.pos THEN "position: spec " \o ToString(o.pos) ELSE ""
  ELSE IF x.pos # o.pos THEN "tail: spec consumes " \o ToString(o.pos)
  ELSE IF x.tree # Content(x.b, o.toks) THEN "tree: spec " \o ToString(Content(x.b, o.toks))
  ELSE IF x.json # Compact(x.b, o.toks) THEN "json: spec " \o ToString(Compact(x.b, o.toks))
  ELSE ""
=============================================================================

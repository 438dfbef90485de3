------------------------------- MODULE DomTrace -------------------------------
(***************************************************************************)
(* Checks recorded histories of the real code against Dom.  Each line of   *)
(* the log is one history: [nd, nr, ev]; each event is an API call with    *)
(* what every reference showed after it and what the call returned.  The   *)
(* states of a history are states of this specification, so the forest     *)
(* invariant is checked in all of them.                                    *)
(***************************************************************************)
EXTENDS Dom, TLCExt, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k, S, bad
vars == <<h, k, S, bad>>

RECURSIVE SameValue(_, _)               \* a converted value and its logged form
SameValue(v, l) ==
  IF DOMAIN v # DOMAIN l THEN FALSE
  ELSE CASE "a" \in DOMAIN v -> Len(v.a) = Len(l.a) /\ \A i \in DOMAIN v.a : SameValue(v.a[i], l.a[i])
         [] "o" \in DOMAIN v -> /\ Cardinality(v.o) = Len(l.o)
                                /\ \A m \in v.o : \E i \in DOMAIN l.o : l.o[i].k = m[1] /\ SameValue(m[2], l.o[i].v)
         [] OTHER -> v = l
RetWrong(e, r) ==
  CASE e.op = "conv" ->
         IF <<e.ret.f, e.ret.i, e.ret.u, e.ret.b, e.ret.s>> # <<r.f, r.i, r.u, r.b, r.s>>
         THEN "conversions: spec " \o ToString(<<r.f, r.i, r.u, r.b, r.s>>)
         ELSE IF e.ret.g.ok # r.g.ok \/ ~SameValue(r.g.v, e.ret.g.v) THEN "interface: spec " \o ToString(r.g) ELSE ""
    [] e.op = "kids" -> IF e.ret # r THEN "children: spec " \o ToString(r) ELSE ""
    [] OTHER -> ""
Wrong(e, x) ==
  LET o == AllObs(x.S)  rw == RetWrong(e, x.ret) IN
  IF rw # "" THEN rw
  ELSE IF o = e.obs THEN ""
  ELSE LET r == CHOOSE q \in DOMAIN o : o[q] # e.obs[q] IN
       "ref " \o ToString(r) \o (IF ~Current(x.S, x.S.refs[r]) THEN " stale" ELSE "") \o ": spec " \o ToString(o[r])

Init == /\ h \in DOMAIN Log
        /\ k = 0
        /\ bad = ""
        /\ S = State0(Log[h].nd, Log[h].nr)
Next == /\ bad = "" /\ k < Len(Log[h].ev)
        /\ k' = k + 1
        /\ h' = h
        /\ LET e == Log[h].ev[k + 1]  x == Apply(S, e) IN
           /\ S' = x.S
           /\ bad' = Wrong(e, x)
Spec == Init /\ [][Next]_vars
Judged == IF bad = "" THEN TRUE ELSE PrintT("MISMATCH " \o ToString(h) \o " event " \o ToString(k) \o " " \o Log[h].ev[k].op \o " " \o bad)
ForestInv == Forest(S)
AllJudged == TLCGet("distinct") >= Len(Log)
=============================================================================

------------------------------- MODULE PoolTrace -------------------------------
(* Judges recorded runs of several holders with real pools: each record is   *)
(* [ev] in the order things happened, an event [p, a, pool, d, v, blank,     *)
(* shows]; shows is what every reference p ever had shows after it.  A       *)
(* document is on its way back from the moment its holder gives it up.       *)
EXTENDS Integers, Sequences, FiniteSets, Judge
Nothing == "-"
St0 == [docs |-> <<>>, refs |-> <<>>]   \* refs: sequence of [p, d, rev, n]
RefsOf(S, p) == SelectSeq(S.refs, LAMBDA r : r.p = p)
Shows(S, r) == IF S.docs[r.d].rev = r.rev /\ r.n \in DOMAIN S.docs[r.d].vals THEN S.docs[r.d].vals[r.n] ELSE Nothing
Rec(S, w) == [S |-> S, w |-> w]
Step(S, e) ==
  CASE e.a = "get" ->
         IF ~e.blank THEN Rec(S, "a document arrives with values in it")
         ELSE IF e.d = Len(S.docs) + 1 THEN Rec([S EXCEPT !.docs = Append(@, [holder |-> e.p, pool |-> "", rev |-> 0, vals |-> <<>>])], "")
         ELSE IF S.docs[e.d].holder # 0 THEN Rec(S, "a document that somebody holds is handed out again")
         ELSE IF S.docs[e.d].pool # e.pool THEN Rec(S, "a document of another pool")
         ELSE Rec([S EXCEPT !.docs[e.d].holder = e.p, !.docs[e.d].pool = ""], "")
    [] e.a = "parse" ->
         Rec([docs |-> [S.docs EXCEPT ![e.d].vals = Append(@, e.v)],
              refs |-> Append(S.refs, [p |-> e.p, d |-> e.d, rev |-> S.docs[e.d].rev, n |-> Len(S.docs[e.d].vals) + 1])], "")
    [] e.a = "edit" ->
         LET r == RefsOf(S, e.p)[e.n] IN
         Rec(IF Shows(S, r) = Nothing THEN S ELSE [S EXCEPT !.docs[r.d].vals[r.n] = e.v], "")
    [] e.a = "put" -> Rec([S EXCEPT !.docs[e.d].holder = 0, !.docs[e.d].pool = e.pool, !.docs[e.d].rev = @ + 1, !.docs[e.d].vals = <<>>], "")
    [] OTHER -> Rec(S, "")
Sees(S, e) ==
  IF "shows" \notin DOMAIN e THEN ""
  ELSE LET rs == RefsOf(S, e.p)  want == [k \in DOMAIN rs |-> Shows(S, rs[k])] IN
  IF want = e.shows THEN "" ELSE "holder " \o ToString(e.p) \o " sees " \o ToString(e.shows) \o " instead of " \o ToString(want)
RECURSIVE Run(_, _, _)
Run(S, ev, n) ==
  IF n > Len(ev) THEN ""
  ELSE LET x == Step(S, ev[n]) IN
       IF x.w # "" THEN "event " \o ToString(n) \o ": " \o x.w
       ELSE LET w == Sees(x.S, ev[n]) IN
            IF w # "" THEN "event " \o ToString(n) \o ": " \o w ELSE Run(x.S, ev, n + 1)
Check(x) == Run(St0, x.ev, 1)
=============================================================================

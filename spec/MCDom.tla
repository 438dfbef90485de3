-------------------------------- MODULE MCDom --------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of Dom: from a start state, every        *)
(* sequence of calls of a scenario up to a depth.  The forest and frame    *)
(* properties are checked in every state and on every step, and every step *)
(* is printed as a test that is replayed on the real code.                 *)
(***************************************************************************)
EXTENDS Dom, Json
CONSTANTS Scenario, Depth, Emit
VARIABLES S, hist
vars == <<S, hist>>

T(t, raw, kids) == [t |-> t, raw |-> raw, kids |-> kids]
L(k, v) == [k |-> k, v |-> v]
Num(x) == T("Number", x, <<>>)
Str(x) == T("String", x, <<>>)
Arr(s) == T("Array", "", [i \in DOMAIN s |-> L("", s[i])])
Obj(s) == T("Object", "", s)
Doc1 == Obj(<<L("a", Num("1")), L("b", Arr(<<Num("1"), Str("x<"), Obj(<<L("a", Num("3")), L("c", Arr(<<>>))>>)>>)), L("a", Num("2"))>>)
Doc2 == Arr(<<Obj(<<L("b", Obj(<<L("a", Num("4"))>>)), L("a", Num("5"))>>), Arr(<<Arr(<<Num("7")>>)>>)>>)

New(kind, d, r) == [op |-> "new", d |-> d, dst |-> r, kind |-> kind, s |-> ""]
Parse(t, d, r) == [op |-> "parse", d |-> d, dst |-> r, tree |-> t]
Get(r, key, q) == [op |-> "get", ref |-> r, key |-> key, dst |-> q]
Index(r, i, q) == [op |-> "index", ref |-> r, i |-> i, dst |-> q]
Lookup(r, p, q) == [op |-> "lookup", ref |-> r, path |-> p, dst |-> q]
Set(r, key, v) == [op |-> "set", ref |-> r, key |-> key, val |-> v]
App(r, vs) == [op |-> "append", ref |-> r, vals |-> vs]
Repl(r, i, v) == [op |-> "replace", ref |-> r, i |-> i, val |-> v]
Rem(r, i) == [op |-> "remove", ref |-> r, i |-> i]
Sli(r, i, j) == [op |-> "slice", ref |-> r, i |-> i, j |-> j]
Del(r, key) == [op |-> "del", ref |-> r, key |-> key]
Strip(r, key) == [op |-> "strip", ref |-> r, key |-> key]
Write(r, kind, s) == [op |-> "write", ref |-> r, kind |-> kind, s |-> s]
Reset(d, kind) == [op |-> "reset", d |-> d, kind |-> kind]
Root(d, r) == [op |-> "root", d |-> d, dst |-> r]
Bad(d, r, text) == [op |-> "parsebad", d |-> d, dst |-> r, text |-> text]

Nd == IF Scenario = "stale" THEN 2 ELSE 1
Nr == 3
R == 1..Nr
Start ==
  CASE Scenario = "link"  -> <<New("null", 1, 1), New("arr", 1, 1), New("obj", 1, 2), New("arr", 1, 3)>>
    [] Scenario = "link0" -> <<New("arr", 1, 1), New("obj", 1, 2), New("arr", 1, 3)>>
    [] Scenario = "edit"  -> <<Parse(Doc1, 1, 1), Get(1, "b", 2), Index(2, 2, 3)>>
    [] Scenario = "read"  -> <<Parse(Doc1, 1, 1), Parse(Doc2, 1, 2)>>
    [] Scenario = "stale" -> <<Parse(Doc2, 1, 1), Index(1, 1, 2), New("obj", 2, 3)>>

Steps == {"a", "b", "c", "", "0", "1", "2", "01", "3", "-1", "x"}
Cmds(X) ==
  CASE Scenario \in {"link", "link0"} ->
         {App(r, <<v>>) : r \in {q \in R : Is(X, X.refs[q], "Array")}, v \in R}
    \cup {Set(r, "a", v) : r \in {q \in R : Is(X, X.refs[q], "Object")}, v \in R}
    \cup {Repl(r, 0, v) : r \in {q \in R : Is(X, X.refs[q], "Array")}, v \in R}
    \cup {Index(r, i, q) : r \in {q \in R : Is(X, X.refs[q], "Array")}, i \in {0, 1}, q \in {3}}
    \cup {Get(r, "a", q) : r \in {q \in R : Is(X, X.refs[q], "Object")}, q \in {3}}
    \cup {Rem(r, 0) : r \in {q \in R : Is(X, X.refs[q], "Array")}}
    \cup {Write(r, "int", "7") : r \in {3}}
    \cup {New(kind, 1, 3) : kind \in {"arr", "obj"}}
    [] Scenario = "edit" ->
         {Set(r, k, v) : r \in R, k \in {"a", "z"}, v \in {2, 3}}
    \cup {App(r, vs) : r \in {2, 3}, vs \in {<<3>>, <<1, 3>>, <<>>}}
    \cup {Repl(r, i, 3) : r \in {2, 3}, i \in {-1, 0, 3}}
    \cup {Rem(r, i) : r \in {1, 2}, i \in {-1, 0, 1, 2, 3}}
    \cup {Sli(2, i, j) : i \in {-1, 0, 1, 3}, j \in {0, 1, 2, 3, 4}}
    \cup {Del(r, k) : r \in R, k \in {"a", "b", "z"}}
    \cup {Strip(r, k) : r \in R, k \in {"a", "c"}}
    \cup {Write(r, "null", "") : r \in R} \cup {Write(3, "text", "q\""), Write(1, "uint", "42"), Write(2, "float", "0.25")}
    \cup {Index(2, i, 3) : i \in {0, 1}}
    [] Scenario = "read" ->
         {Lookup(r, p, 3) : r \in {1, 2}, p \in {<<>>} \cup {<<a>> : a \in Steps} \cup {<<a, b>> : a \in Steps, b \in Steps}
                                              \cup {<<a, b, c>> : a \in {"0", "b", "1"}, b \in Steps, c \in Steps}}
    \cup {Get(r, k, 3) : r \in R, k \in Steps} \cup {Index(r, i, 3) : r \in R, i \in -1..4}
    [] OTHER ->
         {Reset(d, kind) : d \in {1, 2}, kind \in {"reset", "close"}}
    \cup {New(kind, d, 3) : kind \in {"arr", "obj"}, d \in {1, 2}}
    \cup {Parse(Doc2, d, q) : d \in {1, 2}, q \in {2, 3}} \cup {Bad(1, 3, "[1,{\"a\":2},[3]"), Root(1, 3), Root(2, 3)}
    \cup {Index(r, 0, q) : r \in {1, 2}, q \in {2, 3}} \cup {Lookup(1, <<"0", "b">>, 3)}
    \cup {Set(3, "a", v) : v \in {1, 2}} \cup {App(r, <<v>>) : r \in {1, 2}, v \in R}
    \cup {Write(r, "true", "") : r \in {1, 2}} \cup {Strip(r, "a") : r \in {1, 2}} \cup {Rem(1, 0), Sli(1, 0, 0), Repl(1, 0, 3), Del(2, "a")}

RECURSIVE ApplyAll(_, _, _)
ApplyAll(X, es, i) == IF i > Len(es) THEN X ELSE ApplyAll(Apply(X, es[i]).S, es, i + 1)

Test(es, X) == PrintT("TEST " \o ToJson([nd |-> Nd, nr |-> Nr, ev |-> es, want |-> AllObs(X)]))
Init == S = ApplyAll(State0(Nd, Nr), Start, 1) /\ hist = Start
Next == /\ Len(hist) < Len(Start) + Depth
        /\ \E e \in Cmds(S) :
             /\ S' = Apply(S, e).S
             /\ hist' = Append(hist, e)
             /\ (Emit => Test(hist', S'))
Spec == Init /\ [][Next]_vars
View == <<S, Len(hist)>>

\* ---- what must hold in every state and on every step
Inv == Forest(S)
IsEdit(e) == e.op \in {"set", "append", "replace", "remove", "slice", "del", "strip", "write"}
Target(e) == S.refs[e.ref]
\* C08: nothing happens through a dead reference, and dead references stay dead until assigned.
StaleInert == [][LET e == hist'[Len(hist')] IN
                   /\ IsEdit(e) /\ ~Live(S, Target(e)) => S' = S
                   /\ e.op \in {"set", "replace"} /\ ~Live(S, S.refs[e.val]) => S' = S
                   /\ \A r \in R : ~Current(S, S.refs[r]) /\ S.refs[r].doc # 0 /\ ("dst" \notin DOMAIN e \/ e.dst # r)
                        => ~Live(S', S'.refs[r])]_vars
\* C06: an edit leaves alone every node that is not its target (strip: not at or below it), except what it creates.
Frame == [][LET e == hist'[Len(hist')]  t == Target(e)  d == t.doc IN
              IsEdit(e) /\ Live(S, t) =>
                /\ S'.refs = S.refs
                /\ \A b \in DOMAIN S.docs : b # d => S'.docs[b] = S.docs[b]
                /\ \A id \in DOMAIN S.docs[d].nodes :
                     \/ id = t.id
                     \/ e.op = "strip" /\ Contains(S.docs[d].nodes, t.id, id)
                     \/ [S'.docs[d].nodes[id] EXCEPT !.root = TRUE] = [S.docs[d].nodes[id] EXCEPT !.root = TRUE]]_vars
\* C07: after an insertion the inserted tree is what the value showed just before.
Inserted == [][LET e == hist'[Len(hist')] IN
                 e.op = "append" /\ Len(e.vals) = 1 /\ Is(S, Target(e), "Array") /\ Live(S, S.refs[e.vals[1]]) =>
                   LET n == NodeOf(S', Target(e)) IN
                   Json(S'.docs[Target(e).doc].nodes, n.kids[Len(n.kids)].id) = Obs(S, S.refs[e.vals[1]]).j]_vars
=============================================================================

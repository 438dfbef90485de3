--------------------------------- MODULE Dom ---------------------------------
(***************************************************************************)
(* Documents, nodes and references.                                        *)
(*                                                                         *)
(* A document is a revision and a growing list of nodes; a node is a kind, *)
(* its text and an ordered list of (key, node) links.  A reference names a *)
(* document, the revision it was taken at and a node (0: none).  It is     *)
(* live while the revision is current, inert from the next reset on.       *)
(*                                                                         *)
(* Apply(S, e) is the effect of one API call: the next state and the       *)
(* values the caller sees.  Texts are TLA+ strings; the few facts about    *)
(* their inside (decoded form, numeric value, array position) are tables   *)
(* over the universe the drivers draw from.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- tables over the universe of texts (see also harness/dom.go) ----
UnescTab == [x \in {"k\\u0061", "q\\\"", "\\/", "b\\\\", "n\\n", "\\u00e9", "\\u003c", "u\\u12"} |->
  CASE x = "k\\u0061" -> "ka" [] x = "q\\\"" -> "q\"" [] x = "\\/" -> "/" [] x = "b\\\\" -> "b\\"
    [] x = "n\\n" -> "n\n" [] x = "\\u00e9" -> "é" [] x = "\\u003c" -> "<" [] OTHER -> x]
Unesc(s) == IF s \in DOMAIN UnescTab THEN UnescTab[s] ELSE s
EscTab == [x \in {"q\"", "/", "b\\", "n\n", "<"} |->
  CASE x = "q\"" -> "q\\\"" [] x = "/" -> "\\/" [] x = "b\\" -> "b\\\\" [] x = "n\n" -> "n\\n" [] OTHER -> x]
Esc(s) == IF s \in DOMAIN EscTab THEN EscTab[s] ELSE s
EscHTML(s) == IF s = "<" THEN "\\u003c" ELSE Esc(s)

\* number text -> <<float in shortest form, as int64 or "", as uint64 or "">>; absent: not a number
NumTab == [x \in {"0", "1", "2", "3", "4", "5", "7", "42", "-1", "1.5", "1.0", "1e2", "-0", "0.25",
                  "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e400", "-2.5e-1"} |->
  CASE x = "1.0" -> <<"1", "1", "1">> [] x = "1e2" -> <<"100", "100", "100">> [] x = "1.5" -> <<"1.5", "", "">>
    [] x = "-1" -> <<"-1", "-1", "">> [] x = "-0" -> <<"-0", "0", "0">> [] x = "0.25" -> <<"0.25", "", "">>
    [] x = "-2.5e-1" -> <<"-0.25", "", "">>
    [] x = "9007199254740993" -> <<"9007199254740992", "9007199254740993", "9007199254740993">>
    [] x = "9223372036854775807" -> <<"9223372036854776000", "9223372036854775807", "9223372036854775807">>
    [] x = "-9223372036854775808" -> <<"-9223372036854776000", "-9223372036854775808", "">>
    [] x = "18446744073709551615" -> <<"18446744073709552000", "", "18446744073709551615">>
    [] x = "1e400" -> <<"+Inf", "", "">>
    [] OTHER -> <<x, x, x>>]
IsNum(s) == s \in DOMAIN NumTab

\* decimal array position of a path step, -1 if it is not one (or beyond any array)
PosTab == [x \in {"0", "1", "2", "3", "4", "00", "01", "002", "10"} |->
  CASE x \in {"0", "00"} -> 0 [] x \in {"1", "01"} -> 1 [] x \in {"2", "002"} -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] OTHER -> 10]
Pos(s) == IF s \in DOMAIN PosTab THEN PosTab[s] ELSE -1

------------------------------------------------------------------------------
Kinds == {"Object", "Array", "String", "Number", "Boolean", "Null"}
N0(t, raw, root) == [t |-> t, raw |-> raw, kids |-> <<>>, root |-> root]
None == [doc |-> 0, rev |-> 0, id |-> 0]
EmptyDoc == [rev |-> 0, nodes |-> <<>>]
State0(nd, nr) == [docs |-> [d \in 1..nd |-> EmptyDoc], refs |-> [r \in 1..nr |-> None]]

Current(S, ref) == ref.doc # 0 /\ S.docs[ref.doc].rev = ref.rev
Live(S, ref) == Current(S, ref) /\ ref.id \in DOMAIN S.docs[ref.doc].nodes
NodeOf(S, ref) == S.docs[ref.doc].nodes[ref.id]
Is(S, ref, t) == Live(S, ref) /\ NodeOf(S, ref).t = t

RECURSIVE Json(_, _), JsonKids(_, _, _, _)
Json(nodes, id) ==
  LET n == nodes[id] IN
  CASE n.t = "Object" -> "{" \o JsonKids(nodes, n.kids, 1, TRUE) \o "}"
    [] n.t = "Array"  -> "[" \o JsonKids(nodes, n.kids, 1, FALSE) \o "]"
    [] n.t = "String" -> "\"" \o n.raw \o "\""
    [] OTHER -> n.raw
JsonKids(nodes, kids, i, keyed) ==
  IF i > Len(kids) THEN ""
  ELSE (IF i > 1 THEN "," ELSE "") \o (IF keyed THEN "\"" \o kids[i].k \o "\":" ELSE "")
       \o Json(nodes, kids[i].id) \o JsonKids(nodes, kids, i + 1, keyed)

\* What a reference shows.
Obs(S, ref) ==
  IF ~Live(S, ref) THEN [t |-> "InvalidToken", r |-> "", j |-> "!", n |-> 0, d |-> Current(S, ref)]
  ELSE LET n == NodeOf(S, ref) IN
       [t |-> n.t, r |-> n.raw, j |-> Json(S.docs[ref.doc].nodes, ref.id), n |-> Len(n.kids), d |-> TRUE]
AllObs(S) == [r \in DOMAIN S.refs |-> Obs(S, S.refs[r])]

------------------------------------------------------------------------------
\* Building and copying trees
RECURSIVE AddTree(_, _, _), AddKids(_, _, _, _)
AddTree(nodes, tree, root) ==         \* parsed value: parents before children
  AddKids(Append(nodes, N0(tree.t, tree.raw, root)), Len(nodes) + 1, tree.kids, 1)
AddKids(nodes, me, kids, i) ==
  IF i > Len(kids) THEN nodes
  ELSE LET id == Len(nodes) + 1
           n1 == AddTree(nodes, kids[i].v, FALSE)
       IN AddKids([n1 EXCEPT ![me].kids = Append(@, [k |-> kids[i].k, id |-> id])], me, kids, i + 1)

RECURSIVE CopyTree(_, _, _), CopyKids(_, _, _, _, _)
CopyTree(nodes, src, id) ==           \* deep copy of src[id] appended to nodes; copies are not free-standing
  CopyKids(Append(nodes, N0(src[id].t, src[id].raw, FALSE)), Len(nodes) + 1, src, src[id].kids, 1)
CopyKids(nodes, me, src, kids, i) ==
  IF i > Len(kids) THEN nodes
  ELSE LET id == Len(nodes) + 1
           n1 == CopyTree(nodes, src, kids[i].id)
       IN CopyKids([n1 EXCEPT ![me].kids = Append(@, [k |-> kids[i].k, id |-> id])], me, src, kids, i + 1)

RECURSIVE Below(_, _)
Below(nodes, id) == UNION { {nodes[id].kids[i].id} \cup Below(nodes, nodes[id].kids[i].id) : i \in DOMAIN nodes[id].kids }
Contains(nodes, id, x) == x \in Below(nodes, id)

\* Insertion: [ok, nodes, id] of the node to link below node `to` of document d.
Insert(S, d, val, to) ==
  LET nodes == S.docs[d].nodes IN
  IF ~Live(S, val) THEN [ok |-> FALSE, nodes |-> nodes, id |-> 0]
  ELSE IF val.doc = d /\ nodes[val.id].root /\ val.id # 1 /\ val.id # to /\ ~Contains(nodes, val.id, to)
  THEN [ok |-> TRUE, nodes |-> [nodes EXCEPT ![val.id].root = FALSE], id |-> val.id]
  ELSE [ok |-> TRUE, nodes |-> CopyTree(nodes, S.docs[val.doc].nodes, val.id), id |-> Len(nodes) + 1]

------------------------------------------------------------------------------
\* Links
FirstKey(kids, key) ==
  LET m == {i \in DOMAIN kids : kids[i].k = key} IN
  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
\* Deleting link i puts the last link in its place.
SwapDel(kids, i) == SubSeq([kids EXCEPT ![i] = kids[Len(kids)]], 1, Len(kids) - 1)
RemoveAt(kids, i) == SubSeq(kids, 1, i - 1) \o SubSeq(kids, i + 1, Len(kids))

RECURSIVE DropKey(_, _, _)
DropKey(kids, key, i) ==
  IF i > Len(kids) THEN kids
  ELSE IF kids[i].k = key THEN DropKey(SwapDel(kids, i), key, i) ELSE DropKey(kids, key, i + 1)

RECURSIVE StripIds(_, _, _)
StripIds(nodes, ids, key) ==
  IF ids = {} THEN nodes
  ELSE LET id == CHOOSE x \in ids : TRUE
           n  == nodes[id]
           k1 == IF n.t = "Object" THEN DropKey(n.kids, key, 1) ELSE n.kids
       IN StripIds([nodes EXCEPT ![id].kids = k1], (ids \ {id}) \cup {k1[i].id : i \in DOMAIN k1}, key)

Step1(nodes, id, p) ==                \* one step of a path: node id or 0
  IF id = 0 THEN 0
  ELSE LET n == nodes[id] IN
       CASE n.t = "Object" -> LET i == FirstKey(n.kids, p) IN IF i = 0 THEN 0 ELSE n.kids[i].id
         [] n.t = "Array"  -> IF Pos(p) \in 0..(Len(n.kids) - 1) THEN n.kids[Pos(p) + 1].id ELSE 0
         [] OTHER -> 0
RECURSIVE Walk(_, _, _, _)
Walk(nodes, id, path, i) == IF i > Len(path) THEN id ELSE Walk(nodes, Step1(nodes, id, path[i]), path, i + 1)

\* Conversion to a plain Go value, as [ok, v]; v is tagged so that kinds stay apart.
RECURSIVE Iface(_, _)
Iface(nodes, id) ==
  LET n == nodes[id] IN
  CASE n.t = "Null"    -> [ok |-> TRUE, v |-> [nil |-> TRUE]]
    [] n.t = "Boolean" -> [ok |-> TRUE, v |-> [b |-> n.raw]]
    [] n.t = "String"  -> [ok |-> TRUE, v |-> [s |-> Unesc(n.raw)]]
    [] n.t = "Number"  -> IF IsNum(n.raw) THEN [ok |-> TRUE, v |-> [f |-> NumTab[n.raw][1]]] ELSE [ok |-> FALSE, v |-> [nil |-> TRUE]]
    [] n.t = "Array"   ->
         LET x == [i \in DOMAIN n.kids |-> Iface(nodes, n.kids[i].id)] IN
         IF \A i \in DOMAIN x : x[i].ok THEN [ok |-> TRUE, v |-> [a |-> [i \in DOMAIN x |-> x[i].v]]] ELSE [ok |-> FALSE, v |-> [nil |-> TRUE]]
    [] OTHER ->
         LET x == [i \in DOMAIN n.kids |-> Iface(nodes, n.kids[i].id)]
             keys == {Unesc(n.kids[i].k) : i \in DOMAIN n.kids}
             last(k) == CHOOSE i \in DOMAIN n.kids : Unesc(n.kids[i].k) = k /\ \A j \in DOMAIN n.kids : Unesc(n.kids[j].k) = k => j <= i
         IN IF \A i \in DOMAIN x : x[i].ok
            THEN [ok |-> TRUE, v |-> [o |-> {<<k, x[last(k)].v>> : k \in keys}]] ELSE [ok |-> FALSE, v |-> [nil |-> TRUE]]

\* All conversions of one reference.
Conv(S, ref) ==
  LET live == Live(S, ref)
      n == IF live THEN NodeOf(S, ref) ELSE N0("InvalidToken", "", FALSE)
      num == n.t = "Number" /\ IsNum(n.raw)
      nt == IF num THEN NumTab[n.raw] ELSE <<"", "", "">>
  IN [f |-> nt[1], i |-> nt[2], u |-> nt[3],
      b |-> IF n.t = "Boolean" THEN n.raw ELSE "",
      s |-> IF n.t = "String" THEN Unesc(n.raw) ELSE "",
      g |-> IF live THEN Iface(S.docs[ref.doc].nodes, ref.id) ELSE [ok |-> FALSE, v |-> [nil |-> TRUE]]]

\* Iteration: the keys, positions and serializations of the children, in order.
Children(S, ref) ==
  IF ~Live(S, ref) THEN <<>>
  ELSE LET n == NodeOf(S, ref) IN
       [i \in DOMAIN n.kids |-> [k |-> n.kids[i].k, i |-> i - 1, j |-> Json(S.docs[ref.doc].nodes, n.kids[i].id)]]

------------------------------------------------------------------------------
\* API calls.  R(..) result constructor: next state and return value.
Ret(S, v) == [S |-> S, ret |-> v]
Ok(S) == Ret(S, "")
WithDoc(S, d, nodes) == [S EXCEPT !.docs[d].nodes = nodes]
PutRef(S, r, doc, id) == [S EXCEPT !.refs[r] = [doc |-> doc, rev |-> S.docs[doc].rev, id |-> id]]
Derived(S, from, dst, id) == [S EXCEPT !.refs[dst] = [from EXCEPT !.id = id]]
SetKids(S, ref, nodes, kids) == WithDoc(S, ref.doc, [nodes EXCEPT ![ref.id].kids = kids])

NewNode(e) ==
  CASE e.kind = "null"  -> N0("Null", "null", TRUE)
    [] e.kind = "true"  -> N0("Boolean", "true", TRUE)
    [] e.kind = "false" -> N0("Boolean", "false", TRUE)
    [] e.kind = "obj"   -> N0("Object", "", TRUE)
    [] e.kind = "arr"   -> N0("Array", "", TRUE)
    [] e.kind = "raw"   -> N0("String", e.s, TRUE)
    [] e.kind = "text"  -> N0("String", Esc(e.s), TRUE)
    [] e.kind = "html"  -> N0("String", EscHTML(e.s), TRUE)
    [] OTHER            -> N0("Number", e.s, TRUE)
Overwrite(n, e) == LET x == NewNode(e) IN [x EXCEPT !.root = n.root]

RECURSIVE AppendAll(_, _, _, _)
AppendAll(S, ref, vals, i) ==
  IF i > Len(vals) THEN S
  ELSE LET x == Insert(S, ref.doc, S.refs[vals[i]], ref.id) IN
       AppendAll(IF x.ok THEN SetKids(S, ref, x.nodes, Append(x.nodes[ref.id].kids, [k |-> "", id |-> x.id])) ELSE S, ref, vals, i + 1)

Apply(S, e) ==
  CASE e.op = "new"   -> LET n == Len(S.docs[e.d].nodes) + 1 IN
                         Ok(PutRef(WithDoc(S, e.d, Append(S.docs[e.d].nodes, NewNode(e))), e.dst, e.d, n))
    [] e.op = "parse" -> LET n == Len(S.docs[e.d].nodes) + 1 IN
                         Ok(PutRef(WithDoc(S, e.d, AddTree(S.docs[e.d].nodes, e.tree, TRUE)), e.dst, e.d, n))
    [] e.op = "parsebad" -> Ok([S EXCEPT !.refs[e.dst] = None])
    [] e.op = "root"  -> Ok(PutRef(S, e.dst, e.d, 1))         \* the first node, once there is one
    [] e.op = "reset" -> Ok([S EXCEPT !.docs[e.d] = [rev |-> @.rev + 1, nodes |-> <<>>]])
    [] e.op = "copyref" -> Ok([S EXCEPT !.refs[e.dst] = S.refs[e.ref]])
    [] e.op = "get"   -> LET r == S.refs[e.ref]
                             i == IF Is(S, r, "Object") THEN FirstKey(NodeOf(S, r).kids, e.key) ELSE 0
                         IN Ok(Derived(S, r, e.dst, IF i = 0 THEN 0 ELSE NodeOf(S, r).kids[i].id))
    [] e.op = "index" -> LET r == S.refs[e.ref] IN
                         Ok(Derived(S, r, e.dst, IF Is(S, r, "Array") /\ e.i \in 0..(Len(NodeOf(S, r).kids) - 1)
                                                 THEN NodeOf(S, r).kids[e.i + 1].id ELSE 0))
    [] e.op = "iter"  -> LET r == S.refs[e.ref] IN
                         Ok(Derived(S, r, e.dst, IF Live(S, r) /\ e.i \in 0..(Len(NodeOf(S, r).kids) - 1)
                                                 THEN NodeOf(S, r).kids[e.i + 1].id ELSE 0))
    [] e.op = "lookup" -> LET r == S.refs[e.ref] IN
                         Ok(Derived(S, r, e.dst, IF e.path = <<>> THEN r.id
                                                 ELSE IF Live(S, r) THEN Walk(S.docs[r.doc].nodes, r.id, e.path, 1) ELSE 0))
    [] e.op = "conv"  -> Ret(S, Conv(S, S.refs[e.ref]))
    [] e.op = "kids"  -> Ret(S, Children(S, S.refs[e.ref]))
    [] e.op = "set"   -> LET r == S.refs[e.ref] IN
         IF ~Is(S, r, "Object") THEN Ok(S)
         ELSE LET x == Insert(S, r.doc, S.refs[e.val], r.id) IN
              IF ~x.ok THEN Ok(S)
              ELSE LET kids == x.nodes[r.id].kids  i == FirstKey(kids, e.key) IN
                   Ok(SetKids(S, r, x.nodes, IF i = 0 THEN Append(kids, [k |-> e.key, id |-> x.id])
                                                      ELSE [kids EXCEPT ![i].id = x.id]))
    [] e.op = "append" -> LET r == S.refs[e.ref] IN
         Ok(IF Is(S, r, "Array") THEN AppendAll(S, r, e.vals, 1) ELSE S)
    [] e.op = "replace" -> LET r == S.refs[e.ref] IN
         IF ~(Is(S, r, "Array") /\ e.i \in 0..(Len(NodeOf(S, r).kids) - 1)) THEN Ok(S)
         ELSE LET x == Insert(S, r.doc, S.refs[e.val], r.id) IN
              Ok(IF ~x.ok THEN S ELSE SetKids(S, r, x.nodes, [x.nodes[r.id].kids EXCEPT ![e.i + 1] = [k |-> "", id |-> x.id]]))
    [] e.op = "remove" -> LET r == S.refs[e.ref] IN
         Ok(IF Is(S, r, "Array") /\ e.i \in 0..(Len(NodeOf(S, r).kids) - 1)
            THEN SetKids(S, r, S.docs[r.doc].nodes, RemoveAt(NodeOf(S, r).kids, e.i + 1)) ELSE S)
    [] e.op = "slice" -> LET r == S.refs[e.ref] IN
         Ok(IF Is(S, r, "Array") /\ 0 <= e.i /\ e.i <= e.j /\ e.j <= Len(NodeOf(S, r).kids)
            THEN SetKids(S, r, S.docs[r.doc].nodes, SubSeq(NodeOf(S, r).kids, e.i + 1, e.j)) ELSE S)
    [] e.op = "del"   -> LET r == S.refs[e.ref] IN
         Ok(IF Is(S, r, "Object") /\ FirstKey(NodeOf(S, r).kids, e.key) # 0
            THEN SetKids(S, r, S.docs[r.doc].nodes, SwapDel(NodeOf(S, r).kids, FirstKey(NodeOf(S, r).kids, e.key))) ELSE S)
    [] e.op = "strip" -> LET r == S.refs[e.ref] IN
         Ok(IF Live(S, r) THEN WithDoc(S, r.doc, StripIds(S.docs[r.doc].nodes, {r.id}, e.key)) ELSE S)
    [] e.op = "write" -> LET r == S.refs[e.ref] IN
         Ok(IF Live(S, r) THEN WithDoc(S, r.doc, [S.docs[r.doc].nodes EXCEPT ![r.id] = Overwrite(@, e)]) ELSE S)

------------------------------------------------------------------------------
\* C07: every node has at most one parent, links stay inside the document, no cycles.
Links(nodes) == UNION { {<<id, i>> : i \in DOMAIN nodes[id].kids} : id \in DOMAIN nodes }
RECURSIVE DepthOk(_, _, _)
DepthOk(nodes, id, fuel) == fuel > 0 /\ \A i \in DOMAIN nodes[id].kids : DepthOk(nodes, nodes[id].kids[i].id, fuel - 1)
ForestDoc(nodes) ==
  LET L == Links(nodes)  target(l) == nodes[l[1]].kids[l[2]].id IN
  /\ \A l \in L : target(l) \in DOMAIN nodes
  /\ Cardinality({target(l) : l \in L}) = Cardinality(L)             \* at most one parent
  /\ \A id \in DOMAIN nodes : DepthOk(nodes, id, Len(nodes) + 1)       \* no cycle
  /\ \A l \in L : ~nodes[target(l)].root                               \* linked nodes are not free-standing
  /\ \A id \in DOMAIN nodes : nodes[id].t \notin {"Object", "Array"} => nodes[id].kids = <<>>
  /\ \A id \in DOMAIN nodes : nodes[id].t = "Array" => \A i \in DOMAIN nodes[id].kids : nodes[id].kids[i].k = ""
Forest(S) == \A d \in DOMAIN S.docs : ForestDoc(S.docs[d].nodes)
=============================================================================

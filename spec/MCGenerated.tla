------------------------------ MODULE MCGenerated ------------------------------
(* Small struct types with small values and texts: what the generated methods *)
(* say about each other, and each type with its cases as a test.               *)
(*   shape   one field of every kind of type, under pointers, slices and maps   *)
(*   field   two fields: tags, embedding, hiding, omission under every option   *)
EXTENDS Generated, TLC, Json, SequencesExt
CONSTANTS Scenario, Deep, Emit

\* ------------------------------------------------------------ texts
RECURSIVE Join(_, _)
Join(ss, j) == IF j > Len(ss) THEN <<>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o ss[j] \o Join(ss, j + 1)
Quoted(s) == <<34>> \o s \o <<34>>                       \* no byte that needs an escape
JNull == [k |-> "null", w |-> NullText]
JBool == [k |-> "bool", b |-> TRUE, w |-> <<116, 114, 117, 101>>]
JFalse == [k |-> "bool", b |-> FALSE, w |-> <<102, 97, 108, 115, 101>>]
JN(n) == [k |-> "num", n |-> n, f64 |-> n, f32 |-> n, w |-> n]
JS(s) == [k |-> "str", s |-> s, h |-> FALSE, w |-> Quoted(s)]
JA(a) == [k |-> "arr", a |-> a, w |-> <<91>> \o Join([j \in DOMAIN a |-> a[j].w], 1) \o <<93>>]
JO(m) == [k |-> "obj", m |-> m, w |-> <<123>> \o Join([j \in DOMAIN m |-> Quoted(m[j].key) \o <<58>> \o m[j].v.w], 1) \o <<125>>]
KV(key, v) == [key |-> key, v |-> v]
RECURSIVE Real(_)
Real(x) ==
  CASE x.k = "tree" -> x.t
    [] x.k = "null" -> JNull
    [] x.k = "bool" -> IF x.b THEN JBool ELSE JFalse
    [] x.k = "num" -> JN(x.n)
    [] x.k = "str" -> JS(x.s)
    [] x.k = "arr" -> JA([j \in DOMAIN x.a |-> Real(x.a[j])])
    [] x.k \in {"obj", "map"} -> JO([j \in DOMAIN x.m |-> KV(x.m[j].key, Real(x.m[j].v))])

A == <<97>>  B == <<98>>
N0 == <<48>>  N1 == <<49>>  M1 == <<45, 49>>  N200 == <<50, 48, 48>>  F15 == <<49, 46, 53>>  N300 == <<51, 48, 48>>
T1 == <<50, 48, 50, 54, 45, 49, 49, 45, 49, 57, 84, 48, 48, 58, 48, 53, 58, 48, 54, 46, 53, 90>>   \* 2026-11-19T00:05:06.5Z
D5 == <<53, 109, 115>>                                   \* 5ms
N5M == <<53, 48, 48, 48, 48, 48, 48>>

\* ------------------------------------------------------------ types
Struct(fs) == [k |-> "struct", ext |-> FALSE, f |-> fs]
TInt8 == [k |-> "int", bits |-> 8]
TString == [k |-> "string"]
FieldS == [name |-> <<83>>, exp |-> TRUE, emb |-> FALSE, tags |-> <<>>, t |-> TString]
Custom(lib, struct, enc, penc, dec, om) ==
  [k |-> "custom", lib |-> lib, u |-> IF struct THEN Struct(<<FieldS>>) ELSE TString, enc |-> enc, penc |-> penc, dec |-> dec,
   omit |-> IF om THEN <<[name |-> "Omit", when |-> N0]>> ELSE <<>>]
Customs == {Custom("CSjv", FALSE, <<"json">>, FALSE, <<"json">>, FALSE), Custom("CSap", FALSE, <<"append">>, TRUE, <<"node">>, FALSE),
            Custom("lib.LSall", FALSE, <<"append", "json", "text">>, FALSE, <<"node", "json", "text">>, FALSE), Custom("CRtp", TRUE, <<"text">>, TRUE, <<"text">>, TRUE),
            Custom("CSavo", FALSE, <<"append">>, FALSE, <<"node">>, TRUE), Custom("CSo", FALSE, <<>>, FALSE, <<>>, TRUE), Custom("CSop", FALSE, <<>>, FALSE, <<>>, TRUE),
            Custom("CSenc", FALSE, <<"text">>, FALSE, <<>>, FALSE), Custom("CSdecn", FALSE, <<>>, FALSE, <<"node">>, FALSE), Custom("CAav", TRUE, <<"append">>, FALSE, <<"node">>, TRUE),
            [Custom("CSk", FALSE, <<>>, FALSE, <<>>, FALSE) EXCEPT !.omit = <<[name |-> "Skip", when |-> N1]>>],
            [Custom("lib.LSok", FALSE, <<>>, FALSE, <<>>, TRUE) EXCEPT !.omit = @ \o <<[name |-> "Skip", when |-> N1]>>]}
CKey == Custom("CStv", FALSE, <<"text">>, FALSE, <<"text">>, FALSE)
Leaf == {[k |-> "bool"], TString, TInt8, [k |-> "uint", bits |-> 8], [k |-> "float", bits |-> 64], [k |-> "float", bits |-> 32], Any, [k |-> "time"], [k |-> "dur"], [k |-> "bad", lib |-> "chan int"]} \cup Customs
Under(t, key) == {[k |-> "ptr", e |-> t], [k |-> "slice", e |-> t], [k |-> "map", key |-> TString, e |-> t]} \cup (IF key THEN {[k |-> "map", key |-> CKey, e |-> t]} ELSE {})
RECURSIVE Wraps(_, _)
Wraps(T, d) == IF d = 0 THEN T ELSE T \cup Wraps(UNION {Under(t, d = Deep) : t \in T}, d - 1)

Fld(name, exp, tags, t) == [name |-> name, exp |-> exp, emb |-> FALSE, tags |-> tags, t |-> t]
Emb(name, exp, tags, t) == [name |-> name, exp |-> exp, emb |-> TRUE, tags |-> tags, t |-> t]
Ptr(t) == [k |-> "ptr", e |-> t]
Omitting == <<44>> \o OmitEmptyText
J(val) == <<[key |-> "json", val |-> val]>>
D(val) == <<[key |-> "db", val |-> val]>>
Ab == <<65, 98>>  CdEf == <<67, 100, 69, 102>>  abl == <<97, 98>>  cdEf == <<99, 100, 69, 102>>  Dash == <<45>>
E1 == {Struct(<<Fld(Ab, TRUE, <<>>, TInt8)>>),
       Struct(<<Fld(cdEf, FALSE, J(Omitting), TString), Fld(CdEf, TRUE, J(Ab), TInt8)>>),
       Struct(<<Emb(<<68>>, TRUE, <<>>, Ptr(Struct(<<Fld(Ab, TRUE, <<>>, TString)>>))), Fld(CdEf, TRUE, D(abl \o Omitting), TInt8)>>)}
Tags1 == {<<>>, J(abl), J(Dash), J(Omitting), D(B \o Omitting), J(CdEf), J(A) \o D(Dash)}
First ==
  {Fld(Ab, TRUE, g, TInt8) : g \in Tags1} \cup {Fld(abl, FALSE, g, TString) : g \in {<<>>, J(A)}} \cup
  UNION {{Emb(<<69>>, TRUE, g, s), Emb(<<69>>, TRUE, g, Ptr(s))} : g \in {<<>>, J(A)}, s \in E1} \cup
  {Emb(<<101>>, FALSE, <<>>, CHOOSE s \in E1 : TRUE), Emb(<<101>>, FALSE, <<>>, Ptr(CHOOSE s \in E1 : TRUE))} \cup
  (IF Deep > 1 THEN {Fld(Ab, TRUE, g, t) : g \in Tags1, t \in {Ptr(TString), [k |-> "slice", e |-> TInt8], Ptr(Struct(<<Fld(CdEf, TRUE, J(Omitting), TString)>>)), Custom("CSo", FALSE, <<>>, FALSE, <<>>, TRUE)}} ELSE {})
Second ==
  {Fld(CdEf, TRUE, g, TString) : g \in {<<>>, J(Ab), J(A \o Omitting)}} \cup {Emb(<<70>>, TRUE, <<>>, s) : s \in (IF Deep > 1 THEN E1 ELSE {CHOOSE s \in E1 : Len(s.f) = 2 /\ ~s.f[1].exp})}
  \cup (IF Deep > 1 THEN {Emb(<<70>>, TRUE, <<>>, Ptr(s)) : s \in E1} \cup {Fld(cdEf, FALSE, <<>>, Ptr(TInt8))} ELSE {})
Default == [tag |-> "json", tagged |-> FALSE, exported |-> FALSE, empty |-> FALSE, case |-> "none", match |-> "all", on |-> <<>>, append |-> TRUE, unmarshal |-> TRUE, flags |-> "",
            omit |-> "Omit", appendm |-> "AppendJSON", unmarshalm |-> "UnmarshalNodeJSON", how |-> "cmd"]
Named == [Default EXCEPT !.omit = "Skip", !.appendm = "EncodeTo", !.unmarshalm = "DecodeFrom", !.how = "lib"]
Types == CASE Scenario = "shape" -> {Struct(<<Fld(Ab, TRUE, g, t)>>) : g \in {<<>>, J(A \o Omitting)}, t \in Wraps(Leaf, Deep)}
                                    \cup {Struct(<<Fld(Ab, TRUE, <<>>, TString), Fld(CdEf, TRUE, g, t)>>) : g \in {<<>>, J(A \o Omitting)}, t \in Under([k |-> "self"], TRUE) \cup UNION {Under(s, FALSE) : s \in Under([k |-> "self"], FALSE)}}
           [] Scenario = "field" -> {Struct(<<f, g>>) : f \in First, g \in Second}
Opts == CASE Scenario = "shape" -> {Default, [Default EXCEPT !.empty = TRUE], [Default EXCEPT !.append = FALSE], [Named EXCEPT !.empty = TRUE]}
          [] Scenario = "field" ->
               {Default, [Default EXCEPT !.tagged = TRUE], [Default EXCEPT !.exported = TRUE], [Default EXCEPT !.empty = TRUE], [Default EXCEPT !.tag = "db"], [Default EXCEPT !.tag = "db", !.tagged = TRUE],
                [Default EXCEPT !.match = "prefix", !.on = <<65>>], [Default EXCEPT !.match = "has", !.on = <<69>>], [Default EXCEPT !.append = FALSE], [Default EXCEPT !.unmarshal = FALSE], [Default EXCEPT !.flags = "both"], [Default EXCEPT !.how = "test"], [Named EXCEPT !.how = "file"], [Default EXCEPT !.how = "file", !.unmarshal = FALSE]}
               \cup {[Default EXCEPT !.case = x] : x \in {"snake", "camel", "lower", "Camel"}}

\* ------------------------------------------------------------ values
CustomOf(t, s) == WithPayload(t, s) @@ [j |-> CASE s = <<>> -> JNull [] s \in {N0, N1} -> JN(s) [] OTHER -> [k |-> "none"]]
AnyOf(t, v) == [k |-> "any", t |-> t, v |-> v]
RECURSIVE Z(_), One(_, _)
Z(t) == IF t.k = "custom" THEN CustomOf(t, <<>>) ELSE IF t.k = "struct" THEN [k |-> "f", f |-> [j \in DOMAIN t.f |-> Z(t.f[j].t)]] ELSE GZero(t)
One(t, root) ==
  CASE t.k = "bool" -> [k |-> "b", b |-> TRUE]
    [] t.k = "string" -> Str(A)
    [] t.k = "int" -> Num(M1)
    [] t.k = "uint" -> Num(N200)
    [] t.k = "float" -> Num(F15)
    [] t.k = "any" -> AnyOf([k |-> "float", bits |-> 64], Num(M1))
    [] t.k = "time" -> Str(T1)
    [] t.k = "dur" -> Num(N5M)
    [] t.k = "self" -> Z(root)
    [] t.k = "ptr" -> [k |-> "p", p |-> One(t.e, root)]
    [] t.k = "slice" -> [k |-> "a", a |-> <<One(t.e, root), Z(IF t.e.k = "self" THEN root ELSE t.e)>>]
    [] t.k = "map" -> [k |-> "m", m |-> <<KV(B, One(t.e, root))>>]
    [] t.k = "struct" -> [k |-> "f", f |-> [j \in DOMAIN t.f |-> One(t.f[j].t, root)]]
    [] t.k = "custom" -> CustomOf(t, N1)
    [] t.k = "bad" -> Nil
Few(t, root) == {Z(IF t.k = "self" THEN root ELSE t), One(t, root)}
RECURSIVE Product(_, _, _)
Product(fs, j, root) == IF j > Len(fs) THEN {<<>>} ELSE {<<x>> \o r : x \in Few(fs[j].t, root), r \in Product(fs, j + 1, root)}
Inner(t, root) ==
  CASE t.k = "ptr" -> {Nil} \cup {[k |-> "p", p |-> x] : x \in Few(t.e, root)}
    [] t.k = "slice" -> {Nil, [k |-> "a", a |-> <<>>]} \cup {[k |-> "a", a |-> <<x>>] : x \in Few(t.e, root)} \cup {One(t, root)}
    [] t.k = "map" -> {Nil, [k |-> "m", m |-> <<>>], [k |-> "m", m |-> <<KV(A, One(t.e, root)), KV(B, Z(IF t.e.k = "self" THEN root ELSE t.e))>>]}
                      \cup {[k |-> "m", m |-> <<KV(A, x)>>] : x \in Few(t.e, root)} \cup (IF t.key.k = "custom" THEN {[k |-> "m", m |-> <<KV(<<Bang>>, Z(IF t.e.k = "self" THEN root ELSE t.e))>>]} ELSE {})
    [] t.k = "custom" -> {CustomOf(t, s) : s \in {<<>>, N0, N1, <<Bang>>}}
    [] t.k = "any" -> {Nil, One(t, root), AnyOf([k |-> "slice", e |-> Any], [k |-> "a", a |-> <<Nil, AnyOf(TString, Str(A))>>]), AnyOf([k |-> "bool"], [k |-> "b", b |-> FALSE])}
    [] OTHER -> Few(t, root)
Vals(t) == {Nil} \cup {[k |-> "f", f |-> x] : x \in (IF Len(t.f) = 1 THEN {<<x>> : x \in Inner(t.f[1].t, t)} ELSE Product(t.f, 1, t))}

\* ------------------------------------------------------------ texts to decode
Wrong(t) == CASE t.k \in {"bool", "any", "struct", "map", "self"} -> JA(<<>>) [] t.k = "string" -> JN(N1) [] t.k \in {"int", "uint", "float"} -> JS(N1)
              [] t.k = "slice" -> JO(<<>>) [] t.k \in {"time", "dur"} -> JS(A) [] OTHER -> JN(M1)
RECURSIVE Good(_)
Good(t) ==
  CASE t.k = "bool" -> JBool
    [] t.k = "string" -> JS(B)
    [] t.k = "int" -> JN(N1)
    [] t.k \in {"uint", "float"} -> JN(N200)
    [] t.k \in {"any", "bad"} -> JA(<<JNull, JN(F15)>>)
    [] t.k = "time" -> JS(T1)
    [] t.k = "dur" -> JS(D5)
    [] t.k = "self" -> JO(<<KV(Ab, JS(B))>>)
    [] t.k = "ptr" -> Good(t.e)
    [] t.k = "slice" -> JA(<<Good(t.e)>>)
    [] t.k = "map" -> JO(<<KV(B, Good(t.e))>>)
    [] t.k = "struct" -> JO(<<KV(Ab, Good(t.f[1].t))>>)
    [] t.k = "custom" -> IF DecKind(t) = "" THEN Good(t.u) ELSE IF DecKind(t) = "text" THEN JS(<<Tilde, 98>>) ELSE JA(<<JN(N0)>>)
JFew(t) == {JNull, Good(t), Wrong(t)}
RECURSIVE Texts(_)
Texts(t) ==
  {JNull, Wrong(t), Good(t)} \cup
  CASE t.k = "ptr" -> Texts(t.e)
    [] t.k \in {"int", "uint"} -> {JN(M1), JN(N300), JN(F15), JN(N1 \o <<46, 48>>), JN(<<49, 101, 50>>)}
    [] t.k = "dur" -> {JN(M1), JN(F15), JS(<<45, 49, 104>>)}
    [] t.k = "any" -> {JFalse, JS(A), JO(<<KV(A, JN(N1)), KV(A, JNull)>>)}
    [] t.k = "slice" -> {JA(<<>>), JA(<<Good(t.e), Good(t.e), Good(t.e)>>)} \cup {JA(<<x, y>>) : x, y \in JFew(t.e)}
    [] t.k = "map" -> {JO(<<>>)} \cup {JO(<<KV(A, x), KV(B, y)>>) : x, y \in JFew(t.e)} \cup {JO(<<KV(A, x), KV(A, Good(t.e))>>) : x \in JFew(t.e)} \cup {JO(<<KV(<<Bang>>, Good(t.e)), KV(<<Tilde, 97>>, Good(t.e))>>)}
    [] t.k = "custom" -> {JS(A), JS(<<Tilde, 97>>), JS(<<97, Bang>>), JA(<<JS(<<Bang>>)>>), JO(<<>>), JN(N1)} \cup (IF DecKind(t) = "" /\ t.u.k = "struct" THEN {JO(<<KV(<<83>>, JS(A))>>)} ELSE {})
    [] OTHER -> {}
\* a member for every field with what fits, with each field in turn set otherwise
Doc(t, o) ==
  LET F == GFields(t, o)
      All(j, x) == JO([l \in DOMAIN F |-> KV(F[l].key, IF l = j THEN x ELSE Good(F[l].t))])
  IN {JNull, JA(<<>>), JO(<<>>), JO(<<KV(<<90>>, JA(<<JO(<<>>)>>)), KV(Ab, JN(N1)), KV(abl, JN(N1)), KV(CdEf, JS(A)), KV(A, JNull)>>)} \cup
     UNION {{All(j, x) : x \in (IF Len(t.f) = 1 THEN Texts(F[j].t) ELSE JFew(F[j].t))} \cup {JO(<<KV(F[j].key, Good(F[j].t))>>), JO(<<KV(F[j].key, Good(F[j].t)), KV(F[j].key, Good(F[j].t))>>)} : j \in DOMAIN F}

\* ------------------------------------------------------------ the cases
VARIABLE c
Init == \E t \in Types, o \in Opts : ~GAmbiguous(t, o) /\ c = [t |-> t, o |-> o, cases |-> <<>>]
\* slices are decoded into the elements they have
RECURSIVE NoOldSlice(_)
NoOldSlice(t) == CASE t.k \in {"ptr", "map"} -> NoOldSlice(t.e) [] t.k = "slice" -> t.e.k \notin {"ptr", "slice", "map", "struct", "self"} [] t.k = "struct" -> \A j \in DOMAIN t.f : NoOldSlice(t.f[j].t) [] OTHER -> TRUE
Next ==
  /\ c.cases = <<>>
  /\ LET enc == {[op |-> "enc", v |-> v] : v \in Vals(c.t)}
         dec == {[op |-> "dec", old |-> old, text |-> a.w, a |-> a] : a \in Doc(c.t, c.o), old \in {Z(c.t)} \cup (IF NoOldSlice(c.t) THEN {One(c.t, c.t)} ELSE {})}
     IN c' = [c EXCEPT !.cases = SetToSeq((IF c.o.append THEN enc ELSE {}) \cup (IF c.o.unmarshal THEN dec ELSE {}))]
Spec == Init /\ [][Next]_c

\* ------------------------------------------------------------ properties of the specification
RECURSIVE Less(_, _, _)
Less(p, q, j) == j <= Len(p) /\ j <= Len(q) /\ (p[j] < q[j] \/ (p[j] = q[j] /\ Less(p, q, j + 1)))
FieldOrder == LET F == GFields(c.t, c.o) IN \A x, y \in DOMAIN F : x < y => F[x].key # F[y].key /\ Less(F[x].path, F[y].path, 1)
\* filters take fields away, names do not
Paths(o) == LET C == GCollect(c.t, o, 1, <<>>) IN {C[j].path : j \in DOMAIN C}
Filters ==
  /\ Paths(c.o) \subseteq Paths([c.o EXCEPT !.tagged = FALSE, !.exported = FALSE, !.match = "all"])
  /\ \A x \in {"none", "snake", "camel", "lower", "Camel"} : Paths(c.o) = Paths([c.o EXCEPT !.case = x])
  /\ LET F == GFields(c.t, c.o)  G == GFields(c.t, [c.o EXCEPT !.empty = TRUE]) IN [j \in DOMAIN F |-> F[j].path] = [j \in DOMAIN G |-> G[j].path]
\* what is encoded is read back, and says the same when it is encoded again
RECURSIVE Plain(_)
Plain(t) == CASE t.k = "custom" -> t.omit = <<>> /\ EncKind(t) = "text" /\ DecKind(t) = "text" [] t.k = "bad" -> FALSE
              [] t.k = "ptr" -> t.e.k \notin {"ptr", "any", "custom"} /\ Plain(t.e)   \* not a pointer to what may be null
              [] t.k \in {"slice", "map"} -> Plain(t.e) [] t.k = "struct" -> \A j \in DOMAIN t.f : Plain(t.f[j].t) [] OTHER -> TRUE
RoundTrip ==
  \A j \in DOMAIN c.cases : LET x == c.cases[j] IN
    (x.op = "enc" /\ x.v.k # "nil" /\ c.o.unmarshal /\ Plain(c.t)) =>
      (~GFails(c.t, x.v, c.o, c.t) =>
        LET e == Real(AppendJSON(c.t, x.v, c.o))  r == UnmarshalNodeJSON(c.t, Z(c.t), e, c.o) IN
        /\ Says(AppendJSON(c.t, x.v, c.o), e)
        /\ r.e = "" /\ Says(AppendJSON(c.t, r.v, c.o), e))
\* null leaves the value, and so does what the text does not name; doing it again changes nothing
Decodes ==
  \A j \in DOMAIN c.cases : LET x == c.cases[j] IN
    (x.op = "dec" /\ ~Refused(c.t, c.o)) =>
      LET r == UnmarshalNodeJSON(c.t, x.old, x.a, c.o)  F == GFields(c.t, c.o) IN
      /\ x.a.k = "null" => r = Done(x.old)
      /\ x.a.k \notin {"null", "obj"} => r.e # ""
      /\ (r.e = "" /\ x.a.k = "obj") =>
           /\ \A l \in DOMAIN F : (\A m \in DOMAIN x.a.m : x.a.m[m].key # F[l].key) =>
                LET p == FieldOf(x.old, F[l].path)  q == FieldOf(r.v, F[l].path) IN
                IF p = <<>> THEN q = <<>> \/ Same(q[1], GZero(F[l].t)) ELSE q # <<>> /\ Same(p[1], q[1])
           /\ LET q == UnmarshalNodeJSON(c.t, r.v, x.a, c.o) IN q.e = "" /\ Same(q.v, r.v)
Inv == FieldOrder /\ Filters /\ RoundTrip /\ Decodes
Strip(x) == IF x.op = "enc" THEN x ELSE [op |-> x.op, old |-> x.old, text |-> x.text]
Test == ~Emit \/ c.cases = <<>> \/ PrintT("TEST " \o ToJson([t |-> c.t, o |-> c.o, cases |-> [j \in DOMAIN c.cases |-> Strip(c.cases[j])]]))
=============================================================================

------------------------------- MODULE MCCodec -------------------------------
(* Small types with small values: what encoding and decoding say about each   *)
(* other, and every case as a test.                                           *)
(*   shape   wrappers of wrappers of plain and custom types                   *)
(*   field   structs of two fields: tags, embedding, hiding, omission         *)
(*   custom  every instrumented type in every context                         *)
EXTENDS Codec, TLC, Json, IOUtils
CONSTANTS Scenario, Deep, Ops, Emit
Lib == JsonDeserialize(IOEnv.LIB).lib
LibNamed(n) == LET I == {j \in DOMAIN Lib : Lib[j].lib = n} IN Lib[CHOOSE j \in I : TRUE]

\* ------------------------------------------------------------ texts
RECURSIVE Join(_, _)
Join(ss, j) == IF j > Len(ss) THEN <<>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o ss[j] \o Join(ss, j + 1)
Quoted(s) == <<34>> \o s \o <<34>>                       \* no byte that needs an escape
JNull == [k |-> "null", w |-> NullText]
JBool == [k |-> "bool", b |-> TRUE, w |-> <<116, 114, 117, 101>>]
JFalse == [k |-> "bool", b |-> FALSE, w |-> <<102, 97, 108, 115, 101>>]
JN(n) == [k |-> "num", n |-> n, f64 |-> n, f32 |-> n, w |-> n]   \* shortest form of both
JS(s) == [k |-> "str", s |-> s, h |-> FALSE, w |-> Quoted(s)]
JA(a) == [k |-> "arr", a |-> a, w |-> <<91>> \o Join([j \in DOMAIN a |-> a[j].w], 1) \o <<93>>]
JO(m) == [k |-> "obj", m |-> m, w |-> <<123>> \o Join([j \in DOMAIN m |-> Quoted(m[j].key) \o <<58>> \o m[j].v.w], 1) \o <<125>>]
KV(key, v) == [key |-> key, v |-> v]
\* a JSON text for an expectation
RECURSIVE Real(_)
Real(x) ==
  CASE x.k = "tree" -> x.t
    [] x.k = "null" -> JNull
    [] x.k = "bool" -> IF x.b THEN JBool ELSE JFalse
    [] x.k = "num" -> JN(x.n)
    [] x.k = "str" -> JS(x.s)
    [] x.k = "arr" -> JA([j \in DOMAIN x.a |-> Real(x.a[j])])
    [] x.k \in {"obj", "map"} -> JO([j \in DOMAIN x.m |-> KV(x.m[j].key, Real(x.m[j].v))])

A == <<97>>  B == <<98>>  UA == <<65>>  UB == <<66>>
N0 == <<48>>  N1 == <<49>>  M1 == <<45, 49>>  N200 == <<50, 48, 48>>  F15 == <<49, 46, 53>>  N300 == <<51, 48, 48>>

\* ------------------------------------------------------------ values
CustomOf(t, s) ==
  WithPayload(t, s) @@ [j |-> CASE s = <<>> -> JNull [] s \in {N0, N1} -> JN(s) [] OTHER -> [k |-> "none"]]
AnyOf(t, v) == [k |-> "any", t |-> t, v |-> v]
TInt8 == [k |-> "int", bits |-> 8]
TString == [k |-> "string"]
RECURSIVE One(_), Z(_)
Z(t) == IF t.k = "custom" THEN CustomOf(t, <<>>)          \* Zero with j
        ELSE IF t.k = "array" THEN [k |-> "a", a |-> [j \in 1..t.n |-> Z(t.e)]]
        ELSE IF t.k = "struct" THEN [k |-> "f", f |-> [j \in DOMAIN t.f |-> Z(t.f[j].t)]]
        ELSE Zero(t)
One(t) ==
  CASE t.k = "bool" -> [k |-> "b", b |-> TRUE]
    [] t.k = "string" -> Str(A)
    [] t.k = "int" -> Num(M1)
    [] t.k = "uint" -> Num(N200)
    [] t.k = "float" -> Num(F15)
    [] t.k = "any" -> AnyOf(TInt8, Num(M1))
    [] t.k = "ptr" -> [k |-> "p", p |-> One(t.e)]
    [] t.k = "slice" -> [k |-> "a", a |-> <<One(t.e), Z(t.e)>>]
    [] t.k = "array" -> [k |-> "a", a |-> [j \in 1..t.n |-> IF j = t.n THEN One(t.e) ELSE Z(t.e)]]
    [] t.k = "map" -> [k |-> "m", m |-> <<KV(B, One(t.e))>>]
    [] t.k = "struct" -> [k |-> "f", f |-> [j \in DOMAIN t.f |-> IF t.f[j].exp \/ (t.f[j].emb /\ t.f[j].t.k = "struct") THEN One(t.f[j].t) ELSE Z(t.f[j].t)]]
    [] t.k = "custom" -> CustomOf(t, N1)
Few(t) == {Z(t), One(t)}
RECURSIVE Product(_, _)
Product(fs, j) == IF j > Len(fs) THEN {<<>>} ELSE {<<x>> \o r : x \in (IF fs[j].exp \/ (fs[j].emb /\ fs[j].t.k = "struct") THEN Few(fs[j].t) ELSE {Z(fs[j].t)}), r \in Product(fs, j + 1)}
Vals(t) ==
  CASE t.k = "bool" -> {[k |-> "b", b |-> x] : x \in BOOLEAN}
    [] t.k = "string" -> {Str(<<>>), Str(A)}
    [] t.k = "int" -> {Num(N0), Num(M1)}
    [] t.k = "uint" -> {Num(N0), Num(N200)}
    [] t.k = "float" -> {Num(N0), Num(F15), Num(NaNText), Num(PInf)}
    [] t.k = "any" -> {Nil, AnyOf(TInt8, Num(M1)), AnyOf([k |-> "ptr", e |-> TString], Nil), AnyOf([k |-> "slice", e |-> Any], [k |-> "a", a |-> <<Nil>>])}
    [] t.k = "ptr" -> {Nil} \cup {[k |-> "p", p |-> x] : x \in Few(t.e)}
    [] t.k = "slice" -> {Nil, [k |-> "a", a |-> <<>>]} \cup {[k |-> "a", a |-> <<x>>] : x \in Few(t.e)} \cup {[k |-> "a", a |-> <<One(t.e), Z(t.e)>>]}
    [] t.k = "array" -> {[k |-> "a", a |-> x] : x \in {s \in [1..t.n -> Few(t.e)] : TRUE}}
    [] t.k = "map" -> {Nil, [k |-> "m", m |-> <<>>], [k |-> "m", m |-> <<KV(A, One(t.e)), KV(B, Z(t.e))>>]} \cup {[k |-> "m", m |-> <<KV(A, x)>>] : x \in Few(t.e)}
    [] t.k = "struct" -> {[k |-> "f", f |-> x] : x \in Product(t.f, 1)}
    [] t.k = "custom" -> {CustomOf(t, s) : s \in {<<>>, N0, N1, <<Bang>>}}

\* ------------------------------------------------------------ JSON texts to decode
Wrong(t) == CASE t.k \in {"bool", "any"} -> JA(<<>>) [] t.k = "string" -> JN(N1) [] t.k \in {"int", "uint", "float"} -> JS(N1)
              [] t.k = "struct" \/ t.k = "map" -> JA(<<>>) [] t.k \in {"slice", "array"} -> JO(<<>>) [] OTHER -> JN(M1)
RECURSIVE Good(_), Keys(_)
Keys(t) == [j \in DOMAIN t.f |-> IF t.f[j].tags = <<>> THEN t.f[j].name ELSE LET p == Split(t.f[j].tags[1].val, 1, <<>>)[1] IN IF p = <<>> THEN t.f[j].name ELSE p]
Good(t) ==
  CASE t.k = "bool" -> JBool
    [] t.k = "string" -> JS(B)
    [] t.k = "int" -> JN(N1)
    [] t.k \in {"uint", "float"} -> JN(N200)
    [] t.k = "any" -> JA(<<JNull, JN(F15)>>)
    [] t.k = "ptr" -> Good(t.e)
    [] t.k \in {"slice", "array"} -> JA(<<Good(t.e)>>)
    [] t.k = "map" -> JO(<<KV(B, Good(t.e))>>)
    [] t.k = "struct" -> LET K == Keys(t) IN IF t.f = <<>> THEN JO(<<>>) ELSE JO(<<KV(K[1], Good(t.f[1].t))>>)
    [] t.k = "custom" -> IF DecKind(t) = "" THEN Good(t.u) ELSE IF DecKind(t) = "text" THEN JS(<<Tilde, 98>>) ELSE JA(<<JN(N0)>>)
JFew(t) == {JNull, Good(t), Wrong(t)}
RECURSIVE Texts(_)
Texts(t) ==
  {JNull, Wrong(t), Good(t)} \cup
  CASE t.k = "ptr" -> Texts(t.e)
    [] t.k \in {"int", "uint"} -> {JN(M1), JN(N300), JN(F15), JN(N1 \o <<46, 48>>), JN(<<49, 101, 50>>)}
    [] t.k = "any" -> {JFalse, JS(A), JO(<<KV(A, JN(N1)), KV(A, JNull)>>)}
    [] t.k \in {"slice", "array"} -> {JA(<<>>)} \cup {JA(<<x, Good(t.e), y>>) : x, y \in JFew(t.e)}
    [] t.k = "map" -> {JO(<<>>)} \cup {JO(<<KV(A, x), KV(B, y)>>) : x, y \in JFew(t.e)} \cup {JO(<<KV(A, x), KV(A, Good(t.e))>>) : x \in JFew(t.e)}
                      \cup {JO(<<KV(<<Bang>>, Good(t.e)), KV(<<Tilde, 97>>, Good(t.e))>>)}
    [] t.k = "struct" -> LET K == Keys(t) IN
         {JO(<<>>), JO(<<KV(A, JNull)>>)} \cup
         UNION {{JO(<<KV(K[j], x)>>) : x \in (IF Len(t.f) = 1 THEN Texts(t.f[j].t) ELSE JFew(t.f[j].t))} : j \in DOMAIN t.f} \cup
         UNION {{JO(<<KV(K[j], Good(t.f[j].t)), KV(K[l], x)>>) : x \in JFew(t.f[l].t)} : j, l \in DOMAIN t.f} \cup
         {JO(<<KV(<<90>>, x), KV(A, JN(N1)), KV(B, JN(N1)), KV(UA, JN(M1))>>) : x \in {JNull, JA(<<JO(<<>>)>>)}}
    [] t.k = "custom" -> {JS(A), JS(<<Tilde, 97>>), JS(<<97, Bang>>), JA(<<JS(<<Bang>>)>>), JO(<<>>), JN(N1)} \cup (IF DecKind(t) = "" /\ t.u.k = "struct" THEN {JO(<<KV(<<83>>, JS(A))>>)} ELSE {})
    [] OTHER -> {}

\* ------------------------------------------------------------ types
Fld(name, tags, t) == [name |-> name, exp |-> TRUE, emb |-> FALSE, tags |-> tags, t |-> t]
Omitting == <<44>> \o OmitEmptyText
JTag(val) == <<[key |-> "json", val |-> val]>>
XTag(val) == <<[key |-> "x", val |-> val]>>
Struct1(f) == [k |-> "struct", f |-> <<f>>]
CKey == LibNamed("S_tv_t_")
Wrap(t, key) ==
  {[k |-> "ptr", e |-> t], [k |-> "slice", e |-> t], [k |-> "array", n |-> 2, e |-> t], [k |-> "array", n |-> 0, e |-> t],
   [k |-> "map", key |-> TString, e |-> t], Struct1(Fld(UA, <<>>, t)), Struct1(Fld(UB, JTag(Omitting), t))}
  \cup (IF key THEN {[k |-> "map", key |-> CKey, e |-> t]} ELSE {})
Leaf == {[k |-> "bool"], TString, TInt8, [k |-> "uint", bits |-> 8], [k |-> "float", bits |-> 64], [k |-> "float", bits |-> 32], Any,
         LibNamed("S_jv_j_"), LibNamed("R_tp_t_"), LibNamed("S_av_n_ov")}
RECURSIVE Wraps(_, _)
Wraps(T, d) == IF d = 0 THEN T ELSE T \cup Wraps(UNION {Wrap(t, d = 1) : t \in T}, d - 1)

\* struct types of two fields
E1 == {Struct1(Fld(UA, <<>>, TInt8)), [k |-> "struct", f |-> <<Fld(UB, <<>>, TString), Fld(<<67>>, JTag(UA), TInt8)>>],
       [k |-> "struct", f |-> <<[name |-> <<68>>, exp |-> TRUE, emb |-> TRUE, tags |-> <<>>, t |-> Struct1(Fld(UA, <<>>, TString))], Fld(<<67>>, JTag(Omitting), TString)>>]}
PlainT == {TInt8, [k |-> "ptr", e |-> TString], [k |-> "slice", e |-> TInt8], Struct1(Fld(UB, JTag(Omitting), TString))}
Tags == {<<>>, JTag(UB), JTag(<<45>>), JTag(Omitting), XTag(UA \o Omitting), JTag(UA) \o XTag(<<45>>)}
FieldsNamed(n, e) ==
  {Fld(n, g, t) : g \in Tags, t \in PlainT} \cup
  UNION {{[name |-> e, exp |-> TRUE, emb |-> TRUE, tags |-> g, t |-> s], [name |-> e, exp |-> TRUE, emb |-> TRUE, tags |-> g, t |-> [k |-> "ptr", e |-> s]]} : g \in {<<>>, JTag(UA)}, s \in E1}
Ambiguous(t, o) == LET c == Collect(t, o, 1, <<>>) IN \E x, y \in DOMAIN c : x # y /\ c[x].key = c[y].key /\ Len(c[x].path) = Len(c[y].path)
FieldTypes == {[k |-> "struct", f |-> <<f, g>>] : f \in FieldsNamed(UA, <<69>>), g \in FieldsNamed(UB, <<70>>)}

\* every custom type in every context
InContexts(t) ==
  LET P == [k |-> "ptr", e |-> t] IN
  {t, P, [k |-> "ptr", e |-> P], [k |-> "slice", e |-> t], [k |-> "slice", e |-> P], [k |-> "array", n |-> 2, e |-> t], [k |-> "map", key |-> TString, e |-> t],
   Struct1(Fld(UA, JTag(Omitting), t)), Struct1(Fld(UA, <<>>, P)), Struct1(Fld(UA, JTag(Omitting), P)), Struct1(Fld(UA, JTag(Omitting), [k |-> "ptr", e |-> P])),
   Struct1(Fld(UA, JTag(Omitting), Struct1(Fld(UB, JTag(Omitting), t)))), Struct1(Fld(UA, JTag(Omitting), [k |-> "array", n |-> 2, e |-> t]))}
  \cup (IF t.u.k = "string" THEN {[k |-> "map", key |-> t, e |-> TInt8], Struct1(Fld(UA, JTag(Omitting), [k |-> "map", key |-> t, e |-> Any]))} ELSE {})

Opt(tag, empty, om, nan) == [tag |-> tag, empty |-> empty, omit |-> om, nan |-> nan, inf |-> nan]
Default == Opt("json", FALSE, "Omit", FALSE)
Types == CASE Scenario = "shape" -> Wraps(Leaf, Deep)
           [] Scenario = "field" -> FieldTypes
           [] Scenario = "custom" -> UNION {InContexts(Lib[j]) : j \in {j \in DOMAIN Lib : Lib[j].k = "custom"}}
Opts == CASE Scenario = "shape" -> {Default, Opt("json", TRUE, "IsZero", TRUE)}
          [] Scenario = "field" -> {Default, Opt("x", FALSE, "Omit", FALSE), Opt("json", TRUE, "Omit", FALSE)}
          [] Scenario = "custom" -> {Default, Opt("json", TRUE, "IsZero", FALSE)}
RECURSIVE HasCustom(_)
HasCustom(t) ==
  CASE t.k = "custom" -> TRUE
    [] t.k \in {"ptr", "slice", "array"} -> HasCustom(t.e)
    [] t.k = "map" -> HasCustom(t.key) \/ HasCustom(t.e)
    [] t.k = "struct" -> \E j \in DOMAIN t.f : HasCustom(t.f[j].t)
    [] OTHER -> FALSE

\* ------------------------------------------------------------ the cases
VARIABLE c
Init == \E t \in Types, o \in Opts :
          /\ ~Ambiguous(IF t.k = "struct" THEN t ELSE [f |-> <<>>], o)
          /\ c = [op |-> "type", t |-> t, o |-> o]
Next ==
  /\ c.op = "type"
  /\ LET t == c.t  o == c.o IN
     \/ "enc" \in Ops /\ \E v \in Vals(t) : c' = [op |-> "enc", t |-> t, v |-> v, o |-> o, cust |-> HasCustom(t)]
     \/ "round" \in Ops /\ \E v \in Vals(t) : c' = [op |-> "round", t |-> t, v |-> v, o |-> o, cust |-> HasCustom(t)]
     \/ "dec" \in Ops /\ o.tag = "json" /\ \E old \in (IF o = Default THEN Few(t) ELSE {}), a \in Texts(t) :
          c' = [op |-> "dec", t |-> t, old |-> old, text |-> a.w, a |-> a, o |-> o, cust |-> HasCustom(t)]
Spec == Init /\ [][Next]_c

\* ------------------------------------------------------------ properties of the specification
RECURSIVE AllMatched(_), Finite(_)
AllMatched(t) ==
  CASE t.k = "custom" -> Matched(t)
    [] t.k \in {"ptr", "slice", "array"} -> AllMatched(t.e)
    [] t.k = "map" -> AllMatched(t.e) /\ (t.key.k # "custom" \/ (("text" \in Range(t.key.enc) /\ ~t.key.penc) = ("text" \in Range(t.key.dec))))
    [] t.k = "struct" -> \A j \in DOMAIN t.f : AllMatched(t.f[j].t)
    [] OTHER -> TRUE
Finite(v) ==
  CASE v.k = "n" -> v.n \notin {NaNText, PInf, MInf}
    [] v.k = "p" -> Finite(v.p)
    [] v.k = "a" -> \A j \in DOMAIN v.a : Finite(v.a[j])
    [] v.k = "f" -> \A j \in DOMAIN v.f : Finite(v.f[j])
    [] v.k = "m" -> \A j \in DOMAIN v.m : Finite(v.m[j].v)
    [] v.k = "any" -> Finite(v.v)
    [] OTHER -> TRUE
Supported == ~Unsupported(c.t, c.o, TRUE)
\* what is encoded without an error is read back, and is what was asked for
RoundTrip ==
  (c.op \in {"enc", "round"} /\ Supported /\ Errs(c.t, c.v, c.o) = {}) =>
    LET x == Enc(c.t, c.v, c.o, NoHint) IN
    /\ Finite(c.v) => Says(x, Real(x))
    /\ (AllMatched(c.t) /\ Finite(c.v)) =>
         LET r == Dec(c.t, Zero(c.t), Real(x), c.o) IN r.e = "" /\ Kept(c.t, c.v, r.v, c.o)
\* names are unique, and the order is the one of the declarations
RECURSIVE Less(_, _, _)
Less(p, q, j) == j <= Len(p) /\ j <= Len(q) /\ (p[j] < q[j] \/ (p[j] = q[j] /\ Less(p, q, j + 1)))
FieldOrder ==
  (c.op = "type" /\ c.t.k = "struct") => LET F == Fields(c.t, c.o) IN \A x, y \in DOMAIN F : x < y => F[x].key # F[y].key /\ Less(F[x].path, F[y].path, 1)
\* null leaves nothing behind, but the entries of a map stay
DecodeNull ==
  (c.op = "dec" /\ c.a.k = "null" /\ Supported /\ DecKind(c.t) = "" /\ c.t.k # "custom") =>
    LET r == Dec(c.t, c.old, c.a, c.o) IN
    CASE c.t.k = "map" -> r = Done(c.old)
      [] c.t.k = "slice" -> r.e = "" /\ Same(r.v, Nil)
      [] c.t.k = "ptr" -> TRUE
      [] OTHER -> r.e = "" /\ Same(r.v, Zero(c.t))
\* decoding the same text again changes nothing
Again ==
  (c.op = "dec" /\ Supported) => LET r == Dec(c.t, c.old, c.a, c.o) IN r.e = "" => LET q == Dec(c.t, r.v, c.a, c.o) IN q.e = "" /\ Same(q.v, r.v)
\* fields the object does not name are left alone
Untouched ==
  (c.op = "dec" /\ Supported /\ c.t.k = "struct" /\ c.a.k = "obj") =>
    LET r == Dec(c.t, c.old, c.a, c.o)  F == Fields(c.t, c.o) IN
    r.e = "" => \A j \in DOMAIN F :
      (\A l \in DOMAIN c.a.m : c.a.m[l].key # F[j].key) =>
        LET p == FieldOf(c.old, F[j].path)  q == FieldOf(r.v, F[j].path) IN
        IF p = <<>> THEN q = <<>> \/ Same(q[1], Zero(F[j].t)) ELSE q # <<>> /\ Same(p[1], q[1])
Inv == RoundTrip /\ FieldOrder /\ DecodeNull /\ Again /\ Untouched
Out == IF c.op = "dec" THEN [op |-> c.op, t |-> c.t, old |-> c.old, text |-> c.text, o |-> c.o, cust |-> c.cust] ELSE c
Test == ~Emit \/ c.op = "type" \/ PrintT("TEST " \o ToJson(Out))
=============================================================================

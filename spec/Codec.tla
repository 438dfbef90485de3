-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Encoding Go values to JSON and decoding JSON into them by their type.    *)
(*                                                                         *)
(* Types    [k |-> "bool" | "string" | "any" | "bad"]                       *)
(*          [k |-> "int" | "uint" | "float", bits]                          *)
(*          [k |-> "ptr" | "slice", e]  [k |-> "array", n, e]               *)
(*          [k |-> "map", key, e]       [k |-> "struct", f |-> fields]      *)
(*          [k |-> "custom", u, enc, dec, omit]  a type with own methods    *)
(* Fields   [name, exp, emb, tags |-> <<[key, val]>>, t]                    *)
(* Values   [k |-> "nil"]  [k |-> "b", b]  [k |-> "s", s]  [k |-> "n", n]   *)
(*          [k |-> "p", p]  [k |-> "a", a]  [k |-> "m", m |-> <<[key, v]>>] *)
(*          [k |-> "f", f]  [k |-> "any", t, v]                             *)
(*          [k |-> "c", v]  (with j, the JSON its payload is, if it is)     *)
(* JSON     [k |-> "null"]  [k |-> "bool", b]  [k |-> "num", n, f64, f32]   *)
(*          [k |-> "str", s, h]  [k |-> "arr", a]                           *)
(*          [k |-> "obj", m |-> <<[key, v]>>]  [k |-> "tok", s]             *)
(*          each with w, its text without white space                       *)
(* All texts are sequences of bytes.  Numbers are in shortest decimal form. *)
(* Options  [tag, empty, omit, nan, inf]                                    *)
(***************************************************************************)
EXTENDS Escape, FiniteSets
Nm == INSTANCE Number

Range(s) == {s[i] : i \in DOMAIN s}
Nil == [k |-> "nil"]
NoHint == [raw |-> FALSE, html |-> FALSE, empty |-> FALSE]

\* ------------------------------------------------------------ struct fields
Comma == 44
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==                                      \* at commas
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = Comma THEN <<cur>> \o Split(s, i + 1, <<>>) ELSE Split(s, i + 1, Append(cur, s[i]))
OmitEmptyText == <<111, 109, 105, 116, 101, 109, 112, 116, 121>>
EightBitText  == <<56, 98, 105, 116>>
HtmlText      == <<104, 116, 109, 108>>
Tag(f, o) ==                                             \* what the options' tag key says about a field
  LET I == {i \in DOMAIN f.tags : f.tags[i].key = o.tag} IN
  IF I = {} THEN [has |-> FALSE, name |-> f.name, h |-> [NoHint EXCEPT !.empty = o.empty]]
  ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
           p == Split(f.tags[i].val, 1, <<>>)
           opts == {p[j] : j \in 2..Len(p)}
       IN [has |-> TRUE, name |-> IF p[1] = <<>> THEN f.name ELSE p[1],
           h |-> [raw |-> EightBitText \in opts, html |-> HtmlText \in opts, empty |-> o.empty \/ OmitEmptyText \in opts]]

\* an untagged embedded struct, or pointer to one, lends its fields
Inlined(f, tag) == ~tag.has /\ f.emb /\ (f.t.k = "struct" \/ (f.t.k = "ptr" /\ f.t.e.k = "struct"))
RECURSIVE Collect(_, _, _, _)
Collect(t, o, i, path) ==
  IF i > Len(t.f) THEN <<>>
  ELSE LET f == t.f[i]  tag == Tag(f, o)  here == Append(path, i) IN
       (IF tag.name = <<45>> THEN <<>>
        ELSE IF Inlined(f, tag) THEN IF f.t.k = "ptr" THEN IF f.exp THEN Collect(f.t.e, o, 1, here) ELSE <<>>
                                     ELSE Collect(f.t, o, 1, here)
        ELSE IF f.exp THEN <<[key |-> tag.name, path |-> here, t |-> f.t, h |-> tag.h]>> ELSE <<>>)
       \o Collect(t, o, i + 1, path)
Hides(c, i, j) == /\ c[i].key = c[j].key
                  /\ (Len(c[i].path) < Len(c[j].path) \/ (Len(c[i].path) = Len(c[j].path) /\ i < j))
RECURSIVE Pick(_, _, _)
Pick(c, I, i) == IF i > Len(c) THEN <<>> ELSE (IF i \in I THEN <<c[i]>> ELSE <<>>) \o Pick(c, I, i + 1)
Fields(t, o) == LET c == Collect(t, o, 1, <<>>) IN Pick(c, {j \in DOMAIN c : ~\E i \in DOMAIN c : Hides(c, i, j)}, 1)

\* the value of a field, <<>> if a nil embedded pointer is in the way
RECURSIVE At1(_, _, _)
At1(v, path, i) ==
  LET w == IF v.k = "p" THEN v.p ELSE v IN
  IF v.k = "nil" THEN <<>> ELSE IF i = Len(path) THEN <<w.f[path[i]]>> ELSE At1(w.f[path[i]], path, i + 1)
FieldOf(v, path) == At1(v, path, 1)

\* ------------------------------------------------------------ custom types
Bang == 33  Tilde == 126  QMark == 63  LBrack == 91  RBrack == 93
HasMethods(t) == t.k = "custom" /\ (t.enc # <<>> \/ t.dec # <<>>)
EncKind(t) == IF t.k # "custom" THEN "" ELSE LET E == Range(t.enc) IN IF "append" \in E THEN "append" ELSE IF "json" \in E THEN "json" ELSE IF "text" \in E THEN "text" ELSE ""
DecKind(t) == IF t.k # "custom" THEN "" ELSE LET E == Range(t.dec) IN IF "node" \in E THEN "node" ELSE IF "json" \in E THEN "json" ELSE IF "text" \in E THEN "text" ELSE ""
Payload(t, v) == IF t.u.k = "string" THEN v.v.s ELSE v.v.f[1].s
WithPayload(t, s) == [k |-> "c", v |-> IF t.u.k = "string" THEN [k |-> "s", s |-> s] ELSE [k |-> "f", f |-> <<[k |-> "s", s |-> s]>>]]
\* the methods of the instrumented types
Fails(s) == Bang \in Range(s)
NullText == <<110, 117, 108, 108>>                       \* what an empty payload is written as
TextOut(s) == <<Tilde>> \o s
TextIn(s) == IF s # <<>> /\ s[1] = Tilde THEN Tail(s) ELSE Append(s, QMark)
NodeIn(s) == IF Len(s) >= 2 /\ s[1] = LBrack THEN SubSeq(s, 2, Len(s) - 1) ELSE Append(s, QMark)
\* the omit method with a name, if it is usable, says so for one payload
OmitSays(t, v, name) == \E i \in DOMAIN t.omit : t.omit[i].name = name /\ Payload(t, v) = t.omit[i].when
HasOmit(t, name) == t.k = "custom" /\ \E i \in DOMAIN t.omit : t.omit[i].name = name

\* ------------------------------------------------------------ zero and empty values
RECURSIVE Zero(_)
Zero(t) ==
  CASE t.k = "bool" -> [k |-> "b", b |-> FALSE]
    [] t.k = "string" -> [k |-> "s", s |-> <<>>]
    [] t.k \in {"int", "uint", "float"} -> [k |-> "n", n |-> <<48>>]
    [] t.k = "array" -> [k |-> "a", a |-> [i \in 1..t.n |-> Zero(t.e)]]
    [] t.k = "struct" -> [k |-> "f", f |-> [i \in DOMAIN t.f |-> Zero(t.f[i].t)]]
    [] t.k = "custom" -> [k |-> "c", v |-> Zero(t.u)]
    [] OTHER -> Nil

RECURSIVE Empty(_, _, _)
NeverEmpty(t, o) == t.k = "struct" \/ (t.k = "custom" /\ t.u.k = "struct" /\ ~HasOmit(t, o.omit))   \* as an element
EmptyByKind(t, v, o) ==
  CASE t.k \in {"ptr", "any"} -> v.k = "nil"
    [] t.k \in {"slice", "map"} -> v.k = "nil" \/ (v.k = "a" /\ v.a = <<>>) \/ (v.k = "m" /\ v.m = <<>>)
    [] t.k = "string" -> v.s = <<>>
    [] t.k = "bool" -> ~v.b
    [] t.k \in {"int", "uint", "float"} -> v.n \in {<<48>>, <<45, 48>>}
    [] t.k = "array" -> \A i \in 1..t.n : ~NeverEmpty(t.e, o) /\ Empty(t.e, v.a[i], o)
    [] OTHER -> FALSE
\* would the field be left out
LeftOut(c, v, o) == c.h.empty /\ Empty(c.t, v, o)
Empty(t, v, o) ==
  IF HasOmit(t, o.omit) THEN OmitSays(t, v, o.omit)
  ELSE IF t.k = "ptr" /\ HasOmit(t.e, o.omit) THEN v.k = "nil" \/ OmitSays(t.e, v.p, o.omit)
  ELSE IF t.k = "ptr" /\ t.e.k = "ptr" /\ HasOmit(t.e.e, o.omit) THEN v.k = "nil" \/ v.p.k = "nil" \/ OmitSays(t.e.e, v.p.p, o.omit)
  ELSE IF t.k = "struct" THEN LET F == Fields(t, o) IN \A i \in DOMAIN F : LET x == FieldOf(v, F[i].path) IN x = <<>> \/ LeftOut(F[i], x[1], o)
  ELSE IF t.k = "custom" THEN IF t.u.k = "struct" /\ EncKind(t) # "" THEN FALSE ELSE Empty(t.u, v.v, o)
  ELSE EmptyByKind(t, v, o)

\* ------------------------------------------------------------ encoding
RECURSIVE Unsupported(_, _, _)
\* is there no codec for a type; all: counting hidden fields
Unsupported(t, o, all) ==
  CASE t.k = "bad" -> TRUE
    [] t.k \in {"ptr", "slice", "array"} -> Unsupported(t.e, o, all)
    [] t.k = "map" -> ~(t.key.k = "string" \/ (t.key.k = "custom" /\ (t.key.u.k = "string" \/ "text" \in Range(t.key.enc)))) \/ Unsupported(t.e, o, all)
    [] t.k = "struct" -> LET F == IF all THEN Collect(t, o, 1, <<>>) ELSE Fields(t, o) IN \E i \in DOMAIN F : Unsupported(F[i].t, o, all)
    [] OTHER -> FALSE

NaNText == <<78, 97, 78>>  PInf == <<43, 73, 110, 102>>  MInf == <<45, 73, 110, 102>>
\* a map key as text: a text method on the value comes before the string it is
KeyText(kt, s) == IF kt.k = "custom" /\ "text" \in Range(kt.enc) /\ ~kt.penc THEN TextOut(s) ELSE s
KeyFails(kt, s) == kt.k = "custom" /\ "text" \in Range(kt.enc) /\ ~kt.penc /\ Fails(s)

RECURSIVE Errs(_, _, _), Enc(_, _, _, _)
\* the errors there are in encoding a value of a supported type
Errs(t, v, o) ==
  IF EncKind(t) # "" THEN IF Fails(Payload(t, v)) THEN {"custom"} ELSE {}
  ELSE IF v.k = "nil" THEN {}
  ELSE CASE t.k = "float" -> IF (v.n = NaNText /\ ~o.nan) \/ (v.n \in {PInf, MInf} /\ ~o.inf) THEN {"other"} ELSE {}
    [] t.k = "any" -> IF Unsupported(v.t, o, TRUE) THEN {"other"} ELSE Errs(v.t, v.v, o)
    [] t.k = "ptr" -> Errs(t.e, v.p, o)
    [] t.k \in {"slice", "array"} -> UNION {Errs(t.e, v.a[i], o) : i \in DOMAIN v.a}
    [] t.k = "map" -> UNION {Errs(t.e, v.m[i].v, o) \cup (IF KeyFails(t.key, v.m[i].key) THEN {"custom"} ELSE {}) : i \in DOMAIN v.m}
    [] t.k = "struct" -> LET F == Fields(t, o) IN
         UNION {LET x == FieldOf(v, F[i].path) IN IF x = <<>> THEN {} ELSE IF LeftOut(F[i], x[1], o) THEN {} ELSE Errs(F[i].t, x[1], o) : i \in DOMAIN F}
    [] t.k = "custom" -> Errs(t.u, v.v, o)
    [] OTHER -> {}

\* the JSON a value stands for: num with bits 0 exactly that text, map in any order
XNull == [k |-> "null"]
Members(F, v, o) ==
  LET M[i \in 0..Len(F)] ==
        IF i = 0 THEN <<>>
        ELSE LET x == FieldOf(v, F[i].path) IN
             IF x = <<>> THEN M[i - 1]
             ELSE IF LeftOut(F[i], x[1], o) THEN M[i - 1]
             ELSE Append(M[i - 1], [key |-> Sanitize(F[i].key), v |-> Enc(F[i].t, x[1], o, F[i].h)])
  IN M[Len(F)]
Enc(t, v, o, h) ==
  IF EncKind(t) = "json" THEN [k |-> "tree", t |-> v.j]
  ELSE IF EncKind(t) = "append" THEN [k |-> "arr", a |-> <<[k |-> "tree", t |-> v.j]>>]
  ELSE IF EncKind(t) = "text" THEN [k |-> "str", s |-> Sanitize(TextOut(Payload(t, v))), html |-> FALSE]
  ELSE CASE t.k = "slice" -> [k |-> "arr", a |-> IF v.k = "nil" THEN <<>> ELSE [i \in DOMAIN v.a |-> Enc(t.e, v.a[i], o, h)]]
    [] v.k = "nil" -> XNull
    [] t.k = "bool" -> [k |-> "bool", b |-> v.b]
    [] t.k = "string" -> [k |-> "str", s |-> Sanitize(v.s), html |-> h.html]
    [] t.k \in {"int", "uint"} -> [k |-> "num", bits |-> 0, n |-> v.n]
    [] t.k = "float" -> IF v.n \in {NaNText, PInf, MInf} THEN [k |-> "tok", s |-> v.n] ELSE [k |-> "num", bits |-> t.bits, n |-> v.n]
    [] t.k = "any" -> Enc(v.t, v.v, o, NoHint)
    [] t.k = "ptr" -> Enc(t.e, v.p, o, h)
    [] t.k = "array" -> [k |-> "arr", a |-> [i \in DOMAIN v.a |-> Enc(t.e, v.a[i], o, h)]]
    [] t.k = "map" -> [k |-> "map", m |-> [i \in DOMAIN v.m |-> [key |-> Sanitize(KeyText(t.key, v.m[i].key)), v |-> Enc(t.e, v.m[i].v, o, NoHint)]]]
    [] t.k = "struct" -> [k |-> "obj", m |-> Members(Fields(t, o), v, o)]
    [] t.k = "custom" -> Enc(t.u, v.v, o, h)

\* does the JSON text say what is expected
RECURSIVE Says(_, _)
Says(x, a) ==
  CASE x.k = "tree" -> x.t = a
    [] x.k # "map" /\ x.k # a.k -> FALSE
    [] x.k = "null" -> TRUE
    [] x.k = "bool" -> x.b = a.b
    [] x.k = "num" -> x.n = (IF x.bits = 0 THEN a.n ELSE IF x.bits = 32 THEN a.f32 ELSE a.f64)
    [] x.k = "str" -> x.s = a.s /\ ~(x.html /\ a.h)
    [] x.k = "tok" -> x.s = a.s
    [] x.k = "arr" -> Len(x.a) = Len(a.a) /\ \A i \in DOMAIN x.a : Says(x.a[i], a.a[i])
    [] x.k = "obj" -> Len(x.m) = Len(a.m) /\ \A i \in DOMAIN x.m : x.m[i].key = a.m[i].key /\ Says(x.m[i].v, a.m[i].v)
    [] x.k = "map" -> /\ a.k = "obj" /\ Len(x.m) = Len(a.m)
                      /\ \A i \in DOMAIN x.m : \E j \in DOMAIN a.m : x.m[i].key = a.m[j].key /\ Says(x.m[i].v, a.m[j].v)

\* ------------------------------------------------------------ decoding
Limit(bits) == CASE bits = 8 -> <<1, 2, 7>> [] bits = 16 -> <<3, 2, 7, 6, 7>> [] bits = 32 -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>> [] bits = 64 -> Nm!MaxInt
ULimit(bits) == CASE bits = 8 -> <<2, 5, 5>> [] bits = 16 -> <<6, 5, 5, 3, 5>> [] bits = 32 -> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>> [] bits = 64 -> Nm!MaxUint
Last1(d) == [d EXCEPT ![Len(d)] = @ + 1]
Dig(s) == [i \in 1..(IF s[1] = 45 THEN Len(s) - 1 ELSE Len(s)) |-> s[IF s[1] = 45 THEN i + 1 ELSE i] - 48]
FitInt(s, bits) == s # <<>> /\ Nm!Leq(Dig(s), IF s[1] = 45 THEN Last1(Limit(bits)) ELSE Limit(bits))
FitUint(s, bits) == s # <<>> /\ Nm!Leq(Dig(s), ULimit(bits))

Done(v) == [e |-> "", v |-> v]
Stop(e) == [e |-> e, v |-> Nil]
Num(s) == [k |-> "n", n |-> s]
Str(s) == [k |-> "s", s |-> s]
Any == [k |-> "any"]
PutKey(m, key, v) ==
  LET I == {i \in DOMAIN m : m[i].key = key} IN
  IF I = {} THEN Append(m, [key |-> key, v |-> v]) ELSE [i \in DOMAIN m |-> IF i \in I THEN [key |-> key, v |-> v] ELSE m[i]]
RECURSIVE Dyn(_)                                         \* what an interface holds
Dyn(a) ==
  CASE a.k = "null" -> Nil
    [] a.k = "bool" -> [k |-> "any", t |-> [k |-> "bool"], v |-> [k |-> "b", b |-> a.b]]
    [] a.k = "num" -> [k |-> "any", t |-> [k |-> "float", bits |-> 64], v |-> Num(a.f64)]
    [] a.k = "str" -> [k |-> "any", t |-> [k |-> "string"], v |-> Str(a.s)]
    [] a.k = "arr" -> [k |-> "any", t |-> [k |-> "slice", e |-> Any], v |-> [k |-> "a", a |-> [i \in DOMAIN a.a |-> Dyn(a.a[i])]]]
    [] a.k = "obj" -> LET M[i \in 0..Len(a.m)] == IF i = 0 THEN <<>> ELSE PutKey(M[i - 1], a.m[i].key, Dyn(a.m[i].v))
                      IN [k |-> "any", t |-> [k |-> "map", key |-> [k |-> "string"], e |-> Any], v |-> [k |-> "m", m |-> M[Len(a.m)]]]

RECURSIVE Dec(_, _, _, _), Fold(_, _, _, _, _), Into(_, _, _, _, _, _), Els(_, _, _, _, _, _)
Dec(t, old, a, o) ==
  LET d == DecKind(t) IN
  CASE d = "json" -> IF Fails(a.w) THEN Stop("custom") ELSE Done(WithPayload(t, a.w))
    [] d = "node" -> IF Fails(a.w) THEN Stop("custom") ELSE Done(WithPayload(t, NodeIn(a.w)))
    [] d = "text" -> IF a.k # "str" THEN Stop("type") ELSE IF Fails(a.s) THEN Stop("custom") ELSE Done(WithPayload(t, TextIn(a.s)))
    [] t.k = "custom" -> LET r == Dec(t.u, old.v, a, o) IN IF r.e = "" THEN Done([k |-> "c", v |-> r.v]) ELSE r
    [] t.k = "any" -> Done(Dyn(a))
    [] t.k = "map" -> IF a.k = "null" THEN Done(old)
                      ELSE IF a.k = "obj" THEN Fold(t, [k |-> "m", m |-> IF old.k = "nil" THEN <<>> ELSE old.m], a, o, 1) ELSE Stop("type")
    [] t.k = "slice" -> IF a.k = "null" THEN Done(IF old.k = "nil" THEN old ELSE [k |-> "a", a |-> <<>>])
                        ELSE IF a.k = "arr" THEN Els(t.e, IF old.k = "nil" THEN <<>> ELSE old.a, a, o, Len(a.a), <<>>) ELSE Stop("type")
    [] t.k = "array" /\ a.k = "arr" -> Els(t.e, old.a, a, o, t.n, <<>>)
    [] a.k = "null" -> Done(Zero(t))
    [] t.k = "bool" -> IF a.k = "bool" THEN Done([k |-> "b", b |-> a.b]) ELSE Stop("type")
    [] t.k = "string" -> IF a.k = "str" THEN Done(Str(a.s)) ELSE Stop("type")
    [] t.k = "int" -> IF a.k # "num" THEN Stop("type") ELSE LET s == Nm!ToInt(a.n) IN IF FitInt(s, t.bits) THEN Done(Num(s)) ELSE Stop("range")
    [] t.k = "uint" -> IF a.k # "num" THEN Stop("type") ELSE LET s == Nm!ToUint(a.n) IN IF FitUint(s, t.bits) THEN Done(Num(s)) ELSE Stop("range")
    [] t.k = "float" -> IF a.k # "num" THEN Stop("type")
                        ELSE LET s == IF t.bits = 32 THEN a.f32 ELSE a.f64 IN IF s \in {PInf, MInf} THEN Stop("range") ELSE Done(Num(s))
    [] t.k = "ptr" -> LET r == Dec(t.e, IF old.k = "nil" THEN Zero(t.e) ELSE old.p, a, o) IN IF r.e = "" THEN Done([k |-> "p", p |-> r.v]) ELSE r
    [] t.k = "struct" -> IF a.k = "obj" THEN Fold(t, old, a, o, 1) ELSE Stop("type")
    [] OTHER -> Stop("type")
\* n elements of an array: the old ones are decoded into, the others zero
Els(e, old, a, o, n, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > n THEN Done([k |-> "a", a |-> acc])
  ELSE IF i > Len(a.a) THEN Els(e, old, a, o, n, Append(acc, Zero(e)))
  ELSE LET r == Dec(e, IF i <= Len(old) THEN old[i] ELSE Zero(e), a.a[i], o) IN
       IF r.e # "" THEN r ELSE Els(e, old, a, o, n, Append(acc, r.v))
\* members of an object, in order
Fold(t, acc, a, o, i) ==
  IF i > Len(a.m) THEN Done(acc)
  ELSE LET m == a.m[i] IN
  IF t.k = "map"
  THEN LET r == Dec(t.e, Zero(t.e), m.v, o)
           text == t.key.k = "custom" /\ "text" \in Range(t.key.dec)
       IN IF r.e # "" THEN r
          ELSE IF text /\ Fails(m.key) THEN Stop("custom")
          ELSE Fold(t, [k |-> "m", m |-> PutKey(acc.m, IF text THEN TextIn(m.key) ELSE m.key, r.v)], a, o, i + 1)
  ELSE LET F == Fields(t, o)  I == {j \in DOMAIN F : F[j].key = m.key} IN
       IF I = {} THEN Fold(t, acc, a, o, i + 1)
       ELSE LET r == Into(t, acc, F[CHOOSE j \in I : TRUE].path, 1, m.v, o) IN
            IF r.e # "" THEN r ELSE Fold(t, r.v, a, o, i + 1)
\* decode into the field a path leads to, making embedded pointers
Into(t, v, path, i, a, o) ==
  IF t.k = "ptr"
  THEN LET r == Into(t.e, IF v.k = "nil" THEN Zero(t.e) ELSE v.p, path, i, a, o) IN
       IF r.e # "" THEN r ELSE Done([k |-> "p", p |-> r.v])
  ELSE LET j == path[i]
           r == IF i = Len(path) THEN Dec(t.f[j].t, v.f[j], a, o) ELSE Into(t.f[j].t, v.f[j], path, i + 1, a, o)
       IN IF r.e # "" THEN r ELSE Done([v EXCEPT !.f[j] = r.v])

\* ------------------------------------------------------------ equality
\* nil and empty slices are the same, maps have no order
RECURSIVE Same(_, _)
Same(x, y) ==
  CASE x.k = "c" /\ y.k = "c" -> Same(x.v, y.v)
    [] x.k \in {"nil", "a"} /\ y.k \in {"nil", "a"} /\ x.k # y.k -> (x.k = "nil" \/ x.a = <<>>) /\ (y.k = "nil" \/ y.a = <<>>)
    [] x.k # y.k -> FALSE
    [] x.k = "nil" -> TRUE
    [] x.k = "b" -> x.b = y.b
    [] x.k = "s" -> x.s = y.s
    [] x.k = "n" -> x.n = y.n
    [] x.k = "p" -> Same(x.p, y.p)
    [] x.k = "a" -> Len(x.a) = Len(y.a) /\ \A i \in DOMAIN x.a : Same(x.a[i], y.a[i])
    [] x.k = "f" -> Len(x.f) = Len(y.f) /\ \A i \in DOMAIN x.f : Same(x.f[i], y.f[i])
    [] x.k = "m" -> Len(x.m) = Len(y.m) /\ \A i \in DOMAIN x.m : \E j \in DOMAIN y.m : x.m[i].key = y.m[j].key /\ Same(x.m[i].v, y.m[j].v)
    [] x.k = "any" -> x.t = y.t /\ Same(x.v, y.v)
    [] OTHER -> FALSE

\* ------------------------------------------------------------ what a round trip keeps
Matched(t) == \/ EncKind(t) = "" /\ DecKind(t) = ""
              \/ EncKind(t) = "append" /\ DecKind(t) = "node"
              \/ EncKind(t) = "json" /\ DecKind(t) = "json"
              \/ EncKind(t) = "text" /\ DecKind(t) = "text"
IsNull(t, v, o) == LET x == Enc(t, v, o, NoHint) IN x = XNull \/ (x.k = "tree" /\ x.t.k = "null")
RECURSIVE Kept(_, _, _, _)
Kept(t, x, y, o) ==
  CASE t.k = "custom" -> IF EncKind(t) = "" /\ DecKind(t) = "" THEN Kept(t.u, x.v, y.v, o) ELSE Payload(t, x) = Payload(t, y)
                         \/ (EncKind(t) # "text" /\ Payload(t, x) = <<>> /\ Payload(t, y) = NullText)
    [] t.k = "any" -> (y.k = "nil") = (x.k = "nil" \/ IsNull(t, x, o))
    [] t.k = "ptr" -> IF x.k = "nil" \/ IsNull(t, x, o) THEN y.k = "nil" ELSE y.k = "p" /\ Kept(t.e, x.p, y.p, o)
    [] t.k = "slice" -> IF x.k = "nil" \/ x.a = <<>> THEN y.k = "nil" \/ y.a = <<>>
                        ELSE y.k = "a" /\ Len(x.a) = Len(y.a) /\ \A i \in DOMAIN x.a : Kept(t.e, x.a[i], y.a[i], o)
    [] t.k = "array" -> \A i \in 1..t.n : Kept(t.e, x.a[i], y.a[i], o)
    [] t.k = "map" -> IF x.k = "nil" THEN y.k = "nil"
                      ELSE y.k = "m" /\ Len(x.m) = Len(y.m) /\ \A i \in DOMAIN x.m : \E j \in DOMAIN y.m : x.m[i].key = y.m[j].key /\ Kept(t.e, x.m[i].v, y.m[j].v, o)
    [] t.k = "struct" ->
         LET F == Fields(t, o) IN
         \A i \in DOMAIN F : LET fx == FieldOf(x, F[i].path)  fy == FieldOf(y, F[i].path) IN
           IF fx = <<>> THEN fy = <<>> \/ Same(fy[1], Zero(F[i].t))
           ELSE IF LeftOut(F[i], fx[1], o) THEN fy = <<>> \/ Same(fy[1], Zero(F[i].t))
           ELSE fy # <<>> /\ Kept(F[i].t, fx[1], fy[1], o)
    [] OTHER -> Same(x, y)
=============================================================================

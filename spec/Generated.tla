------------------------------ MODULE Generated ------------------------------
(***************************************************************************)
(* The code the generator writes for a struct type: which fields it has and  *)
(* what its methods do.  Types, values and JSON are those of Codec, and      *)
(*   [k |-> "time"]  with the RFC 3339 text as value, in UTC                 *)
(*   [k |-> "dur"]   nanoseconds                                             *)
(*   [k |-> "self"]  the type itself (under a pointer, slice or map)         *)
(*   [k |-> "bad"]   a type JSON has nothing for                             *)
(*   structs have ext: the type is declared in another package               *)
(* Options [tag, tagged, exported, empty, case, match, on, append, unmarshal] *)
(*   omit   the method that tells that a value is left out when empty         *)
(*   match  "all", "prefix" or "has", with the text on                       *)
(***************************************************************************)
EXTENDS Codec

\* ------------------------------------------------------------ which fields
RawText == <<114, 97, 119>>
Upper(c) == c \in 65..90
Low1(c) == IF Upper(c) THEN c + 32 ELSE c
Up1(c) == IF c \in 97..122 THEN c - 32 ELSE c
RECURSIVE Snake(_, _)
Snake(s, i) == IF i > Len(s) THEN <<>> ELSE (IF Upper(s[i]) /\ i > 1 THEN <<95>> ELSE <<>>) \o <<Low1(s[i])>> \o Snake(s, i + 1)
\* names are words, each but the first begun by a capital
Cased(s, case) ==
  CASE case = "none" -> s
    [] case = "lower" -> [i \in DOMAIN s |-> Low1(s[i])]
    [] case = "snake" -> Snake(s, 1)
    [] case = "camel" -> [s EXCEPT ![1] = Low1(s[1])]
    [] case = "Camel" -> [s EXCEPT ![1] = Up1(s[1])]
Occurs(p, s, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Matches(s, o) == CASE o.match = "all" -> TRUE [] o.match = "prefix" -> Occurs(o.on, s, 1) [] o.match = "has" -> \E i \in 1..(Len(s) + 1) : Occurs(o.on, s, i)

GTag(f, o) ==
  LET I == {i \in DOMAIN f.tags : f.tags[i].key = o.tag} IN
  IF I = {} THEN [has |-> FALSE, name |-> Cased(f.name, o.case), raw |-> FALSE, empty |-> o.empty]
  ELSE LET p == Split(f.tags[CHOOSE i \in I : \A j \in I : i <= j].val, 1, <<>>)
           opts == {p[j] : j \in 2..Len(p)}
       IN [has |-> TRUE, name |-> IF p[1] = <<>> THEN Cased(f.name, o.case) ELSE p[1], raw |-> RawText \in opts, empty |-> o.empty \/ OmitEmptyText \in opts]
Takes(t, f, tag, o) ==
  /\ f.name # <<95>> /\ tag.name # <<45>>
  /\ f.exp \/ ~(t.ext \/ o.exported)
  /\ tag.has \/ ~o.tagged
  /\ Matches(f.name, o)
RECURSIVE GCollect(_, _, _, _)
GCollect(t, o, i, path) ==
  IF i > Len(t.f) THEN <<>>
  ELSE LET f == t.f[i]  tag == GTag(f, o)  here == Append(path, i) IN
       (IF Inlined(f, tag) THEN IF t.ext /\ ~f.exp THEN <<>> ELSE GCollect(IF f.t.k = "ptr" THEN f.t.e ELSE f.t, o, 1, here)
        ELSE IF Takes(t, f, tag, o) THEN <<[key |-> tag.name, path |-> here, t |-> f.t, raw |-> tag.raw, empty |-> tag.empty]>> ELSE <<>>)
       \o GCollect(t, o, i + 1, path)
\* of two fields of one name the outer one counts
GFields(t, o) ==
  LET c == GCollect(t, o, 1, <<>>) IN Pick(c, {j \in DOMAIN c : ~\E i \in DOMAIN c : c[i].key = c[j].key /\ Len(c[i].path) < Len(c[j].path)}, 1)
\* two fields of one name at the same depth: either may count
TwoNames(t, o) == LET F == GFields(t, o) IN \E i, j \in DOMAIN F : i # j /\ F[i].key = F[j].key
RECURSIVE GAmbiguous(_, _)
GAmbiguous(t, o) ==
  CASE t.k = "struct" -> TwoNames(t, o) \/ LET F == GFields(t, o) IN \E i \in DOMAIN F : GAmbiguous(F[i].t, o)
    [] t.k \in {"ptr", "slice", "map"} -> GAmbiguous(t.e, o)
    [] OTHER -> FALSE

\* what the generator refuses to write: encoding a type JSON has nothing for;
\* decoding leaves out fields of such types but not the elements of a map
RECURSIVE NoEnc(_, _), NoDec(_, _), Can(_)
NoEnc(t, o) ==
  CASE t.k = "bad" -> TRUE
    [] t.k \in {"ptr", "slice", "map"} -> NoEnc(t.e, o)
    [] t.k = "struct" -> LET F == GFields(t, o) IN \E i \in DOMAIN F : NoEnc(F[i].t, o)
    [] OTHER -> FALSE
Can(t) == IF t.k \in {"ptr", "slice"} THEN Can(t.e) ELSE t.k # "bad"
NoDec(t, o) ==
  CASE t.k = "bad" -> TRUE
    [] t.k \in {"ptr", "slice", "map"} -> NoDec(t.e, o)
    [] t.k = "struct" -> LET F == GFields(t, o) IN \E i \in DOMAIN F : Can(F[i].t) /\ NoDec(F[i].t, o)
    [] OTHER -> FALSE
Refused(t, o) == (o.append /\ NoEnc(t, o)) \/ (o.unmarshal /\ NoDec(t, o))

\* ------------------------------------------------------------ zero and empty values
ZeroTime == <<48, 48, 48, 49, 45, 48, 49, 45, 48, 49, 84, 48, 48, 58, 48, 48, 58, 48, 48, 90>>
RECURSIVE GZero(_)
GZero(t) == CASE t.k = "time" -> Str(ZeroTime)
              [] t.k = "dur" -> Num(<<48>>)
              [] t.k = "struct" -> [k |-> "f", f |-> [i \in DOMAIN t.f |-> GZero(t.f[i].t)]]
              [] OTHER -> Zero(t)
GEmpty(t, v, name) ==
  IF HasOmit(t, name) THEN OmitSays(t, v, name)
  ELSE IF t.k = "ptr" /\ HasOmit(t.e, name) THEN v.k = "nil" \/ OmitSays(t.e, v.p, name)
  ELSE LET u == IF t.k = "custom" THEN t.u ELSE t  w == IF t.k = "custom" THEN v.v ELSE v IN
       CASE u.k \in {"ptr", "any"} -> w.k = "nil"
         [] u.k \in {"slice", "map"} -> w.k = "nil" \/ (w.k = "a" /\ w.a = <<>>) \/ (w.k = "m" /\ w.m = <<>>)
         [] u.k = "string" -> w.s = <<>>
         [] u.k = "bool" -> ~w.b
         [] u.k \in {"int", "uint", "float", "dur"} -> w.n \in {<<48>>, <<45, 48>>}
         [] OTHER -> FALSE
GLeftOut(c, v, o) == c.empty /\ GEmpty(c.t, v, o.omit)

\* ------------------------------------------------------------ encoding
\* root is the type of the method, for the types that refer to it
RECURSIVE GFails(_, _, _, _), GEnc(_, _, _, _, _)
GFails(t, v, o, root) ==
  IF t.k = "custom" THEN EncKind(t) # "" /\ Fails(Payload(t, v))
  ELSE IF v.k = "nil" THEN FALSE
  ELSE CASE t.k = "ptr" -> GFails(t.e, v.p, o, root)
    [] t.k = "slice" -> \E i \in DOMAIN v.a : GFails(t.e, v.a[i], o, root)
    [] t.k = "map" -> \E i \in DOMAIN v.m : GFails(t.e, v.m[i].v, o, root) \/ KeyFails(t.key, v.m[i].key)
    [] t.k = "self" -> GFails(root, v, o, root)
    [] t.k = "struct" -> LET F == GFields(t, o) IN
         \E i \in DOMAIN F : LET x == FieldOf(v, F[i].path) IN IF x = <<>> THEN FALSE ELSE ~GLeftOut(F[i], x[1], o) /\ GFails(F[i].t, x[1], o, root)
    [] OTHER -> FALSE
GMembers(F, v, o, root) ==
  LET M[i \in 0..Len(F)] ==
        IF i = 0 THEN <<>>
        ELSE LET x == FieldOf(v, F[i].path) IN
             IF x = <<>> THEN M[i - 1]
             ELSE IF GLeftOut(F[i], x[1], o) THEN M[i - 1]
             ELSE Append(M[i - 1], [key |-> Sanitize(F[i].key), v |-> GEnc(F[i].t, x[1], o, F[i].raw, root)])
  IN M[Len(F)]
GEnc(t, v, o, raw, root) ==
  CASE t.k = "custom" -> IF EncKind(t) # "" THEN Enc(t, v, o, NoHint) ELSE GEnc(t.u, v.v, o, raw, root)
    [] t.k = "self" -> GEnc(root, v, o, FALSE, root)
    [] t.k = "slice" -> [k |-> "arr", a |-> IF v.k = "nil" THEN <<>> ELSE [i \in DOMAIN v.a |-> GEnc(t.e, v.a[i], o, raw, root)]]
    [] t.k = "map" -> [k |-> "map", m |-> IF v.k = "nil" THEN <<>> ELSE [i \in DOMAIN v.m |-> [key |-> Sanitize(KeyText(t.key, v.m[i].key)), v |-> GEnc(t.e, v.m[i].v, o, raw, root)]]]
    [] v.k = "nil" -> XNull
    [] t.k = "any" -> GEnc(v.t, v.v, o, FALSE, root)
    [] t.k = "ptr" -> GEnc(t.e, v.p, o, raw, root)
    [] t.k = "struct" -> [k |-> "obj", m |-> GMembers(GFields(t, o), v, o, root)]
    [] t.k = "bool" -> [k |-> "bool", b |-> v.b]
    [] t.k = "string" -> [k |-> "str", s |-> IF raw THEN Unesc(v.s) ELSE Sanitize(v.s), html |-> FALSE]
    [] t.k = "time" -> [k |-> "str", s |-> v.s, html |-> FALSE]
    [] t.k \in {"int", "uint", "dur"} -> [k |-> "num", bits |-> 0, n |-> v.n]
    [] t.k = "float" -> [k |-> "num", bits |-> t.bits, n |-> v.n]

\* ------------------------------------------------------------ times and durations
Digit(c) == c \in 48..57
DigitsAt(s, i, n) == \A j \in i..(i + n - 1) : j <= Len(s) /\ Digit(s[j])
TwoAt(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48
\* times in UTC, whole days only up to the 28th
ValidTime(s) ==
  /\ Len(s) >= 20 /\ DigitsAt(s, 1, 4) /\ s[5] = 45 /\ DigitsAt(s, 6, 2) /\ s[8] = 45 /\ DigitsAt(s, 9, 2) /\ s[11] = 84
  /\ DigitsAt(s, 12, 2) /\ s[14] = 58 /\ DigitsAt(s, 15, 2) /\ s[17] = 58 /\ DigitsAt(s, 18, 2) /\ s[Len(s)] = 90
  /\ TwoAt(s, 6) \in 1..12 /\ TwoAt(s, 9) \in 1..28 /\ TwoAt(s, 12) < 24 /\ TwoAt(s, 15) < 60 /\ TwoAt(s, 18) < 60
  /\ Len(s) = 20 \/ (s[20] = 46 /\ Len(s) \in 22..30 /\ DigitsAt(s, 21, Len(s) - 21))
\* a whole number of one unit
Units == <<[u |-> <<110, 115>>, z |-> 0, by |-> 1], [u |-> <<117, 115>>, z |-> 3, by |-> 1], [u |-> <<109, 115>>, z |-> 6, by |-> 1],
           [u |-> <<115>>, z |-> 9, by |-> 1], [u |-> <<109>>, z |-> 9, by |-> 60], [u |-> <<104>>, z |-> 9, by |-> 3600]>>
RECURSIVE DigitRun(_, _), ValueOf(_, _), TextOfNum(_)
DigitRun(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN 1 + DigitRun(s, i + 1) ELSE 0
ValueOf(s, n) == IF n = 0 THEN 0 ELSE 10 * ValueOf(s, n - 1) + s[n] - 48
TextOfNum(n) == IF n < 10 THEN <<48 + n>> ELSE TextOfNum(n \div 10) \o <<48 + (n % 10)>>
DurOf(s) ==                                              \* <<>> if it is not one
  LET neg == s # <<>> /\ s[1] = 45
      b == IF neg THEN Tail(s) ELSE s
      n == DigitRun(b, 1)
      I == {i \in DOMAIN Units : Units[i].u = SubSeq(b, n + 1, Len(b))}
  IN IF n = 0 \/ I = {} THEN <<>>
     ELSE LET u == Units[CHOOSE i \in I : TRUE]  x == ValueOf(b, n) * u.by IN
          IF x = 0 THEN <<48>> ELSE (IF neg THEN <<45>> ELSE <<>>) \o TextOfNum(x) \o [j \in 1..u.z |-> 48]

\* ------------------------------------------------------------ decoding
RECURSIVE GDec(_, _, _, _, _, _), GFold(_, _, _, _, _, _), GInto(_, _, _, _, _, _, _, _), GEls(_, _, _, _, _)
GDec(t, old, a, o, raw, root) ==
  CASE t.k = "custom" -> IF DecKind(t) # "" THEN Dec(t, old, a, o)
                         ELSE LET r == GDec(t.u, old.v, a, o, FALSE, root) IN IF r.e = "" THEN Done([k |-> "c", v |-> r.v]) ELSE r
    [] t.k = "self" -> GDec(root, old, a, o, FALSE, root)
    [] t.k = "any" -> Done(Dyn(a))
    [] t.k \in {"ptr", "slice", "map"} /\ a.k = "null" -> Done(Nil)
    [] t.k = "ptr" -> LET r == GDec(t.e, IF old.k = "nil" THEN GZero(IF t.e.k = "self" THEN root ELSE t.e) ELSE old.p, a, o, raw, root) IN
                      IF r.e = "" THEN Done([k |-> "p", p |-> r.v]) ELSE r
    [] t.k = "slice" -> IF a.k = "arr" THEN GEls(IF t.e.k = "self" THEN root ELSE t.e, a, o, root, <<>>) ELSE Stop("type")
    [] t.k = "map" -> IF a.k = "obj" THEN GFold(t, [k |-> "m", m |-> IF old.k = "nil" THEN <<>> ELSE old.m], a, o, 1, root) ELSE Stop("type")
    [] t.k = "struct" -> IF a.k = "obj" THEN GFold(t, old, a, o, 1, root) ELSE Stop("type")
    [] t.k = "bool" -> IF a.k = "bool" THEN Done([k |-> "b", b |-> a.b]) ELSE Stop("type")
    [] t.k = "string" -> IF a.k = "str" THEN Done(Str(IF raw THEN SubSeq(a.w, 2, Len(a.w) - 1) ELSE a.s)) ELSE Stop("type")
    [] t.k = "time" -> IF a.k = "str" /\ ValidTime(a.s) THEN Done(Str(a.s)) ELSE Stop("type")
    [] t.k = "dur" -> IF a.k = "num" THEN LET s == Nm!ToInt(a.n) IN IF FitInt(s, 64) THEN Done(Num(s)) ELSE Stop("type")
                      ELSE IF a.k = "str" /\ DurOf(a.s) # <<>> THEN Done(Num(DurOf(a.s))) ELSE Stop("type")
    [] t.k = "int" -> IF a.k # "num" THEN Stop("type") ELSE LET s == Nm!ToInt(a.n) IN IF FitInt(s, t.bits) THEN Done(Num(s)) ELSE Stop("type")
    [] t.k = "uint" -> IF a.k # "num" THEN Stop("type") ELSE LET s == Nm!ToUint(a.n) IN IF FitUint(s, t.bits) THEN Done(Num(s)) ELSE Stop("type")
    [] t.k = "float" -> IF a.k = "num" THEN Done(Num(IF t.bits = 32 THEN a.f32 ELSE a.f64)) ELSE Stop("type")
    [] OTHER -> Stop("type")
\* elements of a slice (what was in it before is written over)
GEls(e, a, o, root, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(a.a) THEN Done([k |-> "a", a |-> acc])
  ELSE LET r == GDec(e, GZero(e), a.a[i], o, FALSE, root) IN IF r.e # "" THEN r ELSE GEls(e, a, o, root, Append(acc, r.v))
GFold(t, acc, a, o, i, root) ==
  IF i > Len(a.m) THEN Done(acc)
  ELSE LET m == a.m[i] IN
  IF t.k = "map"
  THEN LET e == IF t.e.k = "self" THEN root ELSE t.e
           r == GDec(e, GZero(e), m.v, o, FALSE, root)
           text == t.key.k = "custom" /\ "text" \in Range(t.key.dec)
       IN IF r.e # "" THEN r
          ELSE IF text /\ Fails(m.key) THEN Stop("custom")
          ELSE GFold(t, [k |-> "m", m |-> PutKey(acc.m, IF text THEN TextIn(m.key) ELSE m.key, r.v)], a, o, i + 1, root)
  ELSE LET F == GFields(t, o)  I == {j \in DOMAIN F : F[j].key = m.key /\ Can(F[j].t)} IN
       IF I = {} THEN GFold(t, acc, a, o, i + 1, root)
       ELSE LET c == F[CHOOSE j \in I : TRUE]  r == GInto(t, acc, c.path, 1, m.v, o, c.raw, root) IN
            IF r.e # "" THEN r ELSE GFold(t, r.v, a, o, i + 1, root)
GInto(t, v, path, i, a, o, raw, root) ==
  IF t.k = "ptr"
  THEN LET r == GInto(t.e, IF v.k = "nil" THEN GZero(t.e) ELSE v.p, path, i, a, o, raw, root) IN
       IF r.e # "" THEN r ELSE Done([k |-> "p", p |-> r.v])
  ELSE LET j == path[i]
           r == IF i = Len(path) THEN GDec(t.f[j].t, v.f[j], a, o, raw, root) ELSE GInto(t.f[j].t, v.f[j], path, i + 1, a, o, raw, root)
       IN IF r.e # "" THEN r ELSE Done([v EXCEPT !.f[j] = r.v])

\* ------------------------------------------------------------ the methods
AppendJSON(t, v, o) == IF v.k = "nil" THEN XNull ELSE GEnc(t, v, o, FALSE, t)
UnmarshalNodeJSON(t, old, a, o) == IF a.k = "null" THEN Done(old) ELSE GDec(t, old, a, o, FALSE, t)
=============================================================================

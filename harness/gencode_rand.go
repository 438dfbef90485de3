package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// ggen makes types for the generator, with values and texts for them.
type ggen struct {
	r     *rand.Rand
	o     gopts
	names int
	root_ *tdesc
	bad   bool // one type the generator cannot handle
}

func (g *ggen) one(n int) bool                    { return g.r.Intn(n) == 0 }
func (g *ggen) pick(s ...string) string           { return s[g.r.Intn(len(s))] }
func (g *ggen) typeOf(ts ...func() *tdesc) *tdesc { return ts[g.r.Intn(len(ts))]() }

func randOpts(r *rand.Rand) gopts {
	g := &ggen{r: r}
	o := gopts{Tag: "json", Case: "none", Match: "all", On: []int{}, Append: true, Unmarshal: true, Omit: "Omit", AppendM: "AppendJSON", UnmarshM: "UnmarshalNodeJSON", How: "cmd"}
	if g.one(3) {
		o.Tag = g.pick("njson", "db")
	}
	o.Tagged, o.Exported, o.Empty = g.one(5), g.one(5), g.one(4)
	if g.one(2) {
		o.Case = g.pick("snake", "camel", "lower", "Camel")
	}
	if g.one(4) {
		o.Match = g.pick("prefix", "has")
		o.On = ints(g.pick("N", "a", "e", "I", "A", "user", "er"))
	}
	switch g.r.Intn(6) {
	case 0:
		o.Append = false
	case 1:
		o.Unmarshal = false
	case 2:
		o.Flags = "both"
	}
	if g.one(2) {
		o.How = g.pick("test", "lib", "file")
	}
	if o.How == "lib" || o.How == "file" {
		o.Omit = g.pick("Omit", "Skip", "Skip", "Other")
		o.AppendM = g.pick("AppendJSON", "AppendJSON", "EncodeTo", "MarshalJSON_")
		o.UnmarshM = g.pick("UnmarshalNodeJSON", "UnmarshalNodeJSON", "DecodeFrom")
	}
	return o
}

// letters writes a number in small letters (a digit would count as a word).
func letters(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		if n /= 26; n == 0 {
			return s
		}
	}
}

func (g *ggen) fresh(prefix string) string {
	g.names++
	return prefix + letters(g.names)
}

func yes(b bool) *bool { return &b }

func gstruct(fs ...fdesc) *tdesc {
	if fs == nil {
		fs = []fdesc{}
	}
	return &tdesc{K: "struct", Ext: yes(false), F: &fs}
}

func named(d *tdesc, lib string) *tdesc {
	x := *d
	x.Lib = lib
	return &x
}

func gfield(name string, t *tdesc, tags ...ftag) fdesc {
	if tags == nil {
		tags = []ftag{}
	}
	return fdesc{Name: ints(name), Exp: name[0] >= 'A' && name[0] <= 'Z', Tags: tags, T: t}
}

var (
	gString = &tdesc{K: "string"}
	gLabel  = named(gString, "lib.Label")
	gCount  = &tdesc{K: "uint", Bits: 8, Lib: "lib.Count"}
)

// the struct types of go-lib
func gInner() *tdesc {
	inner := &tdesc{K: "struct", Ext: yes(true), Lib: "lib.Inner"}
	inner.F = &[]fdesc{gfield("Dd", gString, ftag{"json", ints("d")}), gfield("ee", &tdesc{K: "ptr", E: gString}),
		gfield("Gaps", &tdesc{K: "map", Key: gLabel, E: &tdesc{K: "int", Bits: 8}}),
		gfield("For", &tdesc{K: "dur"}), gfield("At", &tdesc{K: "ptr", E: &tdesc{K: "time"}})}
	return inner
}

func gExt() *tdesc {
	d := &tdesc{K: "struct", Ext: yes(true), Lib: "lib.Ext"}
	d.F = &[]fdesc{gfield("Aa", &tdesc{K: "int", Bits: 64, Lib: "int"}), gfield("bb", gString),
		gfield("Cc", &tdesc{K: "slice", E: gLabel}, ftag{"json", ints("cc,omitempty")}, ftag{"db", ints("c")}), gfield("Sub", gInner())}
	return d
}

func (g *ggen) custom(cond func(c gcustom) bool) *tdesc {
	for {
		c := gcustoms[g.r.Intn(len(gcustoms))]
		if cond != nil && !cond(c) {
			continue
		}
		if g.one(4) {
			return c.desc("lib.L" + c.name)
		}
		return c.desc("C" + c.name)
	}
}

func (g *ggen) basic() *tdesc {
	switch g.r.Intn(12) {
	case 0, 1:
		return &tdesc{K: "bool"}
	case 2, 3, 4:
		return gString
	case 5:
		return &tdesc{K: "int", Bits: 64, Lib: "int"}
	case 6:
		return &tdesc{K: "uint", Bits: 64, Lib: g.pick("uint", "uintptr")}
	case 7, 8:
		return &tdesc{K: "int", Bits: 8 << g.r.Intn(4)}
	case 9:
		return &tdesc{K: "uint", Bits: 8 << g.r.Intn(4)}
	default:
		return &tdesc{K: "float", Bits: 32 << g.r.Intn(2)}
	}
}

func (g *ggen) scalar() *tdesc {
	switch g.r.Intn(14) {
	case 0:
		return &tdesc{K: "any"}
	case 1:
		return &tdesc{K: "time"}
	case 2:
		return &tdesc{K: "dur"}
	case 3, 4, 5:
		return g.custom(nil)
	case 6:
		if g.one(2) {
			return gLabel
		}
		return gCount
	case 7:
		d := *g.basic()
		d.Name = g.fresh("Basic")
		return &d
	}
	return g.basic()
}

func (g *ggen) key() *tdesc {
	switch g.r.Intn(8) {
	case 0:
		return gLabel
	case 1:
		return named(&tdesc{K: "string", Name: g.fresh("Key")}, "")
	case 2, 3:
		return g.custom(func(c gcustom) bool { return c.name == "Stv" || c.name == "Rtv" })
	}
	return gString
}

func (g *ggen) inside(deep int) *tdesc {
	if g.one(9) {
		return &tdesc{K: "self"}
	}
	return g.typ(deep - 1)
}

var gbads = []string{"chan int", "func()", "[2]string", "complex128", "error"}

func (g *ggen) typ(deep int) *tdesc {
	if g.bad && g.one(6) {
		g.bad = false
		return &tdesc{K: "bad", Lib: g.pick(gbads...)}
	}
	if deep <= 0 {
		return g.scalar()
	}
	switch g.r.Intn(12) {
	case 0, 1:
		return &tdesc{K: "ptr", E: g.inside(deep)}
	case 2, 3:
		d := &tdesc{K: "slice", E: g.inside(deep)}
		if g.one(5) {
			d.Name = g.fresh("List")
		}
		return d
	case 4, 5:
		d := &tdesc{K: "map", Key: g.key(), E: g.inside(deep)}
		if g.one(5) {
			d.Name = g.fresh("Dict")
		}
		return d
	case 6:
		switch g.r.Intn(4) {
		case 0:
			return gExt()
		case 1:
			return gInner()
		case 2:
			return &tdesc{K: "slice", Lib: "lib.List", E: gCount}
		default:
			return &tdesc{K: "map", Lib: "lib.Names", Key: gString, E: &tdesc{K: "slice", E: gString}}
		}
	case 7, 8:
		d := g.structType(deep-1, 1+g.r.Intn(3))
		if g.one(2) {
			d.Name = g.fresh(g.pick("Sub", "sub"))
		}
		return d
	}
	return g.scalar()
}

var gwords = []string{"Name", "UserName", "Id", "Age", "ItemCount", "Tags", "Data", "Ref", "Link", "Kind", "Alpha", "Beta"}

func (g *ggen) tags(t *tdesc, must bool) []ftag {
	tags := []ftag{}
	keys := []string{"json", "njson", "db", "xml"}
	g.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		if !(must && k == g.o.Tag) && !(k == g.o.Tag && g.one(2)) && !g.one(6) {
			continue
		}
		name := ""
		switch g.r.Intn(10) {
		case 0:
			if !must {
				name = "-"
			}
		case 1, 2:
			name = g.pick(`q"t`, `b\s`, "<x>", "é", "sp ace", "%d", "a.b", "ключ", "\u2028", "'`")
		case 3:
			name = gwords[g.r.Intn(len(gwords))]
		case 4, 5, 6:
			name = strings.ToLower(gwords[g.r.Intn(len(gwords))])
		}
		if must && name == "" {
			name = "emb"
		}
		val := name
		for g.one(3) {
			val += "," + g.pick("omitempty", "omitempty", "string", "x")
		}
		if t.K == "string" && g.one(6) && name != "-" {
			val += ",raw"
		}
		tags = append(tags, ftag{k, ints(val)})
	}
	return tags
}

func (g *ggen) structType(deep, n int) *tdesc {
	d := gstruct()
	used := map[string]bool{}
	for len(*d.F) < n {
		if g.one(7) {
			if f, ok := g.embedded(deep); ok && !used[fromInts(f.Name)] {
				used[fromInts(f.Name)] = true
				*d.F = append(*d.F, f)
				continue
			}
		}
		name := gwords[g.r.Intn(len(gwords))]
		if g.one(5) {
			name = strings.ToLower(name[:1]) + name[1:]
		}
		if g.one(40) {
			name = "_"
		}
		if used[name] {
			continue
		}
		used[name] = name != "_"
		t := g.typ(deep)
		*d.F = append(*d.F, gfield(name, t, g.tags(t, false)...))
	}
	return d
}

func (g *ggen) embedded(deep int) (fdesc, bool) {
	if g.one(5) { // no struct
		t := *g.basic()
		t.Name = g.fresh(g.pick("Num", "num"))
		f := gfield(t.Name, &t, g.tags(&t, false)...)
		f.Emb = true
		return f, true
	}
	var t *tdesc
	name := ""
	if g.one(4) {
		t, name = gExt(), "Ext"
	} else {
		if deep <= 0 {
			deep = 1
		}
		t = g.structType(deep-1, 1+g.r.Intn(3))
		t.Name = g.fresh(g.pick("Emb", "emb"))
		name = t.Name
	}
	f := gfield(name, t)
	f.Emb = true
	if g.one(3) {
		f.T = &tdesc{K: "ptr", E: t}
	}
	direct := 0
	for _, x := range *t.F {
		if !x.Emb && fromInts(x.Name) != "_" {
			direct++
		}
	}
	if direct == 0 {
		return f, false
	}
	if g.one(4) {
		f.Tags = g.tags(t, true)
	}
	return f, true
}

// ---- values
func (g *ggen) text(valid bool) string {
	s := g.pick("", "a", "b", "hello", "é", "\"", "\\", "</x>&", "\n\t", "\x00\x1f", "\u2028", "😀", "~a", "!", "a!", "0", "null", `{"a":1}`)
	if !valid && g.one(12) {
		s = g.pick("\xff", "a\x80b", "\xe2\x82", "\xed\xa0\x80")
	}
	return s
}

func (g *ggen) intText(bits int, signed bool) string {
	if signed {
		return g.pick("0", "1", "-1", "77", "-100", strconv.FormatInt(1<<(bits-1)-1, 10), strconv.FormatInt(-1<<(bits-1), 10), strconv.Itoa(g.r.Intn(127)))
	}
	return g.pick("0", "1", "77", "200", strconv.FormatUint(1<<bits-1, 10), strconv.FormatUint(1<<(bits-1), 10), strconv.Itoa(g.r.Intn(255)))
}

func (g *ggen) float() float64 {
	return []float64{0, 1, -1, 1.5, -0.25, 100, 65536, 0.125, -7.75, 1e6, 1e21, 1e-7, 3e20}[g.r.Intn(13)]
}

func (g *ggen) timeText() string {
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1+g.r.Intn(9999), 1+g.r.Intn(12), 1+g.r.Intn(28), g.r.Intn(24), g.r.Intn(60), g.r.Intn(60))
	if g.one(2) {
		f := strings.TrimRight(fmt.Sprintf("%09d", g.r.Intn(1000000000)), "0")
		if g.one(2) {
			f = g.pick("1", "5", "000000001", "999999999", "25")
		}
		if f != "" {
			s += "." + f
		}
	}
	return s + "Z"
}

func gcustomValue(t *tdesc, s string) mss {
	x := mss{"k": "s", "s": ints(s)}
	if t.U.K == "struct" {
		x = mss{"k": "f", "f": []mss{x}}
	}
	v := mss{"k": "c", "v": x, "j": mss{"k": "none"}}
	if j, _ := parseTree(orNull(s), false, true); j != nil {
		v["j"] = j
	}
	return v
}

// old values have no slices with elements that keep what they hold
func (g *ggen) value(t *tdesc, deep int, raw, old bool) mss {
	if deep < 0 && g.one(2) && (t.K == "ptr" || t.K == "slice" || t.K == "map" || t.K == "any") {
		return mss{"k": "nil"}
	}
	switch t.K {
	case "custom":
		s := g.text(true)
		if k := encKind(t); k == "append" || k == "json" {
			s = g.pick("", "0", "1", `[1,"x"]`, `{"a":null}`, `"s"`, `"é"`, "-1.5", "true")
			if g.one(25) {
				s = "!"
			}
		} else if g.one(5) || (k != "" && strings.Contains(s, "!") && !g.one(8)) {
			s = "0"
		}
		return gcustomValue(t, s)
	case "self":
		return g.value(g.root_, deep-1, false, old)
	case "bad":
		return mss{"k": "nil"}
	case "bool":
		return mss{"k": "b", "b": g.one(2)}
	case "string":
		s := g.text(old)
		if raw {
			s = g.pick("", "a", `a\nb`, "é", `\u0041`, `\"`, `\\`, "x/y", `\u2028`, `\ud83d\ude00`)
		}
		return mss{"k": "s", "s": ints(s)}
	case "int":
		return mss{"k": "n", "n": ints(g.intText(t.Bits, true))}
	case "uint":
		return mss{"k": "n", "n": ints(g.intText(t.Bits, false))}
	case "float":
		return mss{"k": "n", "n": ints(floatText(g.float(), t.Bits))}
	case "time":
		return mss{"k": "s", "s": ints(g.pick(g.timeText(), "0001-01-01T00:00:00Z"))}
	case "dur":
		return mss{"k": "n", "n": ints(g.pick("0", "1", "-1", "5000000000", "-60000000000", "9223372036854775807"))}
	case "any":
		return g.anyValue(2)
	case "ptr":
		if g.one(4) || deep < -2 {
			return mss{"k": "nil"}
		}
		return mss{"k": "p", "p": g.value(t.E, deep-1, raw, old)}
	case "slice":
		if g.one(5) || deep < -2 {
			return mss{"k": "nil"}
		}
		a := []mss{}
		if !old || keepsNothing(t.E) {
			for n := g.r.Intn(4); len(a) < n; {
				a = append(a, g.value(t.E, deep-1, raw, old))
			}
		}
		return mss{"k": "a", "a": a}
	case "map":
		if g.one(5) || deep < -2 {
			return mss{"k": "nil"}
		}
		keys := map[string]bool{}
		for n := g.r.Intn(3); len(keys) < n; {
			if s := g.text(true); !strings.Contains(s, "!") || g.one(8) {
				keys[s] = true
			}
		}
		ks := []string{}
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		m := []mss{}
		for _, k := range ks {
			m = append(m, mss{"key": ints(k), "v": g.value(t.E, deep-1, raw, old)})
		}
		return mss{"k": "m", "m": m}
	case "struct":
		fs := []mss{}
		for _, f := range *t.F {
			raw := false
			for _, x := range f.Tags {
				raw = raw || (x.Key == g.o.Tag && strings.HasSuffix(fromInts(x.Val), ",raw"))
			}
			fs = append(fs, g.value(f.T, deep-1, raw, old))
		}
		return mss{"k": "f", "f": fs}
	}
	panic("value of " + t.K)
}

func keepsNothing(t *tdesc) bool {
	switch t.K {
	case "bool", "string", "int", "uint", "float", "time", "dur", "any":
		return true
	}
	return t.K == "custom" && len(*t.Dec) > 0
}

func (g *ggen) anyValue(deep int) mss {
	of := func(t, v mss) mss { return mss{"k": "any", "t": t, "v": v} }
	any := mss{"k": "any"}
	switch g.r.Intn(6) {
	case 0:
		return mss{"k": "nil"}
	case 1:
		return of(mss{"k": "bool"}, mss{"k": "b", "b": g.one(2)})
	case 2:
		return of(mss{"k": "float", "bits": 64}, mss{"k": "n", "n": ints(floatText(g.float(), 64))})
	case 3:
		if deep > 0 {
			a := []mss{}
			for n := g.r.Intn(3); len(a) < n; {
				a = append(a, g.anyValue(deep-1))
			}
			return of(mss{"k": "slice", "e": any}, mss{"k": "a", "a": a})
		}
	case 4:
		if deep > 0 {
			m := []mss{}
			for _, k := range []string{"", "a", "é\n"} {
				if g.one(2) {
					m = append(m, mss{"key": ints(k), "v": g.anyValue(deep - 1)})
				}
			}
			return of(mss{"k": "map", "key": mss{"k": "string"}, "e": any}, mss{"k": "m", "m": m})
		}
	}
	return of(mss{"k": "string"}, mss{"k": "s", "s": ints(g.text(true))})
}

// ---- texts
func (g *ggen) quote(b *strings.Builder, s string) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\' || c < ' ':
			fmt.Fprintf(b, `\u%04x`, c)
		case c < 0x10000 && g.one(10):
			fmt.Fprintf(b, `\u%04X`, c)
		case c == '/' && g.one(2):
			b.WriteString(`\/`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func (g *ggen) space(b *strings.Builder) {
	if g.one(12) {
		b.WriteString(g.pick(" ", "\n", "\t ", "\r"))
	}
}

func (g *ggen) anyText(b *strings.Builder, deep int) {
	switch k := g.r.Intn(8); {
	case k < 5 || deep <= 0:
		if k == 4 {
			g.quote(b, g.text(true))
			return
		}
		b.WriteString(g.pick("null", "true", "false", "0", "1", "-1.5", "1e2", `"x"`, `"~a"`, `""`, "[]", "{}"))
	case k < 7:
		b.WriteByte('[')
		for n, i := g.r.Intn(3), 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			g.anyText(b, deep-1)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('{')
		for n, i := g.r.Intn(3), 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			g.quote(b, g.pick("a", "b", "é", "!"))
			b.WriteByte(':')
			g.anyText(b, deep-1)
		}
		b.WriteByte('}')
	}
}

// json writes a text for a type.
func (g *ggen) json(b *strings.Builder, t *tdesc, deep int) {
	g.space(b)
	defer g.space(b)
	if t.K == "self" {
		t = g.root_
	}
	switch n := 10; {
	case (t.K == "ptr" || t.K == "slice" || t.K == "map") && g.one(n):
		b.WriteString("null")
		return
	case g.one(60):
		b.WriteString("null")
		return
	case g.one(80):
		g.anyText(b, 2)
		return
	}
	switch t.K {
	case "bool":
		b.WriteString(g.pick("true", "false"))
	case "string":
		g.quote(b, g.text(true))
	case "int", "uint", "float":
		bits, signed := t.Bits, t.K == "int" || g.one(30)
		if g.one(30) {
			bits = 8 << g.r.Intn(4)
		}
		switch {
		case t.K == "float":
			b.WriteString(g.pick("0", "1", "-1", "1.5", "-0.25", "100", "1e2", "-0", "2.5E1", "65536"))
		case g.one(30):
			b.WriteString(g.pick("1.0", "1e1", "1.5", "-0", "300e-1", "0.1"))
		default:
			b.WriteString(g.intText(bits, signed))
		}
	case "time":
		s := g.timeText()
		if g.one(20) {
			s = g.pick("", "x", "2020-01-01", "2020-13-01T00:00:00Z", "2020-01-01T24:00:00Z", "0001-01-01T00:00:00")
		}
		g.quote(b, s)
	case "dur":
		switch {
		case g.one(2):
			b.WriteString(g.pick("0", "1", "-5", "1000000000", "1e3"))
		case g.one(10):
			g.quote(b, g.pick("", "5", "x", "5 s", "s", "--5s"))
		default:
			g.quote(b, g.pick("", "-")+strconv.Itoa(g.r.Intn(10000))+g.pick("ns", "us", "ms", "s", "m", "h"))
		}
	case "any":
		g.anyText(b, 2)
	case "custom":
		switch k := decKind(t); {
		case k == "":
			g.json(b, t.U, deep)
		case k == "text":
			s := g.text(true)
			if strings.Contains(s, "!") && !g.one(8) {
				s = "~b"
			}
			g.quote(b, s)
		default:
			s := g.pick("0", "1", `[1,"x"]`, `{"a":null}`, `["s"]`, `"s"`, "[0]", "true", "[]")
			if g.one(30) {
				s = `["!"]`
			}
			b.WriteString(s)
		}
	case "ptr":
		g.json(b, t.E, deep)
	case "slice":
		b.WriteByte('[')
		n := g.r.Intn(4)
		if deep < 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			g.json(b, t.E, deep-1)
		}
		b.WriteByte(']')
	case "map":
		b.WriteByte('{')
		n := g.r.Intn(4)
		if deep < 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			g.space(b)
			k := g.text(true)
			if strings.Contains(k, "!") && !g.one(8) {
				k = "~k"
			}
			g.quote(b, k)
			b.WriteByte(':')
			g.json(b, t.E, deep-1)
		}
		b.WriteByte('}')
	case "struct":
		g.object(b, t, deep)
	default:
		g.anyText(b, 1)
	}
}

type gkey struct {
	key string
	t   *tdesc
}

// keys guesses the names the fields of a type have.
func (g *ggen) keys(t *tdesc, all *[]gkey) {
	for _, f := range *t.F {
		tagged := false
		name := fromInts(f.Name)
		keys := []string{name, strings.ToLower(name)}
		low := strings.ToLower(name[:1]) + name[1:]
		snake := ""
		for i, c := range name {
			if c >= 'A' && c <= 'Z' && i > 0 {
				snake += "_"
			}
			snake += string(c)
		}
		switch g.o.Case {
		case "none":
			keys = keys[:1]
		case "lower":
			keys = keys[1:]
		case "camel":
			keys = []string{low}
		case "Camel":
			keys = []string{strings.ToUpper(name[:1]) + name[1:]}
		case "snake":
			keys = []string{strings.ToLower(snake)}
		}
		for _, x := range f.Tags {
			if x.Key == g.o.Tag {
				tagged = true
				if s := strings.Split(fromInts(x.Val), ",")[0]; s != "" {
					keys = []string{s}
				}
			}
		}
		if e := f.T; f.Emb && !tagged && (e.K == "struct" || (e.K == "ptr" && e.E.K == "struct")) {
			if e.K == "ptr" {
				e = e.E
			}
			g.keys(e, all)
			continue
		}
		*all = append(*all, gkey{keys[0], f.T})
	}
}

func (g *ggen) object(b *strings.Builder, t *tdesc, deep int) {
	all, list := []gkey{}, []gkey{}
	g.keys(t, &all)
	for _, k := range all {
		if !g.one(4) && (deep >= -1 || g.one(3)) {
			list = append(list, k)
			if g.one(15) && !gholds(k.t) {
				list = append(list, k)
			}
		}
	}
	for g.one(4) {
		list = append(list, gkey{g.pick("", "zz", "Name", "name", "-", "_", "user_name", "S", "ID", "a"), nil})
	}
	g.r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	dup := map[string]bool{}
	b.WriteByte('{')
	n := 0
	for _, k := range list {
		if k.t == nil { // may be a field after all
			for _, a := range all {
				if a.key == k.key {
					k.t = a.t
				}
			}
		}
		// two of a key only if the first leaves nothing behind
		if dup[k.key] && (k.t == nil || gholds(k.t)) {
			continue
		}
		dup[k.key] = true
		if n++; n > 1 {
			b.WriteByte(',')
		}
		g.space(b)
		g.quote(b, k.key)
		g.space(b)
		b.WriteByte(':')
		if k.t == nil {
			g.anyText(b, 2)
		} else {
			g.json(b, k.t, deep-1)
		}
	}
	b.WriteByte('}')
}

// gholds: there may be slices in it whose elements are decoded into
func gholds(t *tdesc) bool {
	switch t.K {
	case "slice":
		return !keepsNothing(t.E)
	case "ptr", "map":
		return gholds(t.E)
	case "struct":
		for _, f := range *t.F {
			if gholds(f.T) {
				return true
			}
		}
		return false
	}
	return t.K == "self"
}

func decKind(d *tdesc) string {
	for _, k := range []string{"node", "json", "text"} {
		if has(d.Dec, k) {
			return k
		}
	}
	return ""
}

// ---- roots
func (g *ggen) root(i int) *gtype {
	t := g.structType(3, 1+g.r.Intn(6))
	g.root_ = t
	x := &gtype{Name: g.pick("T", "T", "T", "t", "_T", "É") + strconv.Itoa(i), T: t, O: g.o}
	if g.o.Append {
		if g.one(3) {
			x.Cases = append(x.Cases, mss{"op": "enc", "v": mss{"k": "nil"}})
		}
		for n := 0; n < 5; n++ {
			x.Cases = append(x.Cases, mss{"op": "enc", "v": g.value(t, 4, false, false)})
		}
	}
	if g.o.Unmarshal {
		for n := 0; n < 6; n++ {
			var b strings.Builder
			g.json(&b, t, 5)
			a, _ := parseTree(b.String(), false, true)
			if a == nil {
				panic("no JSON: " + b.String())
			}
			x.Cases = append(x.Cases, mss{"op": "dec", "old": g.value(t, 4, false, true), "text": ints(b.String()), "a": a})
		}
	}
	return x
}

// rename gives the embedded types of an enumerated type names of their own.
func (d *tdesc) rename(i int, n *int) {
	if d == nil || (d.Lib != "" && d.Name == "") {
		return
	}
	d.E.rename(i, n)
	if d.F != nil {
		for j := range *d.F {
			f := &(*d.F)[j]
			f.T.rename(i, n)
			if t := f.T; f.Emb {
				if t.K == "ptr" {
					t = t.E
				}
				if t.Lib == "" {
					*n++
					t.Name = fromInts(f.Name) + letters(i) + "x" + letters(*n)
					f.Name = ints(t.Name)
				}
			}
		}
	}
}

// fix restores the cases of a type that was read.
func (t *gtype) fix() {
	for i, c := range t.Cases {
		x := mss{"op": c["op"]}
		if c["op"] == "enc" {
			x["v"] = c["v"]
		} else {
			x["old"], x["text"] = c["old"], c["text"]
			x["a"], _ = parseTree(bytesOf(c["text"]), false, true)
		}
		t.Cases[i] = x
	}
}

func (t *gtype) clone() *gtype {
	b, err := json.Marshal(t)
	must(err)
	x := new(gtype)
	must(json.Unmarshal(b, x))
	return x
}

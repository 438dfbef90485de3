package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	areas["codec"] = runCodec
	areas["codec-tests"] = runCodecTests
	areas["codec-export"] = runCodecExport
	areas["codec-raw"] = runCodecRaw
	areas["codec-rerun"] = runCodecRaw
}

type copts struct {
	Tag   string `json:"tag"`
	Empty bool   `json:"empty"`
	Omit  string `json:"omit"`
	NaN   bool   `json:"nan"`
	Inf   bool   `json:"inf"`
}

func (o copts) options() unjson.Options {
	u := unjson.Options{Tag: o.Tag, OmitEmpty: o.Empty, OmitMethod: o.Omit, AllowNaN: o.NaN, AllowInf: o.Inf}
	return u
}

func (o copts) isDefault() bool { return o == copts{Tag: "json", Omit: "Omit"} }

// codecCase is one thing to do: encode v, decode text into old, or both in a row.
type codecCase struct {
	Op   string                 `json:"op"` // enc, dec, round
	T    interface{}            `json:"t"`
	V    map[string]interface{} `json:"v,omitempty"`   // enc, round
	Old  map[string]interface{} `json:"old,omitempty"` // dec
	Text []int                  `json:"text,omitempty"`
	O    copts                  `json:"o"`
	Cust bool                   `json:"cust"`
}

// codecs shared by all workers: what was done before must not matter
var (
	cacheMu sync.Mutex
	caches  = map[copts]*unjson.Cache{}
)

func cacheFor(o copts) *unjson.Cache {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	c := caches[o]
	if c == nil {
		c = &unjson.Cache{Options: o.options()}
		caches[o] = c
	}
	return c
}

type codecRun struct {
	c   *ctx
	log *ndjson
}

func codecProps(op string, cust bool) []string {
	ps := map[string][]string{"enc": {"C15"}, "dec": {"C16"}, "round": {"C17"}}[op]
	if cust {
		ps = append([]string{"C18"}, ps...)
	}
	return ps
}

func valueOf(d interface{}, x map[string]interface{}) reflect.Value {
	v := reflect.New(build(undesc(d)))
	if x != nil {
		fill(v.Elem(), x)
	}
	return v
}

// run executes a case on the real code and logs what it did.
func (cr *codecRun) run(cc *codecCase, r *rand.Rand) {
	rec := map[string]interface{}{"op": cc.Op, "t": cc.T, "o": cc.O, "cust": cc.Cust}
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	msg := try(func() {
		switch cc.Op {
		case "enc":
			rec["v"] = cc.V
			v := valueOf(cc.T, cc.V)
			out, err := cr.encode(v, cc, r, fail)
			rec["err"] = errKind(err)
			t, _ := parseTree(string(out), true, cc.Cust)
			if t == nil {
				t = tree{"k": "invalid"}
			}
			rec["out"], rec["text"] = t, ints(string(out))
			if err != nil {
				rec["out"] = tree{"k": "none"}
			}
		case "dec":
			text := fromInts(cc.Text)
			a, lenient := parseTree(text, false, cc.Cust)
			if lenient {
				return
			}
			if a == nil {
				a = tree{"k": "bad"}
			}
			rec["old"], rec["a"], rec["text"] = cc.Old, a, cc.Text
			v, err := cr.decode(cc.T, cc.Old, text, a["k"] == "bad", cc.O, r, fail)
			rec["err"] = errKind(err)
			rec["new"] = mss{"k": "none"}
			if err == nil {
				rec["new"] = dump(v.Elem(), depth(plain(a))+2)
			}
		case "round":
			rec["v"] = cc.V
			v := valueOf(cc.T, cc.V)
			out, err := cr.encode(v, cc, r, fail)
			rec["text"], rec["new"] = ints(string(out)), mss{"k": "none"}
			if err == nil {
				v, err = cr.decode(cc.T, nil, string(out), false, cc.O, r, fail)
				if err == nil {
					rec["new"] = dump(v.Elem(), 4)
				}
			}
			rec["err"] = errKind(err)
		}
	})
	props := codecProps(cc.Op, cc.Cust)
	if msg == "" {
		msg = bad
	}
	if strings.HasPrefix(msg, "Cache") || strings.Contains(msg, "again") {
		props = append(props, "C17")
	}
	if msg != "" {
		cr.c.fail(msg, cc, props...)
		return
	}
	if rec["err"] != nil {
		cr.log.put(rec)
		cr.c.add(cc.Op, 1)
	}
}

// encode runs every way of encoding a value with some options.
func (cr *codecRun) encode(p reflect.Value, cc *codecCase, r *rand.Rand, fail func(string, ...interface{})) (out []byte, err error) {
	v := p.Elem()
	before := show(dump(v, 4))
	o := cc.O.options()
	same := func(what string, pre int, prefix string, b []byte, e error, first bool) {
		if len(b) < pre || string(b[:pre]) != prefix {
			fail("%s: the buffer held %q and comes back as %q", what, prefix, b)
			return
		}
		b = b[pre:]
		if first {
			out, err = append([]byte(nil), b...), e
			return
		}
		if errKind(e) != errKind(err) {
			// a map with several failing entries may report any of them
			if (e == nil) != (err == nil) {
				fail("%s: error %v, but otherwise %v", what, e, err)
			}
			return
		}
		if e == nil && !bytes.Equal(b, out) {
			x, _ := parseTree(string(b), true, false)
			y, _ := parseTree(string(out), true, false)
			if x == nil || y == nil || show(sorted(x)) != show(sorted(y)) {
				fail("%s: %q, but otherwise %q", what, b, out)
			}
		}
	}
	buf := func() ([]byte, string) {
		switch r.Intn(4) {
		case 0:
			return nil, ""
		case 1:
			return make([]byte, 0, r.Intn(64)), ""
		default:
			b := make([]byte, 3, 3+r.Intn(40))
			copy(b, "{[\"")
			return b, "{[\""
		}
	}
	boxed := reflect.New(v.Type())
	boxed.Elem().Set(v)
	x := boxed.Elem().Interface() // a copy, not addressable
	typ := v.Type()
	if v.Kind() == reflect.Ptr || r.Intn(2) == 0 {
		typ = reflect.PtrTo(typ)
	}
	enc, e := unjson.NewTypeEncoder(typ, o)
	b, s := buf()
	if e != nil {
		same("NewTypeEncoder", len(s), s, b, e, true)
	} else {
		b, e = enc.Encode(b, p.Interface())
		same("Encode(&x)", len(s), s, b, e, true)
		if v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface {
			b, s = buf()
			b, e = enc.Encode(b, x)
			same("Encode(x)", len(s), s, b, e, false)
		}
		b, s = buf()
		b, e = enc.Encode(b, p.Interface())
		same("Encode(&x) again", len(s), s, b, e, false)
	}
	if v.Kind() == reflect.Ptr {
		b, s = buf()
		if enc, e = unjson.NewTypeEncoder(v.Type(), o); e == nil {
			b, e = enc.Encode(b, x)
		}
		same("Encode(pointer)", len(s), s, b, e, false)
	}
	b, s = buf()
	if enc, e = cacheFor(cc.O).Encoder(reflect.PtrTo(v.Type())); e == nil {
		b, e = enc.Encode(b, p.Interface())
	}
	same("Cache", len(s), s, b, e, false)
	if v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface {
		b, s = buf()
		if enc, e = cacheFor(cc.O).Encoder(v.Type()); e == nil {
			b, e = enc.Encode(b, x)
		}
		same("Cache by value", len(s), s, b, e, false)
	}
	if cc.O.isDefault() {
		b, s = buf()
		b, e = unjson.AppendJSON(b, p.Interface())
		same("AppendJSON", len(s), s, b, e, false)
		b, e = unjson.Marshal(p.Interface())
		same("Marshal(&x)", 0, "", b, e, false)
		b, e = unjson.Marshal(x)
		same("Marshal(x)", 0, "", b, e, false)
	}
	if after := show(dump(v, 4)); after != before {
		fail("encoding changed the value from %s to %s", before, after)
	}
	return
}

// decode runs every way of decoding a text into copies of a value.
func (cr *codecRun) decode(t interface{}, old map[string]interface{}, text string, broken bool, o copts, r *rand.Rand, fail func(string, ...interface{})) (v reflect.Value, err error) {
	fresh := func() reflect.Value { return valueOf(t, old) }
	v = fresh()
	typ := v.Type()
	tag := o.Tag
	if tag == "json" && r.Intn(2) == 0 {
		tag = ""
	}
	first := true
	ref := ""
	same := func(what string, w reflect.Value, e error) {
		got := ""
		if e == nil {
			got = show(dump(w.Elem(), 4))
		}
		if first {
			first, v, err, ref = false, w, e, got
			return
		}
		if errKind(e) != errKind(err) || got != ref {
			fail("%s: %s %v, but otherwise %s %v", what, got, e, ref, err)
		}
	}
	if !broken {
		var d njson.Document
		n, tail, e := d.Parse(text)
		if e != nil || strings.TrimLeft(tail, " \t\r\n") != "" {
			// not what is tested here
			return v, fmt.Errorf("parse %v", e)
		}
		before, _ := n.AppendJSON(nil)
		dec, e := unjson.NewTypeDecoder(typ, tag)
		if e == nil {
			e = dec.Decode(v.Interface(), n)
		}
		same("Decode", v, e)
		if dec != nil && e == nil {
			w := fresh()
			same("Decode again", w, dec.Decode(w.Interface(), n))
		}
		w := fresh()
		if dec, e = cacheFor(o).Decoder(typ); e == nil {
			e = dec.Decode(w.Interface(), n)
		}
		same("Cache", w, e)
		if after, _ := n.AppendJSON(nil); !bytes.Equal(before, after) {
			fail("decoding changed the document from %s to %s", before, after)
		}
	}
	if o.Tag == "json" {
		if broken {
			w := fresh()
			same("Unmarshal", w, unjson.Unmarshal([]byte(text), w.Interface()))
		}
		w := fresh()
		data := []byte(text)
		e := unjson.Unmarshal(data, w.Interface())
		for i := range data {
			data[i] = '#'
		}
		same("Unmarshal", w, e)
		w = fresh()
		same("UnmarshalFromString", w, unjson.UnmarshalFromString(text, w.Interface()))
	} else if broken {
		return v, io.ErrUnexpectedEOF // there is nothing to decode
	}
	return
}

// ---------------------------------------------------------------- generators
type cgen struct {
	r    *rand.Rand
	cust bool
	tag  string
	nl   bool // custom JSON with line feeds
}

func (g *cgen) one(n int) bool { return g.r.Intn(n) == 0 }

var keyPool = []string{"a", "b", "A", "C", "B.c", "k-1", "é", "<k&>", "q\"x", "b\\n", "nl\n", "日本", "k0123456789012345678901234567890123456789", "S", "x y", "\u2028", "/"}

func (g *cgen) lib(cond func(d *tdesc) bool) reflect.Type {
	for {
		l := libs[libNames[g.r.Intn(len(libNames))]]
		if cond(l.custom) {
			return l.typ
		}
	}
}

func methods(d *tdesc) bool { return len(*d.Enc) > 0 || len(*d.Dec) > 0 }

func has(l *[]string, s string) bool {
	for _, x := range *l {
		if x == s {
			return true
		}
	}
	return false
}

func encKind(d *tdesc) string {
	for _, k := range []string{"append", "json", "text"} {
		if has(d.Enc, k) {
			return k
		}
	}
	return ""
}

var plainNames = []string{"NBool", "NStr", "NInt", "NUint", "NFloat", "NAny", "NSlice", "NMap", "NArr"}
var recNames = []string{"RList", "RTree", "RSlice", "RMap", "RSelf", "RA", "RB", "SU", "SD", "SP", "SU", "SD", "SP"}

func (g *cgen) scalarType() reflect.Type {
	types := []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
		reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), typAny, typAny}
	return types[g.r.Intn(len(types))]
}

func (g *cgen) typ(deep int) reflect.Type {
	switch {
	case g.cust && g.one(3):
		return g.lib(methods)
	case !g.cust && g.one(14):
		return g.lib(func(d *tdesc) bool { return !methods(d) })
	case g.one(12):
		return libs[plainNames[g.r.Intn(len(plainNames))]].typ
	case !g.cust && deep > 0 && g.one(14):
		return libs[recNames[g.r.Intn(len(recNames))]].typ
	case g.one(150):
		return []reflect.Type{reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(uintptr(0)), reflect.TypeOf((*error)(nil)).Elem()}[g.r.Intn(5)]
	case deep == 0 || g.one(4):
		return g.scalarType()
	}
	switch g.r.Intn(8) {
	case 0:
		return reflect.PtrTo(g.typ(deep - 1))
	case 1, 2:
		return reflect.SliceOf(g.typ(deep - 1))
	case 3:
		return reflect.ArrayOf(g.r.Intn(4), g.typ(deep-1))
	case 4:
		return reflect.MapOf(g.keyType(), g.typ(deep-1))
	default:
		for {
			if t := g.structType(deep); t != nil {
				return t
			}
		}
	}
}

func (g *cgen) keyType() reflect.Type {
	switch {
	case g.cust && g.one(2):
		return g.lib(func(d *tdesc) bool {
			return d.U.K == "string" || (has(d.Enc, "text") && !*d.Penc && has(d.Dec, "text"))
		})
	case g.one(4):
		return libs["NStr"].typ
	}
	return reflect.TypeOf("")
}

func (g *cgen) structType(deep int) (t reflect.Type) {
	n := g.r.Intn(5)
	fs := []reflect.StructField{}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: string(rune('A' + i)), Type: g.typ(deep - 1)}
		if g.one(5) && deep > 0 {
			// embedded, tagged as a named field at times; names are drawn from few so that some hide others
			e := g.structType(deep - 1)
			if e == nil {
				return nil
			}
			f.Name, f.Type, f.Anonymous = "E"+string(rune('A'+i)), e, true
			if g.one(2) {
				f.Type = reflect.PtrTo(e)
			}
			if g.one(6) {
				f.Tag = reflect.StructTag(`json:"emb" x:"emb"`)
			}
			fs = append(fs, f)
			continue
		}
		if g.one(6) {
			f.Name = string(rune('A' + g.r.Intn(3))) // may clash with another
		}
		if g.one(10) {
			f.Name, f.PkgPath = strings.ToLower(f.Name), "vh"
		}
		tags := []string{}
		for _, k := range []string{"json", "x"} {
			if g.one(3) {
				continue
			}
			name := ""
			if g.one(2) {
				name = keyPool[g.r.Intn(len(keyPool))]
			}
			opts := ""
			for _, o := range []string{",omitempty", ",8bit", ",html", ",string"} {
				if (o == ",omitempty" && g.one(2)) || g.one(8) {
					opts += o
				}
			}
			if g.one(12) {
				name, opts = "-", ""
			}
			tags = append(tags, k+":"+strconv.Quote(name+opts))
		}
		f.Tag = reflect.StructTag(strings.Join(tags, " "))
		fs = append(fs, f)
	}
	names := map[string]bool{}
	for _, f := range fs {
		if names[f.Name] {
			return nil
		}
		names[f.Name] = true
	}
	defer func() {
		if e := recover(); e != nil {
			t = nil
		}
	}()
	t = reflect.StructOf(fs)
	// two fields of one name at the same depth: not specified
	for _, tag := range []string{"json", "x"} {
		seen := map[string]int{}
		if !collect(t, tag, 1, seen) {
			return nil
		}
	}
	return t
}

func collect(t reflect.Type, tag string, depth int, seen map[string]int) bool {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		val, ok := f.Tag.Lookup(tag)
		name := strings.Split(val, ",")[0]
		if name == "-" {
			continue
		}
		if e := f.Type; f.Anonymous && !ok {
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			if e.Kind() == reflect.Struct {
				if !collect(e, tag, depth+1, seen) {
					return false
				}
				continue
			}
		}
		if f.PkgPath != "" {
			continue
		}
		if name == "" {
			name = f.Name
		}
		k := fmt.Sprint(depth, " ", name)
		if seen[k]++; seen[k] > 1 {
			return false
		}
	}
	return true
}

var strPool = []string{"", "a", "0", "1", "hello", "q\"q", "b\\b", "/", "\n\t\r\b\f", "\x00\x1f", "é", "日本語", "😀", "<a href='x'>&</a>", "\u2028\u2029", "null", "[1,2]", "\u007f", "\u0080", "\ufffd", "~x", "\"", "\\", "\\u0041"}

func (g *cgen) str(raw bool) string {
	if raw {
		return []string{"", "plain", "x y", "1,2", "é"}[g.r.Intn(5)]
	}
	if g.one(4) {
		b := make([]byte, g.r.Intn(8))
		for i := range b {
			b[i] = byte(g.r.Intn(128))
		}
		return string(b)
	}
	return strPool[g.r.Intn(len(strPool))] + strPool[g.r.Intn(len(strPool))]
}

var payloads = []string{`0`, `1`, `""`, `"a\"b"`, `null`, `true`, `[]`, `{}`, `[1,[2,"x"]]`, `{"a":1,"b":[null]}`, `"\u00e9\n"`, `-1.50e+2`, `{"k":{"k":{}}}`}

func (g *cgen) payload(d *tdesc) string {
	if g.one(16) {
		return "x!y"
	}
	if k := encKind(d); g.nl && (k == "append" || k == "json") && g.one(2) {
		return []string{"[1,\n2]", "{\"a\":\n\n1}", "\n\"b\"", "1\n"}[g.r.Intn(4)]
	} else if k == "append" || k == "json" || g.one(3) {
		return payloads[g.r.Intn(len(payloads))]
	}
	if g.one(4) {
		return []string{"0", "1", ""}[g.r.Intn(3)]
	}
	return strings.Replace(g.str(false), "!", "", -1)
}

// fillRandom stores a random value.
func (g *cgen) value(v reflect.Value, deep int, raw bool) {
	t := v.Type()
	if !v.CanSet() && t.Kind() != reflect.Struct {
		return
	}
	if c := libs[libOf[t]].custom; c != nil {
		s := g.payload(c)
		if raw && encKind(c) == "" && !g.one(3) {
			s = g.str(true)
		} else if raw && encKind(c) == "" {
			s = []string{"0", "1"}[g.r.Intn(2)]
		}
		if t.Kind() == reflect.String {
			v.SetString(s)
		} else {
			v.Field(0).SetString(s)
		}
		return
	}
	if g.one(6) && t.Kind() != reflect.Struct {
		return // zero
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString(g.str(raw))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		max := int64(1)<<(uint(t.Bits())-1) - 1
		v.SetInt([]int64{1, -1, max, -max - 1, max - 1, g.r.Int63() & max, -(g.r.Int63() & max)}[g.r.Intn(7)])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		max := ^uint64(0) >> (64 - uint(t.Bits()))
		v.SetUint([]uint64{1, max, max - 1, max>>1 + 1, g.r.Uint64() & max}[g.r.Intn(5)])
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.float(t.Bits()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.value(v.Index(i), deep-1, raw)
		}
	case reflect.Slice:
		n := g.r.Intn(4)
		if deep <= 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(t, n, n+g.r.Intn(3)))
		for i := 0; i < n; i++ {
			g.value(v.Index(i), deep-1, raw)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() && !(t.Field(i).Anonymous && f.Kind() == reflect.Struct) {
				continue
			}
			raw := strings.Contains(string(t.Field(i).Tag), "8bit")
			g.value(f, deep-1, raw)
		}
	case reflect.Ptr:
		if deep > 0 || t.Elem().Kind() != reflect.Struct {
			v.Set(reflect.New(t.Elem()))
			g.value(v.Elem(), deep-1, raw)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		n := g.r.Intn(4)
		if deep <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k, y := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			s := strings.Replace(g.str(false), "!", "", -1)
			if g.one(40) {
				s = "!"
			}
			if k.Kind() == reflect.String {
				k.SetString(s)
			} else {
				k.Field(0).SetString(s)
			}
			g.value(y, deep-1, false)
			v.SetMapIndex(k, y)
		}
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return
		}
		dt := g.scalarType()
		if deep > 0 {
			switch g.r.Intn(6) {
			case 0:
				dt = reflect.SliceOf(typAny)
			case 1:
				dt = reflect.MapOf(reflect.TypeOf(""), typAny)
			case 2:
				dt = g.typ(1)
			case 3:
				dt = reflect.PtrTo(g.scalarType())
			}
		}
		if dt.Kind() == reflect.Interface || dt.Kind() == reflect.Func || dt.Kind() == reflect.Chan {
			dt = reflect.TypeOf("")
		}
		y := reflect.New(dt).Elem()
		g.value(y, deep-1, false)
		v.Set(y)
	}
}

func (g *cgen) float(bits int) float64 {
	fs := []float64{0.5, -1, 1e21, 1e-7, 123456789, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, math.Copysign(0, -1), 1e20, 999999999999999900000}
	if bits == 64 {
		fs = append(fs, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1+0.2, 1<<53+2)
	}
	switch {
	case g.one(24):
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.r.Intn(3)]
	case g.one(2):
		return fs[g.r.Intn(len(fs))]
	}
	for {
		f := math.Float64frombits(g.r.Uint64())
		if bits == 32 {
			f = float64(math.Float32frombits(g.r.Uint32()))
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

var numPool = []string{"0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649",
	"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"1.5", "1.0", "1e2", "12e-1", "120e-1", "1e400", "-1e400", "1e39", "3.4028235e38", "3.4028236e38", "1e-400", "0.1", "16777217", "7.038531e-26", "1E5", "-0.0", "99999999999999999999999", "1.0000000596046448"}

func (g *cgen) space(b *strings.Builder) {
	if g.one(6) {
		b.WriteString([]string{" ", "\n", "\t", "\r\n", "  "}[g.r.Intn(5)])
	}
}

func (g *cgen) quoted(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i, c := range s {
		switch {
		case c == '"' || c == '\\' || (c < 32) || g.one(12):
			switch x := strings.IndexRune("\"\\/\b\f\n\r\t", c); {
			case x >= 0 && g.one(2):
				b.WriteString([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[x])
			case c >= 0x10000:
				c -= 0x10000
				fmt.Fprintf(b, `\u%04x\u%04X`, 0xD800+c>>10, 0xDC00+c&0x3ff)
			default:
				fmt.Fprintf(b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
		_ = i
	}
	b.WriteByte('"')
}

// text writes JSON for a type: mostly of its shape.
func (g *cgen) text(b *strings.Builder, t reflect.Type, deep int) {
	g.space(b)
	defer g.space(b)
	switch {
	case g.one(10):
		b.WriteString("null")
		return
	case g.one(14) || t == nil:
		switch k := g.r.Intn(6); {
		case k == 0:
			b.WriteString([]string{"true", "false"}[g.r.Intn(2)])
		case k == 1:
			b.WriteString(numPool[g.r.Intn(len(numPool))])
		case k == 2 || deep <= 0:
			g.quoted(b, g.str(false))
		case k == 3:
			g.list(b, nil, deep)
		default:
			g.object(b, nil, deep)
		}
		return
	}
	if c := libs[libOf[t]].custom; c != nil && methods(c) {
		switch {
		case has(c.Dec, "json") || has(c.Dec, "node"):
			if g.one(2) {
				g.text(b, nil, deep)
			} else {
				b.WriteString(payloads[g.r.Intn(len(payloads))])
			}
			return
		case has(c.Dec, "text"):
			s := "~" + g.str(false)
			if g.one(8) {
				s = "!"
			}
			g.quoted(b, s)
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		b.WriteString([]string{"true", "false"}[g.r.Intn(2)])
	case reflect.String:
		g.quoted(b, g.str(false))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		if g.one(3) {
			b.WriteString(numPool[g.r.Intn(len(numPool))])
		} else if t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 {
			s, _ := json.Marshal(g.finite(t.Bits()))
			b.Write(s)
		} else {
			b.WriteString([]string{"0", "1", "2", "5", "100", "7"}[g.r.Intn(6)])
		}
	case reflect.Array, reflect.Slice:
		g.list(b, t.Elem(), deep)
	case reflect.Map:
		g.object(b, t, deep)
	case reflect.Struct:
		g.object(b, t, deep)
	case reflect.Ptr:
		g.text(b, t.Elem(), deep)
	default:
		g.text(b, nil, deep)
	}
}

func (g *cgen) finite(bits int) float64 {
	for {
		if f := g.float(bits); !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (g *cgen) list(b *strings.Builder, e reflect.Type, deep int) {
	b.WriteByte('[')
	n := g.r.Intn(4)
	if deep <= 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		g.text(b, e, deep-1)
	}
	b.WriteByte(']')
}

// keysOf gives the keys a struct may use, those of embedded ones too.
func (g *cgen) keysOf(t reflect.Type, out map[string]reflect.Type, deep int) {
	for i := 0; i < t.NumField() && deep > 0; i++ {
		f := t.Field(i)
		name := strings.Split(f.Tag.Get(g.tag), ",")[0]
		if name == "" {
			name = f.Name
		}
		if _, ok := out[name]; !ok || g.one(2) {
			out[name] = f.Type
		}
		e := f.Type
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		if f.Anonymous && e.Kind() == reflect.Struct {
			g.keysOf(e, out, deep-1)
		}
	}
}

func (g *cgen) object(b *strings.Builder, t reflect.Type, deep int) {
	keys := []string{}
	types := map[string]reflect.Type{}
	if t != nil && t.Kind() == reflect.Struct {
		g.keysOf(t, types, 4)
		for k := range types {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		g.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for i := 0; i < len(keys); i++ {
			if g.one(5) {
				keys[i] = keys[g.r.Intn(len(keys))] // missing and repeated members
			}
		}
	} else {
		for i := g.r.Intn(4); i > 0; i-- {
			keys = append(keys, g.str(false))
		}
	}
	if g.one(3) {
		keys = append(keys, keyPool[g.r.Intn(len(keyPool))])
	}
	if deep <= 0 {
		keys = nil
	}
	b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			b.WriteByte(',')
		}
		g.space(b)
		if t != nil && t.Kind() == reflect.Map && g.cust && g.one(2) {
			k = "~" + k
		}
		g.quoted(b, k)
		g.space(b)
		b.WriteByte(':')
		e := types[k]
		if t != nil && t.Kind() == reflect.Map {
			e = t.Elem()
		}
		g.text(b, e, deep-1)
	}
	b.WriteByte('}')
}

func (g *cgen) opts() copts {
	o := copts{Tag: "json", Omit: "Omit"}
	if g.one(3) {
		o.Tag = "x"
	}
	if g.one(4) {
		o.Empty = true
	}
	if g.one(5) {
		o.Omit = "IsZero"
	}
	if g.one(4) {
		o.NaN = true
	}
	if g.one(4) {
		o.Inf = true
	}
	return o
}

func (g *cgen) gen() *codecCase {
	g.cust = g.one(3)
	cc := &codecCase{O: g.opts(), Cust: g.cust}
	g.tag = cc.O.Tag
	t := g.typ(3)
	// small values of recursive types: their descriptors are unrolled
	deep := 1 + g.r.Intn(5)
	v := reflect.New(t).Elem()
	cc.Op = []string{"enc", "dec", "round"}[g.r.Intn(3)]
	switch cc.Op {
	case "dec":
		if g.one(2) {
			g.value(v, deep, false)
		}
		var b strings.Builder
		g.text(&b, t, deep)
		s := b.String()
		if g.one(12) {
			m := gen{r: g.r}
			s = m.mutate(s)
		} else if g.one(20) {
			s += []string{"x", "1", " {}", ",", "]", "}", "\"", "null"}[g.r.Intn(8)]
		}
		cc.Text = ints(s)
		a, _ := parseTree(s, false, false)
		cc.Old = plain(dump(v, 3)).(map[string]interface{})
		lim := depth(cc.Old)
		if n := depth(plain(a)); n > lim {
			lim = n
		}
		cc.T = plain(describe(t, lim+1, nil))
	default:
		g.value(v, deep, false)
		cc.V = plain(dump(v, 3)).(map[string]interface{})
		cc.T = plain(describe(t, depth(cc.V)+1, nil))
	}
	if len(show(cc.T)) > 12000 {
		return g.gen()
	}
	return cc
}

func runCodec(c *ctx) error {
	cr := &codecRun{c, c.create("codec.ndjson")}
	n := c.n / c.workers
	c.parallel(func(w int, r *rand.Rand) {
		g := &cgen{r: r}
		for i := 0; i < n && !c.expired(); i++ {
			cc := g.gen()
			data, err := json.Marshal(cc)
			must(err)
			c.begin(w, "codec", data)
			cr.run(cc, r)
			c.end(w)
			if i == 3 {
				c.addSample(cc)
			}
		}
	})
	cr.log.close()
	return nil
}

// runCodecTests runs the cases TLC generated, one per line.
func runCodecTests(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	cr := &codecRun{c, c.create("codec.ndjson")}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(lines); i += c.workers {
			cc := new(codecCase)
			must(json.Unmarshal(lines[i], cc))
			c.begin(w, "codec", lines[i])
			cr.run(cc, r)
			c.end(w)
		}
	})
	cr.log.close()
	return nil
}

func runCodecRaw(c *ctx) error {
	c.workers = 1
	return runCodecTests(c)
}

// runCodecExport writes the descriptors of the instrumented types for TLC.
func runCodecExport(c *ctx) error {
	list := []*tdesc{}
	for _, n := range libNames {
		list = append(list, libs[n].custom)
	}
	data, err := json.Marshal(mss{"lib": list})
	must(err)
	return os.WriteFile(filepath.Join(c.out, "lib.json"), data, 0o644)
}

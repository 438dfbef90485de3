package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
)

func init() {
	areas["dom"] = runDom
	areas["dom-raw"] = rawDom
	areas["dom-rerun"] = rerunDom
	areas["dom-tests"] = runDomTests
}

// domTree is a value as spec/Dom.tla sees it.
type domTree struct {
	T    string    `json:"t"`
	Raw  string    `json:"raw"`
	Kids []domLink `json:"kids"`
}

type domLink struct {
	K string   `json:"k"`
	V *domTree `json:"v"`
}

// domEv is one API call: spec/Dom.tla gives the meaning of the fields.
type domEv struct {
	Op   string      `json:"op"`
	D    int         `json:"d,omitempty"`
	Dst  int         `json:"dst,omitempty"`
	Ref  int         `json:"ref,omitempty"`
	Val  int         `json:"val,omitempty"`
	Vals []int       `json:"vals"`
	Key  string      `json:"key"`
	I    int         `json:"i"`
	J    int         `json:"j"`
	Path []string    `json:"path"`
	Kind string      `json:"kind,omitempty"`
	S    string      `json:"s"`
	Tree *domTree    `json:"tree,omitempty"`
	Text string      `json:"text,omitempty"`
	Tag  string      `json:"tag"`
	Ret  interface{} `json:"ret,omitempty"`
	Obs  []domObs    `json:"obs"`
}

type domObs struct {
	T string `json:"t"`
	R string `json:"r"`
	J string `json:"j"`
	N int    `json:"n"`
	D bool   `json:"d"`
}

type domHist struct {
	Nd   int     `json:"nd"`
	Nr   int     `json:"nr"`
	Ev   []domEv `json:"ev"`
	Seed int64   `json:"seed"`
}

// domSim applies API calls to real documents.
type domSim struct {
	docs  []*njson.Document
	revs  []int
	refs  []njson.Node
	pool  *njson.Pool
	fails []domFail
	step  func() // before every call
	drop  bool   // forget the references to a document that is given back
}

type domFail struct {
	msg   string
	props []string
}

func newDomSim(nd, nr int) *domSim {
	s := &domSim{pool: new(njson.Pool), refs: make([]njson.Node, nr+1), revs: make([]int, nd+1), docs: make([]*njson.Document, nd+1)}
	for i := 1; i <= nd; i++ {
		s.docs[i] = new(njson.Document)
	}
	return s
}

func (s *domSim) failf(props []string, f string, args ...interface{}) {
	if len(s.fails) < 3 {
		s.fails = append(s.fails, domFail{fmt.Sprintf(f, args...), props})
	}
}

func domFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func domValue(x interface{}) map[string]interface{} {
	switch v := x.(type) {
	case nil:
		return map[string]interface{}{"nil": true}
	case bool:
		return map[string]interface{}{"b": strconv.FormatBool(v)}
	case string:
		return map[string]interface{}{"s": v}
	case float64:
		return map[string]interface{}{"f": domFloat(v)}
	case []interface{}:
		a := make([]interface{}, len(v))
		for i := range v {
			a[i] = domValue(v[i])
		}
		return map[string]interface{}{"a": a}
	case map[string]interface{}:
		o := []interface{}{}
		for k, x := range v {
			o = append(o, map[string]interface{}{"k": k, "v": domValue(x)})
		}
		return map[string]interface{}{"o": o}
	}
	return map[string]interface{}{"?": fmt.Sprintf("%T", x)}
}

type domConv struct {
	F string `json:"f"`
	I string `json:"i"`
	U string `json:"u"`
	B string `json:"b"`
	S string `json:"s"`
	G struct {
		OK bool                   `json:"ok"`
		V  map[string]interface{} `json:"v"`
	} `json:"g"`
}

func convOf(n njson.Node) domConv {
	var c domConv
	if f, ok := n.ToFloat(); ok {
		c.F = domFloat(f)
	}
	if i, ok := n.ToInt(); ok {
		c.I = strconv.FormatInt(i, 10)
	}
	if u, ok := n.ToUint(); ok {
		c.U = strconv.FormatUint(u, 10)
	}
	if b, ok := n.ToBool(); ok {
		c.B = strconv.FormatBool(b)
	}
	c.S = n.Unescaped()
	x, ok := n.ToInterface()
	c.G.OK = ok
	if !ok {
		x = nil
	}
	c.G.V = domValue(x)
	return c
}

type domChild struct {
	K string `json:"k"`
	I int    `json:"i"`
	J string `json:"j"`
}

func jsonOf(n njson.Node) string {
	b, err := n.AppendJSON(nil)
	if err != nil {
		return "!"
	}
	return string(b)
}

func domObserve(n njson.Node) domObs {
	raw, t := n.Data()
	v := n.Values()
	return domObs{T: t.String(), R: raw, J: jsonOf(n), N: v.Len(), D: n.Document() != nil}
}

type rawUnmarshaler struct {
	calls int
	data  []byte
}

func (r *rawUnmarshaler) UnmarshalJSON(data []byte) error {
	r.calls++
	r.data = append(r.data[:0], data...)
	return nil
}

// forms checks that all ways of looking at a reference agree with each other.
func (s *domSim) forms(n njson.Node, what string) {
	o := domObserve(n)
	if n.Raw() != o.R || n.Type().String() != o.T {
		s.failf([]string{"C25", "C05", "C08"}, "%s: Data gives %q %s, but Raw %q and Type %s", what, o.R, o.T, n.Raw(), n.Type())
	}
	pre := []byte("pre")
	b, err := n.AppendJSON(append([]byte(nil), pre...))
	if o.J == "!" {
		if err == nil || string(b) != "pre" {
			s.failf([]string{"C08", "C04"}, "%s: serializing an invalid reference gives %q, %v", what, b, err)
		}
	} else if err != nil || string(b) != "pre"+o.J {
		s.failf([]string{"C04"}, "%s: appending gives %q (%v), want %q", what, b, err, o.J)
	}
	var cw countWriter
	k, err := n.PrintJSON(&cw)
	var ru rawUnmarshaler
	err2 := n.WrapUnmarshalJSON(&ru)
	if o.J == "!" {
		if err == nil || err2 == nil || cw.calls != 0 || ru.calls != 0 {
			s.failf([]string{"C08", "C04"}, "%s: printing or unmarshaling an invalid reference gives no error", what)
		}
	} else if err != nil || err2 != nil || string(cw.b) != o.J || k != len(o.J) || ru.calls != 1 || string(ru.data) != o.J {
		s.failf([]string{"C04", "C18"}, "%s: prints %q (%v), passes %q (%v) to an unmarshaler, want %q", what, cw.b, err, ru.data, err2, o.J)
	}
	if !o.D && (o.T != "InvalidToken" || o.R != "" || o.N != 0 || o.J != "!") {
		s.failf([]string{"C08"}, "%s: a reference without document shows %+v", what, o)
	}
}

// children iterates in every way and returns the list.
func (s *domSim) children(n njson.Node, what string) []domChild {
	out := []domChild{}
	it := n.Values()
	want := it.Len()
	for it.Next() {
		v := it.Value()
		i := it.Index()
		out = append(out, domChild{it.Key(), i, jsonOf(v)})
		if it.ID() != v.ID() {
			s.failf([]string{"C05"}, "%s: iteration gives id %d and value %d", what, it.ID(), v.ID())
		}
		var same njson.Node
		if n.Type() == njson.TypeObject {
			first := true
			for _, p := range out[:len(out)-1] {
				first = first && p.K != it.Key()
			}
			if !first {
				continue
			}
			same = n.Get(it.Key())
		} else {
			same = n.Index(i)
			if x := n.Lookup(strconv.Itoa(i)); x.ID() != v.ID() {
				s.failf([]string{"C05"}, "%s: Lookup %d gives id %d, iteration %d", what, i, x.ID(), v.ID())
			}
		}
		if same != v {
			s.failf([]string{"C05"}, "%s: child %d %q is %v when iterating, %v when looked up", what, i, it.Key(), v, same)
		}
	}
	if it.Next() || it.Next() || it.Value().Type() != njson.TypeInvalid {
		s.failf([]string{"C05"}, "%s: a finished iteration goes on", what)
	}
	if len(out) != want || it.Len() != want {
		s.failf([]string{"C05"}, "%s: %d children, Len %d", what, len(out), want)
	}
	it.Reset()
	k := 0
	for it.Next() {
		if k < len(out) && (it.Key() != out[k].K || it.Index() != k || jsonOf(it.Value()) != out[k].J) {
			s.failf([]string{"C05"}, "%s: a restarted iteration shows something else at %d", what, k)
		}
		if k++; k > len(out) {
			break
		}
	}
	if k != len(out) {
		s.failf([]string{"C05"}, "%s: a restarted iteration shows %d children, not %d", what, k, len(out))
	}
	it = n.Values()
	it.Next()
	it.Reset()
	for k = 0; k <= len(out) && it.Next(); k++ {
	}
	if k != len(out) {
		s.failf([]string{"C05"}, "%s: an iteration restarted in the middle shows %d children, not %d", what, k, len(out))
	}
	it.Close()
	if it.Next() || it.Len() != 0 || it.Value().Type() != njson.TypeInvalid {
		s.failf([]string{"C05"}, "%s: a closed iteration goes on", what)
	}
	return out
}

// dump walks the real nodes of a document: every one of them may have one parent at most.
func (s *domSim) dump(d int, tag string) bool {
	ps := []string{"C07", "C06"}
	if strings.Contains(tag, "stale") {
		ps = append(ps, "C08")
	}
	if strings.Contains(tag, "reused") {
		ps = append(ps, "C09")
	}
	doc := s.docs[d]
	var edges [][]uint
	for id := uint(0); ; id++ {
		n := doc.Node(id)
		if n.Type() == njson.TypeInvalid {
			break
		}
		var e []uint
		for it := n.Values(); it.Next(); {
			e = append(e, it.ID())
		}
		edges = append(edges, e)
	}
	parent := make([]int, len(edges))
	for id, e := range edges {
		for _, to := range e {
			if to >= uint(len(edges)) {
				s.failf(ps, "node %d links to node %d, the document has %d", id, to, len(edges))
				return false
			}
			if parent[to] != 0 {
				s.failf(ps, "node %d has two parents, %d and %d", to, parent[to]-1, id)
				return false
			}
			parent[to] = id + 1
		}
	}
	for id := range edges {
		for x, k := id, 0; parent[x] != 0; k++ {
			x = parent[x] - 1
			if k > len(edges) {
				s.failf(ps, "node %d is on a cycle", id)
				return false
			}
		}
	}
	return true
}

// apply performs one call; it returns false when the history cannot go on.
func (s *domSim) apply(e *domEv) bool {
	if s.step != nil {
		s.step()
	}
	if msg := try(func() { s.call(e) }); msg != "" {
		p := []string{"C05", "C06"}
		switch {
		case strings.Contains(e.Tag, "stale"):
			p = []string{"C08"}
		case e.Op == "set" || e.Op == "append" || e.Op == "replace":
			p = []string{"C06", "C07"}
		case e.Op == "parse" || e.Op == "parsebad":
			p = []string{"C01", "C02"}
		}
		if strings.Contains(e.Tag, "reused") {
			p = append(p, "C09")
		}
		s.failf(p, "%s panics: %s", e.Op, msg)
		return false
	}
	for d := 1; d < len(s.docs); d++ {
		if !s.dump(d, e.Tag) {
			return false
		}
	}
	if msg := try(func() {
		e.Obs = e.Obs[:0]
		for r := 1; r < len(s.refs); r++ {
			e.Obs = append(e.Obs, domObserve(s.refs[r]))
		}
	}); msg != "" {
		s.failf([]string{"C05", "C06", "C08"}, "looking at the references after %s panics: %s", e.Op, msg)
		return false
	}
	return true
}

func (s *domSim) call(e *domEv) {
	var ref, val njson.Node
	if e.Ref > 0 {
		ref = s.refs[e.Ref]
	}
	if e.Val > 0 {
		val = s.refs[e.Val]
	}
	var doc *njson.Document
	if e.D > 0 {
		doc = s.docs[e.D]
	}
	switch e.Op {
	case "new":
		var n njson.Node
		switch e.Kind {
		case "null":
			n = doc.Null()
		case "true":
			n = doc.True()
		case "false":
			n = doc.False()
		case "obj":
			n = doc.Object()
		case "arr":
			n = doc.Array()
		case "raw":
			n = doc.TextRaw(e.S)
		case "text":
			n = doc.Text(e.S)
		case "html":
			n = doc.TextHTML(e.S)
		default:
			f, err := strconv.ParseFloat(e.S, 64)
			if err != nil {
				panic(err)
			}
			n = doc.Number(f)
		}
		s.refs[e.Dst] = n
	case "parse":
		n, tail, err := doc.Parse(e.Text)
		if err != nil || tail != "" {
			s.failf([]string{"C01", "C09"}, "parsing %q gives %v, tail %q", e.Text, err, tail)
		}
		s.refs[e.Dst] = n
	case "parsebad":
		n, _, err := doc.Parse(e.Text)
		if err == nil {
			s.failf([]string{"C02", "C03", "C09"}, "parsing %q gives no error", e.Text)
		}
		s.refs[e.Dst] = n
	case "root":
		s.refs[e.Dst] = doc.Root()
		if b, err := doc.AppendJSON([]byte("x")); err != nil {
			if string(b) != "x" || doc.Root().Type() != njson.TypeInvalid {
				s.failf([]string{"C04", "C08"}, "serializing the document gives %q, %v", b, err)
			}
		} else if string(b) != "x"+jsonOf(doc.Root()) {
			s.failf([]string{"C04"}, "the document serializes as %q, its root as %q", b, jsonOf(doc.Root()))
		}
	case "reset":
		if s.drop && e.Kind != "reset" {
			for r := range s.refs {
				if s.refs[r].Document() == doc {
					s.refs[r] = njson.Node{}
				}
			}
		}
		switch e.Kind {
		case "close":
			doc.Close()
			s.docs[e.D] = njson.Blank()
		case "put":
			s.pool.Put(doc)
			s.docs[e.D] = s.pool.Get()
		default:
			doc.Reset()
		}
		s.revs[e.D]++
		if doc := s.docs[e.D]; doc.Root().Type() != njson.TypeInvalid || doc.Node(1).Type() != njson.TypeInvalid || doc.Node(3).Type() != njson.TypeInvalid {
			s.failf([]string{"C08", "C21"}, "a value is reachable after %s", e.Kind)
		}
	case "copyref":
		s.refs[e.Dst] = ref
	case "get":
		s.refs[e.Dst] = ref.Get(e.Key)
	case "index":
		s.refs[e.Dst] = ref.Index(e.I)
	case "iter":
		it := ref.Values()
		n := ref.With(math.MaxUint)
		for k := 0; it.Next(); k++ {
			if k == e.I {
				n = it.Value()
				if k%2 == 1 {
					break
				}
			}
		}
		s.refs[e.Dst] = n
	case "lookup":
		n := ref.Lookup(e.Path...)
		if len(e.Path) > 1 { // single steps one after another
			m := ref
			for _, p := range e.Path {
				m = m.Lookup(p)
			}
			if m.ID() != n.ID() && (m.Type() != njson.TypeInvalid || n.Type() != njson.TypeInvalid) {
				s.failf([]string{"C05"}, "Lookup %q gives %v, step by step %v", e.Path, n, m)
			}
		}
		s.refs[e.Dst] = n
	case "conv":
		e.Ret = convOf(ref)
		s.forms(ref, "conv")
	case "kids":
		e.Ret = s.children(ref, "kids")
	case "set":
		ref.Set(e.Key, val)
	case "append":
		var vals []njson.Node
		for _, v := range e.Vals {
			vals = append(vals, s.refs[v])
		}
		ref.Append(vals...)
	case "replace":
		ref.Replace(e.I, val)
	case "remove":
		ref.Remove(e.I)
	case "slice":
		ref.Slice(e.I, e.J)
	case "del":
		ref.Del(e.Key)
	case "strip":
		ref.Strip(e.Key)
	case "write":
		switch e.Kind {
		case "null":
			ref.SetNull()
		case "true":
			ref.SetTrue()
		case "false":
			ref.SetFalse()
		case "raw":
			ref.SetStringRaw(e.S)
		case "text":
			ref.SetString(e.S)
		case "html":
			ref.SetStringHTML(e.S)
		case "int":
			i, err := strconv.ParseInt(e.S, 10, 64)
			if err != nil {
				panic(err)
			}
			ref.SetInt(i)
		case "uint":
			u, err := strconv.ParseUint(e.S, 10, 64)
			if err != nil {
				panic(err)
			}
			ref.SetUint(u)
		default:
			f, err := strconv.ParseFloat(e.S, 64)
			if err != nil {
				panic(err)
			}
			ref.SetFloat(f)
		}
	default:
		panic("unknown op " + e.Op)
	}
}

// ------------------------------------------------------------------ generation

var (
	domKeys  = []string{"a", "b", "c", "a", "b", "0", "1", "", "ka", "k\\u0061", "q\\\""}
	domRaws  = []string{"", "a", "k\\u0061", "q\\\"", "\\/", "b\\\\", "n\\n", "\\u00e9", "u\\u12", "x<", "true", "12", "null", "é"}
	domTexts = []string{"", "a", "q\"", "/", "b\\", "n\n", "<", "é", "12"}
	domNums  = []string{"0", "1", "2", "3", "42", "-1", "1.5", "1.0", "1e2", "-0", "0.25", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e400", "-2.5e-1", "1.2.3", "-", "1x", "5"}
	domInts  = []string{"0", "1", "2", "7", "42", "-1", "9223372036854775807", "-9223372036854775808", "9007199254740993"}
	domUints = []string{"0", "1", "3", "42", "9223372036854775807", "18446744073709551615"}
	domFlts  = []string{"0", "1.5", "0.25", "-1", "42", "5"}
	domSteps = []string{"a", "b", "c", "a", "b", "0", "1", "2", "0", "1", "3", "4", "00", "01", "002", "10", "-1", "", "ka", "k\\u0061", "x", "1x", " 1", "+1", "99999999999999999999", "18446744073709551616", "18446744073709551617", "/", ":", "1.0"}
	domBad   = []string{"", "[", "{\"a\":", "[1,2", "[{\"a\":[1,2,3],\"b\":\"x\"},", "{\"a\":1,}", "[1 2]", "tru", "trux", "]", "{\"a\" 1}", "[[[[[[[[[[[1", "\"abc", "[{},{},{},{},{},{},{},x]"}
)

func rpick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func domGenTree(r *rand.Rand, budget *int, depth int) *domTree {
	*budget--
	t := &domTree{Kids: []domLink{}}
	k := r.Intn(10)
	if depth > 0 && (*budget <= 0 || depth > 5) {
		k = 4 + r.Intn(6)
	}
	switch {
	case k < 2:
		t.T = "Object"
		for n := r.Intn(5); n > 0; n-- {
			t.Kids = append(t.Kids, domLink{rpick(r, domKeys), domGenTree(r, budget, depth+1)})
		}
	case k < 4:
		t.T = "Array"
		for n := r.Intn(5); n > 0; n-- {
			t.Kids = append(t.Kids, domLink{"", domGenTree(r, budget, depth+1)})
		}
	case k < 6:
		t.T, t.Raw = "String", rpick(r, domRaws)
	case k < 8:
		t.T, t.Raw = "Number", rpick(r, domNums)
	case k == 8:
		t.T, t.Raw = "Boolean", []string{"true", "false"}[r.Intn(2)]
	default:
		t.T, t.Raw = "Null", "null"
	}
	return t
}

func (t *domTree) text(b *strings.Builder, ws string) {
	switch t.T {
	case "Object", "Array":
		open, end := "{", "}"
		if t.T == "Array" {
			open, end = "[", "]"
		}
		b.WriteString(open)
		for i, l := range t.Kids {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(ws)
			if t.T == "Object" {
				b.WriteString("\"" + l.K + "\"" + ws + ":" + ws)
			}
			l.V.text(b, ws)
			b.WriteString(ws)
		}
		b.WriteString(end)
	case "String":
		b.WriteString("\"" + t.Raw + "\"")
	default:
		b.WriteString(t.Raw)
	}
}

// holds reports whether x is at or below n.
func holds(n, x njson.Node) bool {
	if n.Document() == nil || n.Document() != x.Document() {
		return false
	}
	if n.ID() == x.ID() {
		return true
	}
	for it := n.Values(); it.Next(); {
		if holds(it.Value(), x) {
			return true
		}
	}
	return false
}

func (s *domSim) pickRef(r *rand.Rand, ok func(n njson.Node) bool) int {
	if ok != nil && r.Intn(8) > 0 {
		var c []int
		for i := 1; i < len(s.refs); i++ {
			if ok(s.refs[i]) {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			return c[r.Intn(len(c))]
		}
	}
	return 1 + r.Intn(len(s.refs)-1)
}

func isObj(n njson.Node) bool  { return n.Type() == njson.TypeObject }
func isArr(n njson.Node) bool  { return n.Type() == njson.TypeArray }
func isCont(n njson.Node) bool { return isObj(n) || isArr(n) }
func isLive(n njson.Node) bool { return n.Type() != njson.TypeInvalid }

// someKey prefers keys that are there.
func someKey(r *rand.Rand, n njson.Node) string {
	if r.Intn(3) > 0 {
		it := n.Values()
		if k := it.Len(); k > 0 && n.Type() == njson.TypeObject {
			for j := 1 + r.Intn(k); j > 0; j-- {
				it.Next()
			}
			return it.Key()
		}
	}
	return rpick(r, domKeys)
}

func somePos(r *rand.Rand, n njson.Node) int {
	it := n.Values()
	k := it.Len()
	if k > 0 && r.Intn(4) > 0 {
		return r.Intn(k)
	}
	return []int{-1, 0, k, k + 1, k - 1, 1 << 20, -1 << 30}[r.Intn(7)]
}

type domMix struct {
	name string
	w    map[string]int
}

var domMixes = []domMix{
	{"all", map[string]int{"new": 8, "parse": 4, "parsebad": 2, "root": 1, "reset": 2, "copyref": 1, "get": 6, "index": 6, "iter": 4, "lookup": 6, "conv": 5, "kids": 4, "set": 8, "append": 9, "replace": 5, "remove": 4, "slice": 3, "del": 4, "strip": 3, "write": 8}},
	{"link", map[string]int{"new": 9, "parse": 2, "get": 4, "index": 4, "iter": 1, "copyref": 3, "set": 14, "append": 16, "replace": 8, "remove": 2, "del": 2, "reset": 1, "kids": 1}},
	{"stale", map[string]int{"new": 9, "parse": 4, "parsebad": 3, "root": 3, "reset": 8, "copyref": 4, "get": 5, "index": 5, "iter": 2, "lookup": 4, "conv": 5, "kids": 3, "set": 6, "append": 6, "replace": 4, "remove": 3, "slice": 3, "del": 3, "strip": 3, "write": 6}},
	{"read", map[string]int{"new": 1, "parse": 5, "get": 10, "index": 10, "iter": 6, "lookup": 14, "conv": 12, "kids": 8, "write": 2, "set": 1, "append": 1}},
}

var domOps = []string{"new", "parse", "parsebad", "root", "reset", "copyref", "get", "index", "iter", "lookup", "conv", "kids", "set", "append", "replace", "remove", "slice", "del", "strip", "write"}

func (s *domSim) gen(r *rand.Rand, mix *domMix) domEv {
	total := 0
	for _, o := range domOps {
		total += mix.w[o]
	}
	k := r.Intn(total)
	op := ""
	for _, o := range domOps {
		if k -= mix.w[o]; k < 0 {
			op = o
			break
		}
	}
	e := domEv{Op: op, Vals: []int{}, Path: []string{}, Obs: []domObs{}}
	nr, nd := len(s.refs)-1, len(s.docs)-1
	small := func(n njson.Node) bool { return isLive(n) && len(jsonOf(n)) < 200 }
	switch op {
	case "new", "parse", "parsebad", "root", "reset":
		e.D = 1 + r.Intn(nd)
		e.Dst = 1 + r.Intn(nr)
		switch op {
		case "new":
			e.Kind = []string{"null", "true", "false", "obj", "arr", "obj", "arr", "raw", "text", "html", "float"}[r.Intn(11)]
			switch e.Kind {
			case "raw":
				e.S = rpick(r, domRaws)
			case "text", "html":
				e.S = rpick(r, domTexts)
			case "float":
				e.S = rpick(r, domFlts)
			}
		case "parse":
			budget := []int{3, 6, 10, 10, 14, 60}[r.Intn(6)]
			if r.Intn(4) > 0 {
				budget = 1 + r.Intn(8)
			}
			e.Tree = domGenTree(r, &budget, 0)
			var b strings.Builder
			e.Tree.text(&b, []string{"", "", " ", "\n\t"}[r.Intn(4)])
			e.Text = b.String()
			if e.Tree.T == "Number" && r.Intn(2) == 0 {
				e.Text += " "
			}
			e.Text = strings.TrimRight(e.Text, " ")
		case "parsebad":
			e.Text = rpick(r, domBad)
		case "reset":
			e.Kind = []string{"reset", "close", "put"}[r.Intn(3)]
		}
	case "copyref":
		e.Ref, e.Dst = s.pickRef(r, nil), 1+r.Intn(nr)
	case "get", "index", "iter", "lookup":
		ok := isCont
		if op == "get" {
			ok = isObj
		} else if op == "index" {
			ok = isArr
		}
		e.Ref, e.Dst = s.pickRef(r, ok), 1+r.Intn(nr)
		n := s.refs[e.Ref]
		e.Key, e.I = someKey(r, n), somePos(r, n)
		if op == "lookup" {
			for m := n; ; {
				var p string
				if r.Intn(3) > 0 && isCont(m) {
					if isObj(m) {
						p = someKey(r, m)
					} else if i := somePos(r, m); i >= 0 && i < 8 {
						p = []string{"", "", "", "0", "00"}[r.Intn(5)] + strconv.Itoa(i)
						if _, ok := map[string]bool{"0": true, "1": true, "2": true, "3": true, "4": true, "00": true, "01": true, "002": true}[p]; !ok {
							p = "1"
						}
					} else {
						p = rpick(r, domSteps)
					}
				} else {
					p = rpick(r, domSteps)
				}
				if r.Intn(12) == 0 && len(e.Path) == 0 {
					break
				}
				e.Path = append(e.Path, p)
				m = m.Lookup(p)
				if r.Intn(3) == 0 || len(e.Path) > 5 {
					break
				}
			}
		}
	case "conv", "kids":
		ok := isLive
		if op == "kids" {
			ok = isCont
		}
		e.Ref = s.pickRef(r, ok)
	case "set", "append", "replace":
		ok := isArr
		if op == "set" {
			ok = isObj
		}
		e.Ref = s.pickRef(r, ok)
		n := s.refs[e.Ref]
		e.Key, e.I = someKey(r, n), somePos(r, n)
		val := func() int {
			for k := 0; k < 6; k++ {
				if v := s.pickRef(r, small); len(jsonOf(s.refs[v])) < 300 {
					return v
				}
			}
			return 0
		}
		if op == "append" {
			m := []int{1, 1, 1, 1, 2, 2, 3, 0}[r.Intn(8)]
			for ; m > 0; m-- {
				v := val()
				if v == 0 || len(e.Vals) > 0 && (holds(s.refs[v], n) || holds(s.refs[e.Vals[0]], n)) {
					continue
				}
				e.Vals = append(e.Vals, v)
			}
		} else if e.Val = val(); e.Val == 0 {
			e.Op = "conv"
		}
	case "remove":
		e.Ref = s.pickRef(r, isArr)
		e.I = somePos(r, s.refs[e.Ref])
	case "slice":
		e.Ref = s.pickRef(r, isArr)
		e.I, e.J = somePos(r, s.refs[e.Ref]), somePos(r, s.refs[e.Ref])
		if e.I > e.J && r.Intn(4) > 0 {
			e.I, e.J = e.J, e.I
		}
		if r.Intn(3) == 0 {
			v := s.refs[e.Ref].Values()
			e.J = v.Len()
		}
	case "del":
		e.Ref = s.pickRef(r, isObj)
		e.Key = someKey(r, s.refs[e.Ref])
	case "strip":
		e.Ref = s.pickRef(r, isCont)
		e.Key = someKey(r, s.refs[e.Ref])
	case "write":
		e.Ref = s.pickRef(r, isLive)
		e.Kind = []string{"null", "true", "false", "raw", "text", "html", "int", "uint", "float"}[r.Intn(9)]
		switch e.Kind {
		case "raw":
			e.S = rpick(r, domRaws)
		case "text", "html":
			e.S = rpick(r, domTexts)
		case "int":
			e.S = rpick(r, domInts)
		case "uint":
			e.S = rpick(r, domUints)
		case "float":
			e.S = rpick(r, domFlts)
		}
	}
	s.tag(&e)
	return e
}

// tag notes facts used to tell which property a disagreement is about.
func (s *domSim) tag(e *domEv) {
	var tags []string
	stale := false
	reused := e.D > 0 && s.revs[e.D] > 0
	for _, x := range append([]int{e.Ref, e.Val}, e.Vals...) {
		if x == 0 {
			continue
		}
		n := s.refs[x]
		if n.Document() == nil && n != (njson.Node{}) {
			stale = true
		}
		for d := 1; d < len(s.docs); d++ {
			if s.docs[d] == n.Document() && s.revs[d] > 0 {
				reused = true
			}
		}
	}
	if stale {
		tags = append(tags, "stale")
	}
	if reused {
		tags = append(tags, "reused")
	}
	e.Tag = strings.Join(tags, " ")
}

// history runs one generated history; the result depends on the seed only.
func (c *ctx) history(w int, seed int64, stats map[string]int64, prep func(s *domSim)) (h domHist, s *domSim) {
	r := rand.New(rand.NewSource(seed))
	mix := &domMixes[r.Intn(len(domMixes))]
	h.Nd, h.Nr, h.Seed = 1+r.Intn(2), 3+r.Intn(4), seed
	s = newDomSim(h.Nd, h.Nr)
	if prep != nil {
		prep(s)
	}
	n := 8 + r.Intn(40)
	if c != nil {
		c.begin(w, "dom", []byte(strconv.FormatInt(seed, 10)))
		defer c.end(w)
	}
	if r.Intn(3) > 0 { // start from something
		for d := 1; d <= h.Nd; d++ {
			budget := 4 + r.Intn(12)
			e := domEv{Op: "parse", D: d, Dst: d, Vals: []int{}, Path: []string{}, Tree: domGenTree(r, &budget, 0)}
			var b strings.Builder
			e.Tree.text(&b, "")
			e.Text = b.String()
			if !s.apply(&e) {
				return
			}
			h.Ev = append(h.Ev, e)
		}
	}
	for len(h.Ev) < n {
		e := s.gen(r, mix)
		ok := s.apply(&e)
		if !ok {
			e.Obs = nil
			h.Ev = append(h.Ev, e)
			return
		}
		h.Ev = append(h.Ev, e)
		if stats != nil {
			stats["op."+e.Op]++
			if e.Tag != "" {
				stats["tag."+e.Tag]++
			}
		}
		if len(s.fails) > 0 {
			return
		}
		total := 0
		for _, o := range e.Obs {
			total += len(o.J)
		}
		if total > 6000 {
			return
		}
	}
	return
}

func runDom(c *ctx) error {
	trace := c.create("dom.ndjson")
	c.parallel(func(w int, r *rand.Rand) {
		stats := map[string]int64{}
		for i := w; i < c.n && !c.expired(); i += c.workers {
			h, s := c.history(w, c.seed*1000000007+int64(i), stats, nil)
			for _, f := range s.fails {
				c.fail(f.msg, h, f.props...)
			}
			if len(s.fails) == 0 {
				trace.put(h)
			}
			if w == 0 && i < 16 {
				var ops []string
				for _, e := range h.Ev {
					ops = append(ops, e.Op)
				}
				c.addSample(strings.Join(ops, " "))
			}
		}
		for k, v := range stats {
			c.add(k, v)
		}
	})
	c.add("histories", int64(trace.n))
	trace.close()
	return nil
}

// rawDom runs the history of a journalled seed.
func rawDom(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	seed, err := strconv.ParseInt(string(bytes.TrimSpace(data)), 10, 64)
	if err != nil {
		return err
	}
	h, s := c.history(0, seed, nil, nil)
	for _, f := range s.fails {
		c.fail(f.msg, h, f.props...)
	}
	return nil
}

// rerunDom repeats the calls of a recorded history and logs what is seen now.
func rerunDom(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	var h domHist
	if err := json.Unmarshal(data, &h); err != nil {
		return err
	}
	if len(h.Ev) == 0 {
		return errors.New("no events")
	}
	s := newDomSim(h.Nd, h.Nr)
	for i := range h.Ev {
		ok := s.apply(&h.Ev[i])
		for _, f := range s.fails {
			c.fail(f.msg, h, f.props...)
		}
		if !ok || len(s.fails) > 0 {
			return nil
		}
	}
	t := c.create("dom.ndjson")
	t.put(h)
	t.close()
	return nil
}

// runDomTests replays behaviours generated by TLC: each line is the calls and what every reference must show in the end.
func runDomTests(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(lines); i += c.workers {
			var h struct {
				domHist
				Want []domObs `json:"want"`
			}
			if err := json.Unmarshal(lines[i], &h); err != nil {
				panic(fmt.Sprintf("%v: %s", err, lines[i]))
			}
			c.begin(w, "dom-test", lines[i])
			s := newDomSim(h.Nd, h.Nr)
			for k := range h.Ev {
				e := &h.Ev[k]
				if e.Tree != nil {
					var b strings.Builder
					e.Tree.text(&b, "")
					e.Text = b.String()
				}
				s.tag(e)
				if !s.apply(e) {
					break
				}
			}
			for _, f := range s.fails {
				c.fail(f.msg, h.domHist, f.props...)
			}
			if len(s.fails) == 0 {
				last := h.Ev[len(h.Ev)-1]
				for q := range h.Want {
					if h.Want[q] != last.Obs[q] {
						c.fail(fmt.Sprintf("after %s reference %d shows %+v, the specification %+v", last.Op, q+1, last.Obs[q], h.Want[q]), h.domHist, domProps(last, h.Want[q].D)...)
						break
					}
				}
			}
			c.end(w)
		}
	})
	c.add("tests", int64(len(lines)))
	return nil
}

// domProps names the properties a wrong observation after a call is about.
func domProps(e domEv, live bool) (p []string) {
	switch e.Op {
	case "get", "index", "iter", "lookup", "kids", "root", "copyref":
		p = []string{"C05"}
	case "conv":
		p = []string{"C05", "C25"}
	case "new":
		p = []string{"C14"}
	case "parse":
		p = []string{"C01"}
	case "parsebad":
		p = []string{"C02"}
	case "reset":
		p = []string{"C08"}
	case "set", "append", "replace":
		p = []string{"C06", "C07"}
	case "write":
		p = []string{"C06", "C14"}
	default:
		p = []string{"C06"}
	}
	if strings.Contains(e.Tag, "reused") {
		p = append(p, "C09")
	}
	if strings.Contains(e.Tag, "stale") || !live {
		p = append(p, "C08")
	}
	return
}

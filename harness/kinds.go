package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"sort"

	"github.com/alxarch/njson"
)

func init() {
	areas["kinds"] = runKinds
	areas["kinds-rerun"] = runKinds
	areas["kinds-raw"] = runKinds
}

var kindBits = map[string]njson.Type{
	"InvalidToken": njson.TypeInvalid, "String": njson.TypeString, "Object": njson.TypeObject, "Array": njson.TypeArray,
	"Number": njson.TypeNumber, "Boolean": njson.TypeBoolean, "Null": njson.TypeNull,
}

var kindTexts = map[string][]string{
	"String":  {`""`, `"a"`, `"12"`, `"1.5"`, `"true"`, `"null"`, `"0"`, `"\u0031"`, `"{}"`},
	"Object":  {`{}`, `{"0":1}`, `{"a":{"a":1}}`, `{"":""}`},
	"Array":   {`[]`, `[1]`, `[[],{}]`, `["a",true]`},
	"Number":  {`0`, `1`, `12`, `7e0`, `250`},
	"Boolean": {`true`, `false`},
	"Null":    {`null`},
}

var kindWord = regexp.MustCompile(`String|Object|Array|Number|Boolean|Null|InvalidToken|AnyValue`)

// namedKinds gives the set of kinds a message names.
func namedKinds(msg string) []string {
	set := map[string]bool{}
	for _, w := range kindWord.FindAllString(msg, -1) {
		if w == "AnyValue" {
			for k := range kindTexts {
				set[k] = true
			}
			continue
		}
		set[w] = true
	}
	return keysOf(set)
}

func keysOf(set map[string]bool) []string {
	s := []string{}
	for k := range set {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

type recUnmarshaler struct {
	calls int
	data  []byte
}

func (u *recUnmarshaler) UnmarshalJSON(b []byte) error {
	u.calls++
	u.data = append([]byte(nil), b...)
	return nil
}
func (u *recUnmarshaler) UnmarshalText(b []byte) error { return u.UnmarshalJSON(b) }

// kindNodes gives references of a kind made in every way.
func kindNodes(kind string) map[string]njson.Node {
	out := map[string]njson.Node{}
	if kind == "InvalidToken" {
		d := new(njson.Document)
		n, _, _ := d.Parse(`{"a":[1]}`)
		out["missing key"] = n.Get("b")
		out["missing element"] = n.Get("a").Index(1)
		out["no document"] = njson.Node{}
		e := new(njson.Document)
		out["empty document"] = e.Root()
		s := new(njson.Document)
		m, _, _ := s.Parse(`[true]`)
		s.Reset()
		out["stale"] = m
		m2, _, _ := d.Parse(`[`)
		out["failed parse"] = m2
		out["beyond"] = n.With(1000)
		return out
	}
	for _, t := range kindTexts[kind] {
		d := new(njson.Document)
		n, _, err := d.Parse(t)
		if err != nil {
			panic(err)
		}
		out["parsed "+t] = n
		a, _, _ := d.Parse("[0," + t + "]")
		out["element "+t] = a.Index(1)
		o := d.Object()
		o.Set("k", a.Index(1))
		out["copied "+t] = o.Get("k")
	}
	d := new(njson.Document)
	over := func(name string, f func(n njson.Node)) {
		for k, ts := range kindTexts {
			n, _, _ := d.Parse(ts[len(ts)-1])
			f(n)
			out[name+" over "+k] = n
		}
	}
	switch kind {
	case "String":
		out["created"] = d.Text("12")
		over("SetString", func(n njson.Node) { n.SetString("12") })
		over("SetStringRaw", func(n njson.Node) { n.SetStringRaw("12") })
		over("SetStringHTML", func(n njson.Node) { n.SetStringHTML("12") })
	case "Object":
		out["created"] = d.Object()
	case "Array":
		out["created"] = d.Array()
	case "Number":
		out["created"] = d.Number(12)
		over("SetInt", func(n njson.Node) { n.SetInt(12) })
		over("SetUint", func(n njson.Node) { n.SetUint(12) })
		over("SetFloat", func(n njson.Node) { n.SetFloat(12) })
	case "Boolean":
		out["created"] = d.True()
		out["created false"] = d.False()
		over("SetTrue", func(n njson.Node) { n.SetTrue() })
		over("SetFalse", func(n njson.Node) { n.SetFalse() })
	case "Null":
		out["created"] = d.Null()
		over("SetNull", func(n njson.Node) { n.SetNull() })
	}
	return out
}

// reads reports which reads of a reference give something.
func reads(n njson.Node) (ok map[string]bool, bad string) {
	ok = map[string]bool{}
	note := func(r string, success, empty bool) {
		if success {
			ok[r] = true
		} else if !empty {
			bad += fmt.Sprintf("%s fails but gives a value; ", r)
		}
	}
	b, y := n.ToBool()
	note("bool", y, !b)
	i, y := n.ToInt()
	note("int", y, i == 0)
	u, y := n.ToUint()
	note("uint", y, u == 0)
	f, y := n.ToFloat()
	note("float", y, f == 0 || f != f)
	x, y := n.ToInterface()
	note("any", y, x == nil)
	c := n.Get("0")
	note("get", n.Get("0").Type() != 0 || n.Get("a").Type() != 0 || n.Get("").Type() != 0, c.Raw() == "")
	note("index", n.Index(0).Type() != 0, true)
	it := n.Values()
	note("iterate", it.Len() > 0, !it.Next())
	ru := &recUnmarshaler{}
	err := n.WrapUnmarshalJSON(ru)
	note("json", err == nil && ru.calls == 1, ru.calls == 0)
	ru = &recUnmarshaler{}
	err = n.WrapUnmarshalText(ru)
	note("utext", err == nil && ru.calls == 1, ru.calls == 0)
	note("text", n.Unescaped() != "", true)
	return
}

// runKinds replays the cases of MCKinds on the real code.
func runKinds(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(id int, r *rand.Rand) {
		nodes := map[string]map[string]njson.Node{}
		for k := range kindBits {
			nodes[k] = kindNodes(k)
		}
		for i := id; i < len(lines); i += c.workers {
			c.begin(id, "kinds", lines[i])
			if msg := try(func() { kindCase(c, nodes, lines[i]) }); msg != "" {
				c.fail(msg, json.RawMessage(lines[i]), "C25")
			}
			c.end(id)
		}
	})
	c.add("tests", int64(len(lines)))
	return nil
}

func kindCase(c *ctx, nodes map[string]map[string]njson.Node, line []byte) {
	var t struct {
		T, Kind, Name  string
		Mask           int
		Members, Names []string
		Reads          []string
		Wanted         map[string][]string
	}
	if err := json.Unmarshal(line, &t); err != nil {
		panic(err)
	}
	raw := json.RawMessage(append([]byte(nil), line...))
	fail := func(f string, x ...interface{}) { c.fail(fmt.Sprintf(f, x...), raw, "C25") }
	switch t.T {
	case "mask":
		m := njson.Type(t.Mask)
		got := []string{}
		for _, k := range m.Types() {
			if k != 1 {
				got = append(got, k.String())
			}
		}
		if !reflect.DeepEqual(got, append([]string{}, t.Members...)) {
			fail("mask %d decomposes into %v, want %v", t.Mask, got, t.Members)
		}
		if t.Mask&1 == 0 && m.String() != t.Name {
			fail("mask %d is named %q, want %q", t.Mask, m.String(), t.Name)
		}
		if m.IsValue() != (len(t.Members) > 0) {
			fail("mask %d: IsValue is %v", t.Mask, m.IsValue())
		}
	case "error":
		if t.Mask&1 != 0 || t.Mask == 0 {
			return
		}
		want := map[string]bool{}
		for _, k := range t.Names {
			want[k] = true
		}
		for how, n := range nodes[t.Kind] {
			err := n.TypeError(njson.Type(t.Mask))
			if err == nil {
				fail("%s: no error", how)
			} else if got := namedKinds(err.Error()); !reflect.DeepEqual(got, keysOf(want)) {
				fail("%s: the error %q names %v, want %v", how, err, got, keysOf(want))
			}
		}
	case "read":
		for how, n := range nodes[t.Kind] {
			if n.Type() != kindBits[t.Kind] || n.Type().String() != t.Kind {
				fail("%s: the kind is %s, want %s", how, n.Type(), t.Kind)
			}
			if raw, typ := n.Data(); typ != n.Type() || raw != n.Raw() {
				fail("%s: Data gives %q %s, Raw %q", how, raw, typ, n.Raw())
			}
			ok, bad := reads(n)
			if bad != "" {
				fail("%s: %s", how, bad)
			}
			can := map[string]bool{}
			for _, r := range t.Reads {
				can[r] = true
			}
			for r := range ok {
				if !can[r] {
					fail("%s: read as %s although it is a %s", how, r, t.Kind)
				}
			}
			for _, r := range []string{"bool", "int", "uint", "float", "any", "json", "utext"} {
				if can[r] && !ok[r] {
					fail("%s: cannot be read as %s although it is a %s", how, r, t.Kind)
				}
			}
			for r, err := range map[string]error{"json": n.WrapUnmarshalJSON(&recUnmarshaler{}), "utext": n.WrapUnmarshalText(&recUnmarshaler{})} {
				if can[r] {
					continue
				}
				want := map[string]bool{t.Kind: true}
				for _, k := range t.Wanted[r] {
					want[k] = true
				}
				if err == nil {
					fail("%s: reading as %s reports no error", how, r)
				} else if got := namedKinds(err.Error()); !reflect.DeepEqual(got, keysOf(want)) {
					fail("%s: reading as %s fails with %q, which names %v, want %v", how, r, err, got, keysOf(want))
				}
			}
		}
	}
}

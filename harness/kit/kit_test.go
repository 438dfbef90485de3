// Package kit runs cases of the test kit inside a real test, where a subtest
// can fail, and records which did.
package kit

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/njsontest"
)

type value struct {
	Form string `json:"form"`
	Typ  string `json:"typ"`
	V    string `json:"v"`
}

type opt struct {
	O    string `json:"o"`
	K    string `json:"k"`
	S    string `json:"s"`
	Form string `json:"form"`
	Typ  string `json:"typ"`
	V    string `json:"v"`
}

type does struct {
	K   string `json:"k"`
	S   string `json:"s"`
	Err string `json:"err"`
}

type kase struct {
	API  string `json:"api"`
	X    value  `json:"x"`
	Opts []opt  `json:"opts"`
	Do   does   `json:"do"`
}

type record struct {
	Case kase     `json:"case"`
	Got  []string `json:"got"` // pass, fail or panic, of each run of the case
	Msg  string   `json:"msg,omitempty"`
}

// ---------------------------------------------------------------- the types under test

// do is what the methods under test do.
var do does

type ownErr struct{}

func (*ownErr) Error() string { return "typed" }

var (
	errOne = errors.New("boom one")
	errTwo = errors.New("boom two")
	errPtr = error((*ownErr)(nil))
)

func errOf(s string) error {
	switch s {
	case "one":
		return errOne
	case "two":
		return errTwo
	case "ptr":
		return errPtr
	}
	return nil
}

func appendV(b []byte, v string) ([]byte, error) {
	switch do.K {
	case "echo":
		b = append(b, v...)
	case "fixed":
		b = append(b, do.S...)
	}
	return b, errOf(do.Err)
}

func storeV(v *string, n njson.Node) error {
	if v != nil {
		switch do.K {
		case "echo":
			b, _ := n.AppendJSON(nil)
			*v = string(b)
		case "fixed":
			*v = do.S
		}
	}
	return errOf(do.Err)
}

func marshalV(v string) ([]byte, error) {
	switch v {
	case "":
		return []byte("null"), nil
	case "!":
		return nil, errors.New("no JSON")
	}
	return []byte(v), nil
}

type std struct{ V string }

func (x std) MarshalJSON() ([]byte, error)          { return marshalV(x.V) }
func (x std) AppendJSON(b []byte) ([]byte, error)   { return appendV(b, x.V) }
func (x std) Other(b []byte) ([]byte, error)        { return appendV(b, x.V) }
func (x std) hidden(b []byte) ([]byte, error)       { return appendV(b, x.V) }
func (x *std) UnmarshalNodeJSON(n njson.Node) error { return storeV(x.p(), n) }
func (x *std) OtherNode(n njson.Node) error         { return storeV(x.p(), n) }
func (x *std) p() *string {
	if x == nil {
		return nil
	}
	return &x.V
}

type odds struct{ V string }

type bytesOf []byte

func (x odds) NoArgs() ([]byte, error)             { return nil, nil }
func (x odds) NoErr(b []byte) []byte               { return b }
func (x odds) Strings(s string) (string, error)    { return s, nil }
func (x odds) Variadic(b ...byte) ([]byte, error)  { return b, nil }
func (x odds) Named(b bytesOf) (bytesOf, error)    { return b, nil }
func (x odds) Three(b []byte) ([]byte, error, int) { return b, nil, 0 }
func (x odds) NodePtr(*njson.Node) error           { return nil }
func (x odds) NodeOnly(njson.Node)                 {}
func (x odds) NodeString(string) error             { return nil }
func (x odds) NodeBool(njson.Node) bool            { return true }
func (x odds) NodeOwn(njson.Node) *ownErr          { return nil }
func (x odds) MarshalJSON() ([]byte, error)        { return marshalV(x.V) }

type odd struct{ odds }

func (x odd) AppendJSON(b []byte) (string, error)       { return x.V, nil }
func (x odd) UnmarshalNodeJSON(n njson.Node) njson.Node { return n }

type ptr struct{ V string }

func (x ptr) MarshalJSON() ([]byte, error) { return marshalV(x.V) }
func (x *ptr) AppendJSON(b []byte) ([]byte, error) {
	if x == nil {
		return appendV(b, "")
	}
	return appendV(b, x.V)
}
func (x *ptr) UnmarshalNodeJSON(n njson.Node) error {
	if x == nil {
		return storeV(nil, n)
	}
	return storeV(&x.V, n)
}

type none struct{ V string }

func (x none) MarshalJSON() ([]byte, error) { return marshalV(x.V) }

type mapT map[string]string

func (x mapT) MarshalJSON() ([]byte, error)        { return marshalV(x["v"]) }
func (x mapT) AppendJSON(b []byte) ([]byte, error) { return appendV(b, x["v"]) }
func (x mapT) UnmarshalNodeJSON(n njson.Node) error {
	v := x["v"]
	err := storeV(&v, n)
	if x != nil {
		x["v"] = v
	}
	return err
}

// make makes a value of a case.
func (v value) make() interface{} {
	if v.Form == "nil" {
		return nil
	}
	m := mapT(nil)
	if v.V != "" {
		m = mapT{"v": v.V}
	}
	switch v.Typ + " " + v.Form {
	case "std value":
		return std{v.V}
	case "std ptr":
		return &std{v.V}
	case "std nilptr":
		return (*std)(nil)
	case "ptr value":
		return ptr{v.V}
	case "ptr ptr":
		return &ptr{v.V}
	case "ptr nilptr":
		return (*ptr)(nil)
	case "none value":
		return none{v.V}
	case "none ptr":
		return &none{v.V}
	case "none nilptr":
		return (*none)(nil)
	case "odd value":
		return odd{odds{v.V}}
	case "odd ptr":
		return &odd{odds{v.V}}
	case "map value":
		return m
	case "map ptr":
		return &m
	}
	panic("no value " + fmt.Sprint(v))
}

type badReader struct{ r io.Reader }

func (b badReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("cannot read")
	}
	return n, err
}

func (o opt) make() njsontest.Option {
	switch o.O {
	case "none":
		return nil
	case "method":
		return njsontest.Method(o.S)
	case "value":
		return njsontest.Value(value{o.Form, o.Typ, o.V}.make())
	case "json":
		switch o.K {
		case "text":
			return njsontest.JSON(o.S)
		case "bytes":
			return njsontest.JSON([]byte(o.S))
		case "func":
			return njsontest.JSON(func() ([]byte, error) { return []byte(o.S), nil })
		case "funcerr":
			return njsontest.JSON(func() ([]byte, error) { return []byte("1"), errors.New("no data") })
		case "reader":
			return njsontest.JSON(bufio.NewReader(strings.NewReader(o.S)))
		case "readerr":
			return njsontest.JSON(badReader{strings.NewReader("1")})
		case "nil":
			return njsontest.JSON(nil)
		case "value":
			return njsontest.JSON(7)
		case "chan":
			return njsontest.JSON(make(chan int))
		}
	case "error":
		switch o.K {
		case "nil":
			return njsontest.Error(nil)
		case "true":
			return njsontest.Error(true)
		case "false":
			return njsontest.Error(false)
		case "is":
			return njsontest.Error(errOf(o.S))
		case "string":
			return njsontest.Error(o.S)
		case "regexp":
			if o.S == "" {
				return njsontest.Error((*regexp.Regexp)(nil))
			}
			return njsontest.Error(regexp.MustCompile("^.*" + o.S))
		case "func":
			var f func(error) error
			if o.S != "" {
				f = func(err error) error {
					if o.S == "all" || errOf(o.S) != nil && errOf(o.S) == err {
						return nil
					}
					return errors.New("wrong error")
				}
			}
			return njsontest.Error(f)
		}
	}
	panic("no option " + fmt.Sprint(o))
}

// run runs a case; twice, unless the second run would start from what the first left.
func (k kase) run(t *testing.T) (r record) {
	r.Case = k
	var f func(*testing.T)
	runs := 2
	do = k.Do
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Msg = fmt.Sprintf("%v\n%s", e, debug.Stack())
				r.Got = append(r.Got, "panic")
			}
		}()
		var opts []njsontest.Option
		for _, o := range k.Opts {
			if o.O == "value" {
				runs = 1
			}
			opts = append(opts, o.make())
		}
		if k.API == "append" {
			f = njsontest.AppendJSON(k.X.make(), opts...)
		} else {
			f = njsontest.Unmarshal(k.X.make(), opts...)
		}
	}()
	for i := 0; i < runs && r.Msg == ""; i++ {
		got := "fail"
		if t.Run("case", func(t *testing.T) {
			defer func() {
				if e := recover(); e != nil {
					r.Msg = fmt.Sprintf("%v\n%s", e, debug.Stack())
					got = "panic"
				}
			}()
			f(t)
		}) && got != "panic" {
			got = "pass"
		}
		r.Got = append(r.Got, got)
	}
	if len(r.Msg) > 1500 {
		r.Msg = r.Msg[:1500]
	}
	return
}

// ---------------------------------------------------------------- random cases

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var types = []string{"std", "std", "ptr", "none", "odd", "map"}

func randValue(r *rand.Rand, ref value) value {
	v := value{pick(r, "value", "ptr", "ptr"), types[r.Intn(len(types))], pick(r, "", "1", "2", `"a"`, "[]", "null", `{"a":1}`)}
	if ref.Typ != "" && r.Intn(3) > 0 {
		v.Typ = ref.Typ
	}
	if r.Intn(12) == 0 && v.Typ != "odd" && v.Typ != "map" {
		v.Form, v.V = "nilptr", ""
	}
	return v
}

func randCase(r *rand.Rand) (k kase) {
	k.API = pick(r, "append", "unmarshal")
	k.X = randValue(r, value{})
	if r.Intn(30) == 0 {
		k.X = value{Form: "nil"}
	} else if r.Intn(20) == 0 && (k.X.Typ == "std" || k.X.Typ == "map") && k.X.Form != "nilptr" {
		k.X.V = "!"
	}
	if k.API == "append" && k.X.Form == "nilptr" && k.X.Typ == "std" {
		k.X.Form = "ptr"
	}
	k.Do = does{K: pick(r, "echo", "echo", "echo", "fixed", "none"), Err: pick(r, "", "", "", "one", "two", "ptr")}
	if k.Do.K == "fixed" {
		k.Do.S = pick(r, "1", "2", `"a"`, "[]", "null", " 1 ")
		if k.X.V != "" && r.Intn(2) == 0 {
			k.Do.S = k.X.V
		}
	}
	k.Opts = []opt{}
	for n := r.Intn(5); n > 0; n-- {
		var o opt
		switch r.Intn(9) {
		case 0, 1:
			o = opt{O: "method", S: pick(r, "AppendJSON", "UnmarshalNodeJSON", "Other", "OtherNode", "Missing", "Three", "Named", "NodeOwn", "hidden", "NodeString")}
			if r.Intn(2) == 0 {
				o.S = map[string]string{"append": "AppendJSON", "unmarshal": "UnmarshalNodeJSON"}[k.API]
			}
		case 2, 3, 4:
			o = opt{O: "json", K: pick(r, "text", "bytes", "func", "reader", "text", "reader", "nil", "value", "funcerr", "readerr", "chan")}
			if strings.Contains("text bytes func reader", o.K) {
				if o.S = k.X.V; r.Intn(2) == 0 || o.S == "!" {
					o.S = pick(r, "1", " 1 ", "2", `"a"`, "[]", "[ ]", "null", "{", "", "[1", "tru", `{"a":1}`)
				}
			}
		case 5:
			if k.API == "unmarshal" {
				v := randValue(r, k.X)
				o = opt{O: "value", Form: v.Form, Typ: v.Typ, V: v.V}
				if r.Intn(8) == 0 {
					o = opt{O: "value", Form: "nil"}
				}
			} else {
				o.O = "none"
			}
		case 6, 7:
			o = opt{O: "error", K: pick(r, "nil", "true", "false", "is", "string", "regexp", "func")}
			switch o.K {
			case "is":
				o.S = pick(r, "one", "two", "ptr")
			case "string", "regexp":
				o.S = pick(r, "", "boom", "one", "two", "zzz", "typed")
			case "func":
				o.S = pick(r, "", "all", "one", "two", "none")
			}
		default:
			o.O = "none"
		}
		k.Opts = append(k.Opts, o)
	}
	return
}

func TestKit(t *testing.T) {
	in, out := os.Getenv("VH_IN"), os.Getenv("VH_OUT")
	n, _ := strconv.Atoi(os.Getenv("VH_N"))
	seed, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	g, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	defer g.Close()
	w := bufio.NewWriterSize(g, 1<<16)
	defer w.Flush()
	put := func(r record) {
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	if in != "" {
		f, err := os.Open(in)
		if err != nil {
			t.Fatal(err)
		}
		s := bufio.NewScanner(f)
		for s.Scan() {
			var x struct {
				Case kase  `json:"case"`
				Pass *bool `json:"pass"`
			}
			if err := json.Unmarshal(s.Bytes(), &x); err != nil {
				t.Fatal(err)
			}
			r := x.Case.run(t)
			want := "fail"
			if x.Pass != nil && *x.Pass {
				want = "pass"
			}
			for _, g := range r.Got {
				if x.Pass == nil || g != want { // what the specification expected goes unlogged
					put(r)
					break
				}
			}
		}
		return
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < n; i++ {
		put(randCase(r).run(t))
	}
}

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
)

// ---- methods of the instrumented types (see Codec.tla)
var errCustom = errors.New("custom error")

func mAppend(out []byte, s string) ([]byte, error) {
	if strings.Contains(s, "!") {
		return out, errCustom
	}
	return append(append(append(out, '['), orNull(s)...), ']'), nil
}

func mJSON(s string) ([]byte, error) {
	if strings.Contains(s, "!") {
		return nil, errCustom
	}
	return []byte(orNull(s)), nil
}

// orNull is what an empty payload is written as.
func orNull(s string) string {
	if s == "" {
		return "null"
	}
	return s
}

func mText(s string) ([]byte, error) {
	if strings.Contains(s, "!") {
		return nil, errCustom
	}
	return []byte("~" + s), nil
}

func uJSON(b []byte) (string, error) {
	s := string(b)
	if strings.Contains(s, "!") {
		return "", errCustom
	}
	return s, nil
}

func uText(b []byte) (string, error) {
	s, err := uJSON(b)
	if err != nil {
		return "", err
	}
	if strings.HasPrefix(s, "~") {
		return s[1:], nil
	}
	return s + "?", nil
}

func uNode(n njson.Node) (string, error) {
	b, err := n.AppendJSON(nil)
	if err != nil {
		return "", err
	}
	s, err := uJSON(b)
	if err != nil {
		return "", err
	}
	if len(s) >= 2 && s[0] == '[' {
		return s[1 : len(s)-1], nil
	}
	return s + "?", nil
}

// ---- descriptors
type tdesc struct {
	K    string    `json:"k"`
	Name string    `json:"nm,omitempty"`  // generated code: the name of a defined type
	Ext  *bool     `json:"ext,omitempty"` // generated code: a struct of another package
	Bits int       `json:"bits,omitempty"`
	N    *int      `json:"n,omitempty"`
	E    *tdesc    `json:"e,omitempty"`
	Key  *tdesc    `json:"key,omitempty"`
	F    *[]fdesc  `json:"f,omitempty"`
	Lib  string    `json:"lib,omitempty"`
	U    *tdesc    `json:"u,omitempty"`
	Enc  *[]string `json:"enc,omitempty"`
	Penc *bool     `json:"penc,omitempty"`
	Dec  *[]string `json:"dec,omitempty"`
	Omit *[]omit   `json:"omit,omitempty"`
}

type omit struct {
	Name string `json:"name"`
	When []int  `json:"when"`
}

type fdesc struct {
	Name []int  `json:"name"`
	Exp  bool   `json:"exp"`
	Emb  bool   `json:"emb"`
	Tags []ftag `json:"tags"`
	T    *tdesc `json:"t"`
}

type ftag struct {
	Key string `json:"key"`
	Val []int  `json:"val"`
}

type libType struct {
	typ    reflect.Type
	custom *tdesc
}

var (
	libs     = map[string]libType{}
	libNames []string
	libOf    = map[reflect.Type]string{}
)

func split(s string) *[]string {
	x := []string{}
	if s != "" {
		x = strings.Split(s, ",")
	}
	return &x
}

func regLib(name string, zero interface{}, enc string, penc bool, dec, om string) {
	t := reflect.TypeOf(zero)
	d := &tdesc{K: "custom", Lib: name, Enc: split(enc), Penc: &penc, Dec: split(dec), Omit: &[]omit{}}
	if om != "" {
		*d.Omit = append(*d.Omit, omit{strings.Split(om, ":")[0], ints(strings.Split(om, ":")[1])})
	}
	if t.Kind() == reflect.String {
		d.U = &tdesc{K: "string"}
	} else {
		d.U = &tdesc{K: "struct", F: &[]fdesc{{Name: ints("S"), Exp: true, Tags: []ftag{}, T: &tdesc{K: "string"}}}}
	}
	libs[name] = libType{t, d}
	libNames = append(libNames, name)
	libOf[t] = name
}

func regPlain(zero interface{}) {
	t := reflect.TypeOf(zero).Elem()
	libs[t.Name()] = libType{t, nil}
	libOf[t] = t.Name()
}

// named types without methods, recursive types and embeddings reflect cannot build
type (
	NBool  bool
	NStr   string
	NInt   int8
	NUint  uint16
	NFloat float32
	NAny   interface{}
	NSlice []NInt
	NMap   map[NStr]NInt
	NArr   [2]NStr
	NFn    func()

	RList struct {
		V    int8
		Next *RList `json:"next,omitempty" x:"n"`
	}
	RTree struct {
		Kids []RTree          `json:"k,omitempty"`
		M    map[string]RTree `json:",omitempty"`
		P    **RTree
		V    string `x:"v,omitempty"`
	}
	RSlice []RSlice
	RMap   map[string]RMap
	RSelf  struct {
		A int8
		*RSelf
	}
	RA struct {
		B *RB `json:"b"`
		I interface{}
	}
	RB struct {
		A []RA
		C [1]*RB
		RC
	}
	RC struct {
		X, Y int16
		M    map[NStr][]*RA
	}

	embU struct {
		X int8
		y int8
		Z string `json:"z"`
	}
	EmbD struct {
		embU
		X string // hides embU.X
	}
	embP struct {
		*EmbD
		W bool
	}
	SU struct {
		embU
		A int8
	}
	SD struct {
		Z NStr
		EmbD
		Q int8 `json:"z,omitempty"` // hides EmbD.embU.Z
	}
	SP struct {
		embP
		NStr
		*NInt
		y NStr
		Y NStr
	}
)

func init() {
	for _, x := range []interface{}{new(NBool), new(NStr), new(NInt), new(NUint), new(NFloat), new(NAny), new(NSlice), new(NMap), new(NArr),
		new(RList), new(RTree), new(RSlice), new(RMap), new(RSelf), new(RA), new(RB), new(SU), new(SD), new(SP)} {
		regPlain(x)
	}
}

var typAny = reflect.TypeOf((*interface{})(nil)).Elem()

// describe gives the descriptor of a type; recursive types are unrolled lim times.
func describe(t reflect.Type, lim int, on map[reflect.Type]int) *tdesc {
	if on == nil {
		on = map[reflect.Type]int{}
	}
	lib := libOf[t]
	if c := libs[lib].custom; lib != "" && c != nil {
		return c
	}
	if t.Name() != "" {
		if on[t] > lim {
			return &tdesc{K: "struct", F: &[]fdesc{}}
		}
		on[t]++
		defer func() { on[t]-- }()
	}
	d := &tdesc{Lib: lib}
	switch k := t.Kind(); k {
	case reflect.Bool:
		d.K = "bool"
	case reflect.String:
		d.K = "string"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.K, d.Bits = "int", t.Bits()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.K, d.Bits = "uint", t.Bits()
	case reflect.Float32, reflect.Float64:
		d.K, d.Bits = "float", t.Bits()
	case reflect.Interface:
		d.K = "any"
		if t.NumMethod() > 0 {
			d.K = "bad"
		}
	case reflect.Ptr:
		d.K, d.E = "ptr", describe(t.Elem(), lim, on)
	case reflect.Slice:
		d.K, d.E = "slice", describe(t.Elem(), lim, on)
	case reflect.Array:
		n := t.Len()
		d.K, d.N, d.E = "array", &n, describe(t.Elem(), lim, on)
	case reflect.Map:
		d.K, d.Key, d.E = "map", describe(t.Key(), lim, on), describe(t.Elem(), lim, on)
	case reflect.Struct:
		d.K = "struct"
		fs := []fdesc{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fd := fdesc{Name: ints(f.Name), Exp: f.PkgPath == "", Emb: f.Anonymous, Tags: []ftag{}, T: describe(f.Type, lim, on)}
			for _, k := range []string{"json", "x"} {
				if v, ok := f.Tag.Lookup(k); ok {
					fd.Tags = append(fd.Tags, ftag{k, ints(v)})
				}
			}
			fs = append(fs, fd)
		}
		d.F = &fs
	default:
		d.K = "bad"
	}
	return d
}

// build makes the Go type a descriptor describes.
func build(d *tdesc) reflect.Type {
	if d.Lib != "" {
		return libs[d.Lib].typ
	}
	switch d.K {
	case "bool":
		return reflect.TypeOf(false)
	case "string":
		return reflect.TypeOf("")
	case "int":
		return map[int]reflect.Type{8: reflect.TypeOf(int8(0)), 16: reflect.TypeOf(int16(0)), 32: reflect.TypeOf(int32(0)), 64: reflect.TypeOf(int64(0))}[d.Bits]
	case "uint":
		return map[int]reflect.Type{8: reflect.TypeOf(uint8(0)), 16: reflect.TypeOf(uint16(0)), 32: reflect.TypeOf(uint32(0)), 64: reflect.TypeOf(uint64(0))}[d.Bits]
	case "float":
		if d.Bits == 32 {
			return reflect.TypeOf(float32(0))
		}
		return reflect.TypeOf(float64(0))
	case "any":
		return typAny
	case "ptr":
		return reflect.PtrTo(build(d.E))
	case "slice":
		return reflect.SliceOf(build(d.E))
	case "array":
		return reflect.ArrayOf(*d.N, build(d.E))
	case "map":
		return reflect.MapOf(build(d.Key), build(d.E))
	case "struct":
		fs := []reflect.StructField{}
		for _, f := range *d.F {
			sf := reflect.StructField{Name: fromInts(f.Name), Type: build(f.T), Anonymous: f.Emb}
			if !f.Exp {
				sf.PkgPath = "vh"
			}
			tags := []string{}
			for _, t := range f.Tags {
				tags = append(tags, t.Key+":"+strconv.Quote(fromInts(t.Val)))
			}
			sf.Tag = reflect.StructTag(strings.Join(tags, " "))
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	return reflect.TypeOf(make(chan int))
}

// ---- values
type mss = map[string]interface{}

// dump gives the log form of a value. bad is set when a payload that has to be JSON is not.
func dump(v reflect.Value, lim int) mss {
	t := v.Type()
	if c := libs[libOf[t]].custom; c != nil {
		s := ""
		x := mss{"k": "c"}
		if t.Kind() == reflect.String {
			s = v.String()
			x["v"] = mss{"k": "s", "s": ints(s)}
		} else {
			s = v.Field(0).String()
			x["v"] = mss{"k": "f", "f": []mss{{"k": "s", "s": ints(s)}}}
		}
		if j, _ := parseTree(orNull(s), false, true); j != nil {
			x["j"] = j
		} else {
			x["j"] = mss{"k": "none"}
		}
		return x
	}
	switch t.Kind() {
	case reflect.Bool:
		return mss{"k": "b", "b": v.Bool()}
	case reflect.String:
		return mss{"k": "s", "s": ints(v.String())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mss{"k": "n", "n": ints(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return mss{"k": "n", "n": ints(strconv.FormatUint(v.Uint(), 10))}
	case reflect.Float32, reflect.Float64:
		return mss{"k": "n", "n": ints(floatText(v.Float(), t.Bits()))}
	case reflect.Array:
		return mss{"k": "a", "a": dumpEls(v, lim)}
	case reflect.Struct:
		fs := []mss{}
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, dump(v.Field(i), lim))
		}
		return mss{"k": "f", "f": fs}
	case reflect.Ptr:
		if !v.IsNil() {
			return mss{"k": "p", "p": dump(v.Elem(), lim)}
		}
	case reflect.Slice:
		if !v.IsNil() {
			return mss{"k": "a", "a": dumpEls(v, lim)}
		}
	case reflect.Map:
		if !v.IsNil() {
			type kv struct {
				Key []int `json:"key"`
				V   mss   `json:"v"`
				s   string
			}
			m := []kv{}
			for _, k := range v.MapKeys() {
				s := ""
				if k.Kind() == reflect.String {
					s = k.String()
				} else {
					s = k.Field(0).String()
				}
				m = append(m, kv{ints(s), dump(v.MapIndex(k), lim), s})
			}
			sort.Slice(m, func(i, j int) bool { return m[i].s < m[j].s })
			return mss{"k": "m", "m": m}
		}
	case reflect.Interface:
		if !v.IsNil() {
			return mss{"k": "any", "t": describe(v.Elem().Type(), lim, nil), "v": dump(v.Elem(), lim)}
		}
	}
	return mss{"k": "nil"}
}

func dumpEls(v reflect.Value, lim int) []mss {
	a := []mss{}
	for i := 0; i < v.Len(); i++ {
		a = append(a, dump(v.Index(i), lim))
	}
	return a
}

// depth counts the containers around the innermost part of a logged value or tree.
func depth(x interface{}) int {
	d := 0
	switch x := x.(type) {
	case map[string]interface{}:
		for k, y := range x {
			switch k {
			case "v", "p", "a", "m", "f":
				if n := depth(y); n > d {
					d = n
				}
			}
		}
		switch x["k"] {
		case "a", "m", "f", "arr", "obj":
			d++
		}
	case []interface{}:
		for _, y := range x {
			if n := depth(y); n > d {
				d = n
			}
		}
	}
	return d
}

// plain turns a log form into what encoding/json reads back.
func plain(x interface{}) interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y interface{}
	if err := json.Unmarshal(b, &y); err != nil {
		panic(err)
	}
	return y
}

func bytesOf(x interface{}) string {
	b := []byte{}
	for _, c := range x.([]interface{}) {
		b = append(b, byte(c.(float64)))
	}
	return string(b)
}

// fill stores a logged value (in plain form). Slices get spare room with stale contents.
func fill(v reflect.Value, x map[string]interface{}) {
	t := v.Type()
	if x["k"] == "nil" {
		if v.CanSet() {
			v.Set(reflect.Zero(t))
		}
		return
	}
	if !v.CanSet() { // unexported
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(x["b"].(bool))
	case reflect.String:
		if x["k"] == "c" {
			x = x["v"].(map[string]interface{})
		}
		v.SetString(bytesOf(x["s"]))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(bytesOf(x["n"]), 10, 64)
		must(err)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(bytesOf(x["n"]), 10, 64)
		must(err)
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		switch s := bytesOf(x["n"]); s {
		case "NaN":
			v.SetFloat(math.NaN())
		default:
			f, err := strconv.ParseFloat(s, t.Bits())
			must(err)
			v.SetFloat(f)
		}
	case reflect.Array:
		for i, y := range x["a"].([]interface{}) {
			fill(v.Index(i), y.(map[string]interface{}))
		}
	case reflect.Slice:
		a := x["a"].([]interface{})
		// room for more elements in some, none in others
		s := reflect.MakeSlice(t, len(a), len(a)+3*(len(a)%2))
		for i, y := range a {
			fill(s.Index(i), y.(map[string]interface{}))
		}
		all := s.Slice(0, s.Cap())
		for i := len(a); i < all.Len(); i++ {
			stale(all.Index(i), 3)
		}
		v.Set(s)
	case reflect.Struct:
		if x["k"] == "c" {
			x = x["v"].(map[string]interface{})
		}
		for i, y := range x["f"].([]interface{}) {
			f := v.Field(i)
			if !f.CanSet() && t.Field(i).Anonymous && f.Kind() == reflect.Struct {
				for j, z := range y.(map[string]interface{})["f"].([]interface{}) {
					fill(f.Field(j), z.(map[string]interface{}))
				}
				continue
			}
			fill(f, y.(map[string]interface{}))
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		fill(v.Elem(), x["p"].(map[string]interface{}))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for _, e := range x["m"].([]interface{}) {
			e := e.(map[string]interface{})
			k, y := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if s := bytesOf(e["key"]); k.Kind() == reflect.String {
				k.SetString(s)
			} else {
				k.Field(0).SetString(s)
			}
			fill(y, e["v"].(map[string]interface{}))
			v.SetMapIndex(k, y)
		}
	case reflect.Interface:
		y := reflect.New(build(undesc(x["t"]))).Elem()
		fill(y, x["v"].(map[string]interface{}))
		v.Set(y)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func undesc(x interface{}) *tdesc {
	if d, ok := x.(*tdesc); ok {
		return d
	}
	b, err := json.Marshal(x)
	must(err)
	d := new(tdesc)
	must(json.Unmarshal(b, d))
	return d
}

// stale puts something that is not zero everywhere it can.
func stale(v reflect.Value, deep int) {
	if !v.CanSet() || deep == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("stale")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(77.5)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			stale(v.Index(i), deep-1)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		stale(v.Index(0), deep-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			stale(v.Field(i), deep-1)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		stale(v.Elem(), deep-1)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		k, y := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		stale(k, deep-1)
		stale(y, deep-1)
		v.SetMapIndex(k, y)
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("stale"))
		}
	}
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case err == errCustom:
		return "custom"
	default:
		return "other"
	}
}

func show(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprint(x)
	}
	return string(b)
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
)

func init() {
	areas["nums"] = runNums
	areas["nums-tests"] = runNumTests
	areas["nums-raw"] = rawNums
	areas["nums-rerun"] = rerunNums
}

// numText is Scan of spec/Number.tla.
type numText struct {
	ok, neg, exp bool
	d            string // all digits
	point        int
}

func scanNum(s string) (n numText) {
	i := 0
	digits := func() string {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return s[j:i]
	}
	if strings.HasPrefix(s, "-") {
		n.neg = true
		i++
	}
	n.d = digits()
	if n.d == "" {
		return
	}
	n.point = len(n.d)
	if i < len(s) && s[i] == '.' {
		i++
		f := digits()
		if f == "" {
			return
		}
		n.d += f
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		n.exp = true
		i++
		sign := 1
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			if s[i] == '-' {
				sign = -1
			}
			i++
		}
		e := digits()
		if e == "" {
			return
		}
		v := 0
		for _, c := range e {
			if v <= 10000000 {
				v = v*10 + int(c-'0')
			}
		}
		n.point += sign * v
	}
	n.ok = i == len(s)
	return
}

func (n *numText) lead() int { return strings.IndexFunc(n.d, func(r rune) bool { return r != '0' }) }

// integer gives the value if it is an integer of at most 20 digits.
func (n *numText) integer() *big.Int {
	l := n.lead()
	if l < 0 {
		return new(big.Int)
	}
	if n.point-l > 20 || n.point <= l {
		return nil
	}
	d := n.d
	for len(d) < n.point {
		d += "0"
	}
	if strings.Trim(d[n.point:], "0") != "" {
		return nil
	}
	x, _ := new(big.Int).SetString(d[:n.point], 10)
	if n.neg {
		x.Neg(x)
	}
	return x
}

// float gives the nearest float.
func (n *numText) float() float64 {
	l := n.lead()
	f := 0.0
	switch {
	case l < 0 || n.point-l < -400:
	case n.point-l > 400:
		f = math.Inf(1)
	default:
		num, _ := new(big.Int).SetString(n.d, 10)
		r := new(big.Rat).SetInt(num)
		k := n.point - len(n.d)
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(absInt(k))), nil)
		if k >= 0 {
			r.Mul(r, new(big.Rat).SetInt(p))
		} else {
			r.Quo(r, new(big.Rat).SetInt(p))
		}
		f, _ = r.Float64()
	}
	if n.neg {
		f = math.Copysign(f, -1)
	}
	return f
}

func absInt(k int) int {
	if k < 0 {
		return -k
	}
	return k
}

// parts is a float as spec/Number.tla sees it.
type fparts struct {
	NaN bool  `json:"nan"`
	Inf bool  `json:"inf"`
	Neg bool  `json:"neg"`
	M   []int `json:"m"`
	E   int   `json:"e"`
}

func partsOf(f float64, bits int) fparts {
	p := fparts{M: []int{}}
	if f != f {
		p.NaN = true
		return p
	}
	p.Neg = math.Signbit(f)
	if math.IsInf(f, 0) {
		p.Inf = true
		return p
	}
	var m uint64
	if bits == 32 {
		b := math.Float32bits(float32(f))
		m, p.E = uint64(b&(1<<23-1)), int(b>>23&0xff)
		if p.E == 0 {
			p.E = -149
		} else {
			m |= 1 << 23
			p.E -= 150
		}
	} else {
		b := math.Float64bits(f)
		m, p.E = b&(1<<52-1), int(b>>52&0x7ff)
		if p.E == 0 {
			p.E = -1074
		} else {
			m |= 1 << 52
			p.E -= 1075
		}
	}
	for ; m > 0; m /= 10000 {
		p.M = append(p.M, int(m%10000))
	}
	return p
}

type numCase struct {
	Text string `json:"text"`
	Bits string `json:"bits"`
	Op   string `json:"op"`
}

type nworker struct {
	c     *ctx
	id    int
	n     int64
	k     int
	log   *ndjson
	r     *rand.Rand
	limit int
	doc   *njson.Document
}

func (w *nworker) failText(s, msg string, props ...string) {
	w.c.fail(msg, numCase{Text: s, Op: "text"}, props...)
}

func (w *nworker) failFloat(f float64, bits int, msg string, props ...string) {
	w.c.fail(msg, numCase{Text: strconv.FormatFloat(f, 'g', -1, 64), Bits: fmt.Sprintf("%d:%x", bits, math.Float64bits(f)), Op: "float"}, props...)
}

func sameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func (w *nworker) logged() bool { return w.log != nil && w.r.Intn(w.limit) == 0 }

// text checks all conversions of one text.
func (w *nworker) text(s string) {
	w.n++
	w.c.begin(w.id, "nums", []byte(s))
	if msg := try(func() { w.textReal(s) }); msg != "" {
		w.failText(s, msg, "C12", "C13")
	}
	w.c.end(w.id)
}

func bigText(x *big.Int) string {
	if x == nil {
		return "failure"
	}
	return x.String()
}

func (w *nworker) textReal(s string) {
	n := scanNum(s)
	f := numjson.ParseFloat(s)
	if n.ok != (f == f) {
		w.failText(s, fmt.Sprintf("ParseFloat gives %v, number: %v", f, n.ok), "C13")
	} else if n.ok {
		if want := n.float(); !sameFloat(want, f) {
			w.failText(s, fmt.Sprintf("ParseFloat gives %v, the nearest value is %v", f, want), "C13")
		}
	}
	var wi, wu *big.Int
	if n.ok {
		if x := n.integer(); x != nil {
			if x.IsInt64() {
				wi = x
			}
			if x.IsUint64() {
				wu = x
			}
		}
	}
	i, iok := numjson.ParseInt(s)
	if iok != (wi != nil) || iok && i != wi.Int64() {
		w.failText(s, fmt.Sprintf("ParseInt gives %d %v, want %s", i, iok, bigText(wi)), "C12")
	}
	u, uok := numjson.ParseUint(s)
	if uok != (wu != nil) || uok && u != wu.Uint64() {
		w.failText(s, fmt.Sprintf("ParseUint gives %d %v, want %s", u, uok, bigText(wu)), "C12")
	}
	if w.logged() && (len(s) < 48 || w.r.Intn(30) == 0) {
		w.log.put(map[string]interface{}{"op": "float", "s": ints(s), "f": partsOf(f, 64)})
		x := []int{}
		if iok {
			x = ints(strconv.FormatInt(i, 10))
		}
		w.log.put(map[string]interface{}{"op": "int", "s": ints(s), "i": x})
		x = []int{}
		if uok {
			x = ints(strconv.FormatUint(u, 10))
		}
		w.log.put(map[string]interface{}{"op": "uint", "s": ints(s), "i": x})
	}
	// the same through a node
	w.doc.Reset()
	nd, tail, err := w.doc.Parse("[" + s + "]")
	if err != nil || tail != "" {
		return
	}
	if nd = nd.Index(0); nd.Type() != njson.TypeNumber || nd.Raw() != s {
		return
	}
	if g, ok := nd.ToFloat(); ok != n.ok || ok && !sameFloat(g, f) {
		w.failText(s, fmt.Sprintf("the node's ToFloat gives %v %v, ParseFloat %v", g, ok, f), "C13", "C05")
	}
	if g, ok := nd.ToInt(); ok != iok || ok && g != i {
		w.failText(s, fmt.Sprintf("the node's ToInt gives %v %v, ParseInt %v %v", g, ok, i, iok), "C12", "C05")
	}
	if g, ok := nd.ToUint(); ok != uok || ok && g != u {
		w.failText(s, fmt.Sprintf("the node's ToUint gives %v %v, ParseUint %v %v", g, ok, u, uok), "C12", "C05")
	}
	x, ok := nd.ToInterface()
	if g, isf := x.(float64); ok != n.ok || ok && (!isf || !sameFloat(g, f)) {
		w.failText(s, fmt.Sprintf("the node converts to %v %v, ParseFloat %v", x, ok, f), "C13", "C05")
	}
}

// format checks the text of one float.
func (w *nworker) format(f float64, bits int) {
	w.n++
	w.c.begin(w.id, "nums", []byte(fmt.Sprintf("%d:%x", bits, math.Float64bits(f))))
	if msg := try(func() { w.formatReal(f, bits) }); msg != "" {
		w.failFloat(f, bits, msg, "C13")
	}
	w.c.end(w.id)
}

func (w *nworker) formatReal(f float64, bits int) {
	s := numjson.FormatFloat(f, bits)
	n := scanNum(s)
	body := strings.TrimPrefix(s, "-")
	if !n.ok || len(body) > 1 && body[0] == '0' && body[1] >= '0' && body[1] <= '9' {
		w.failFloat(f, bits, fmt.Sprintf("formatted as %q, which is no JSON number", s), "C13", "C14")
		return
	}
	back := n.float()
	if bits == 32 {
		back = 0
		if n.lead() >= 0 {
			v, err := strconv.ParseFloat(s, 32)
			if err != nil {
				v = math.NaN()
			}
			back = v
		} else if n.neg {
			back = math.Copysign(0, -1)
		}
	}
	if !sameFloat(back, f) {
		w.failFloat(f, bits, fmt.Sprintf("formatted as %q, which is %v", s, back), "C13", "C14")
	}
	l := n.lead()
	mag := n.point - l - 1
	if n.exp != (l >= 0 && (mag < -6 || mag >= 21)) {
		w.failFloat(f, bits, fmt.Sprintf("formatted as %q", s), "C13")
	}
	w.k++
	pre := []byte("1.5e-0")[:w.k%7]
	d := make([]byte, len(pre), len(pre)+w.k%3*20)
	copy(d, pre)
	if a := numjson.AppendFloat(d, f, bits); string(a) != string(pre)+s {
		w.failFloat(f, bits, fmt.Sprintf("appended to %q gives %q, formatted %q", pre, a, s), "C13")
	}
	if w.logged() {
		w.log.put(map[string]interface{}{"op": "format", "s": ints(s), "f": partsOf(f, bits), "bits": bits})
	}
	if bits == 64 {
		if g := numjson.ParseFloat(s); !sameFloat(g, f) {
			w.failFloat(f, bits, fmt.Sprintf("formatted as %q, parsed again as %v", s, g), "C13", "C14")
		}
	}
}

// scalars writes values to nodes that held all kinds of things and reads them back.
func (w *nworker) scalars(r *rand.Rand, f float64, i int64, u uint64) {
	cas := numCase{Text: fmt.Sprintf("%v %d %d", f, i, u), Bits: fmt.Sprintf("64:%x", math.Float64bits(f)), Op: "scalars"}
	w.c.begin(w.id, "nums", []byte(cas.Bits))
	defer w.c.end(w.id)
	w.n++
	msg := try(func() {
		bad := func(f string, args ...interface{}) { w.c.fail(fmt.Sprintf(f, args...), cas, "C14") }
		w.doc.Reset()
		root, _, err := w.doc.Parse(`[{"a":[1,{"b":"x"}],"c":null},[[],"\"",{}],"text",12.5,true,null,{},[],"",-1]`)
		if err != nil {
			panic(err)
		}
		root.Append(w.doc.Number(f), w.doc.Null(), w.doc.True(), w.doc.False())
		pos := r.Perm(10)
		root.Index(pos[0]).SetInt(i)
		root.Index(pos[1]).SetUint(u)
		root.Index(pos[2]).SetFloat(f)
		root.Index(pos[3]).SetTrue()
		root.Index(pos[4]).SetFalse()
		root.Index(pos[5]).SetNull()
		if r.Intn(2) == 0 { // twice
			root.Index(pos[6]).SetString("\"x\n")
			root.Index(pos[6]).SetInt(i)
			root.Index(pos[7]).SetFloat(f)
			root.Index(pos[7]).SetUint(u)
		} else {
			root.Index(pos[6]).SetUint(5)
			root.Index(pos[6]).SetInt(i)
			root.Index(pos[7]).SetNull()
			root.Index(pos[7]).SetUint(u)
		}
		for _, p := range []int{pos[0], pos[6]} {
			if g, ok := root.Index(p).ToInt(); !ok || g != i || root.Index(p).Type() != njson.TypeNumber {
				bad("wrote int %d, read %d %v", i, g, ok)
			}
		}
		for _, p := range []int{pos[1], pos[7]} {
			if g, ok := root.Index(p).ToUint(); !ok || g != u || root.Index(p).Type() != njson.TypeNumber {
				bad("wrote uint %d, read %d %v", u, g, ok)
			}
		}
		for _, p := range []int{pos[2], 10} {
			if g, ok := root.Index(p).ToFloat(); !ok || !sameFloat(g, f) || root.Index(p).Type() != njson.TypeNumber {
				bad("wrote float %v, read %v %v", f, g, ok)
			}
		}
		bools := map[int]bool{pos[3]: true, pos[4]: false, 12: true, 13: false}
		for p, want := range bools {
			if g, ok := root.Index(p).ToBool(); !ok || g != want || root.Index(p).Type() != njson.TypeBoolean {
				bad("wrote %v, read %v %v", want, g, ok)
			}
		}
		for _, p := range []int{pos[5], 11} {
			if x, ok := root.Index(p).ToInterface(); !ok || x != nil || root.Index(p).Type() != njson.TypeNull {
				bad("wrote null, read %v %v", x, ok)
			}
		}
		b, err := root.AppendJSON(nil)
		var out []interface{}
		if err == nil {
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			err = dec.Decode(&out)
		}
		if err != nil || len(out) != 14 {
			bad("serialized as %q, an independent decoder gives %v", b, err)
			return
		}
		num := func(p int) string {
			n, _ := out[p].(json.Number)
			return string(n)
		}
		if num(pos[0]) != strconv.FormatInt(i, 10) || num(pos[6]) != strconv.FormatInt(i, 10) || num(pos[1]) != strconv.FormatUint(u, 10) || num(pos[7]) != strconv.FormatUint(u, 10) {
			bad("an independent decoder reads %v", out)
		}
		for _, p := range []int{pos[2], 10} {
			if g, err := strconv.ParseFloat(num(p), 64); err != nil || !sameFloat(g, f) {
				bad("wrote float %v, an independent decoder reads %v from %q", f, out[p], num(p))
			}
		}
		for p, want := range bools {
			if out[p] != interface{}(want) {
				bad("wrote %v, an independent decoder reads %v", want, out[p])
			}
		}
		if out[pos[5]] != nil || out[11] != nil {
			bad("wrote null, an independent decoder reads %v", out[pos[5]])
		}
	})
	if msg != "" {
		w.c.fail(msg, cas, "C14")
	}
}

func randFloat(r *rand.Rand) float64 {
	for {
		var f float64
		switch r.Intn(9) {
		case 0, 1, 2:
			f = math.Float64frombits(r.Uint64())
		case 3:
			f = math.Ldexp(1, r.Intn(2100)-1075)
			f = nudge(r, f)
		case 4:
			f, _ = strconv.ParseFloat("1e"+strconv.Itoa(r.Intn(640)-326), 64)
			f = nudge(r, f)
		case 5:
			f = float64(r.Int63n(1<<uint(1+r.Intn(62)))) / math.Pow10(r.Intn(8))
		case 6:
			f = math.Float64frombits(uint64(r.Int63n(1 << uint(1+r.Intn(53)))))
		case 7:
			f = nudge(r, []float64{0, 1e-6, 1e21, 1e-7, 1e20, 1e22, 123456789012345680000, 0.1, 1e-5, 9007199254740992, 1e16, 1e17}[r.Intn(12)])
		default:
			f = float64(r.Intn(2000)-1000) / 8
		}
		if r.Intn(2) == 0 {
			f = -f
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func nudge(r *rand.Rand, f float64) float64 {
	for k := r.Intn(4); k > 0; k-- {
		if r.Intn(2) == 0 {
			f = math.Nextafter(f, math.Inf(1))
		} else {
			f = math.Nextafter(f, math.Inf(-1))
		}
	}
	return f
}

// hardText spells a value at or near the middle between two floats.
func hardText(r *rand.Rand) string {
	f := math.Abs(randFloat(r))
	g := math.Nextafter(f, math.Inf(1))
	x := new(big.Rat).SetFloat64(f)
	if math.IsInf(g, 0) {
		d := new(big.Rat).SetFloat64(math.Nextafter(f, 0))
		d.Sub(x, d)
		x.Add(x, d.Mul(d, big.NewRat(1, 2)))
	} else {
		y := new(big.Rat).SetFloat64(g)
		x.Add(x, y)
		x.Mul(x, big.NewRat(1, 2))
	}
	s := x.FloatString(1100)
	s = strings.TrimRight(s, "0")
	if strings.HasSuffix(s, ".") {
		s += "0"
	}
	switch r.Intn(5) {
	case 0:
		s += "1"
	case 1:
		s += "00000000000000000000001"
	case 2: // just below
		b := []byte(s)
		for i := len(b) - 1; i >= 0; i-- {
			if b[i] > '0' && b[i] <= '9' {
				b[i]--
				break
			}
		}
		s = string(b)
	case 3: // shortened
		if k := 1 + r.Intn(len(s)); k > 2 && !strings.HasSuffix(s[:k], ".") {
			s = s[:k]
		}
	}
	return s
}

// respell gives another spelling of the same value.
func respell(r *rand.Rand, s string) string {
	n := scanNum(s)
	if !n.ok {
		return s
	}
	d := n.d
	for k := r.Intn(3); k > 0; k-- {
		d += "0"
	}
	if r.Intn(6) == 0 {
		d += strings.Repeat("0", r.Intn(30))
	}
	point := n.point
	if r.Intn(8) == 0 {
		d = "0" + d
		point++
	}
	sign := ""
	if n.neg {
		sign = "-"
	}
	cut := 1 + r.Intn(len(d))
	e := point - cut
	out := sign + d[:cut]
	if cut < len(d) {
		out += "." + d[cut:]
	}
	if e != 0 || r.Intn(4) == 0 {
		out += string("eE"[r.Intn(2)])
		if e >= 0 && r.Intn(2) == 0 {
			out += "+"
		}
		es := strconv.Itoa(e)
		if e >= 0 && r.Intn(4) == 0 {
			es = "00" + es
		}
		out += es
	}
	return out
}

var numEdges = []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0", "-0", "-1", "1",
	"9007199254740993", "9007199254740992", "4294967295", "4294967296", "2147483647", "-2147483648", "10", "100", "42", "99999999999999999999", "10000000000000000000", "20000000000000000000", "18446744073709551610", "18446744073709551620", "184467440737095516150", "1e18", "1e19", "1e20", "0.5", "1.5", "123e-2", "1200e-2"}

func (w *nworker) randText(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return respell(r, numEdges[r.Intn(len(numEdges))])
	case 1:
		x := new(big.Int)
		x.SetString(numEdges[r.Intn(9)], 10)
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
		return respell(r, x.String())
	case 2:
		return respell(r, strconv.FormatInt(int64(r.Uint64()>>uint(r.Intn(64))), 10))
	case 3:
		return hardText(r)
	case 4:
		return respell(r, strconv.FormatFloat(randFloat(r), 'e', -1, 64))
	case 5:
		g := gen{r: r}
		g.num()
		return g.b.String()
	case 6:
		return numPart(r) + numPart(r) + numPart(r) + numPart(r)
	default:
		s := strconv.FormatFloat(randFloat(r), 'e', r.Intn(20), 64)
		if r.Intn(3) == 0 {
			b := []byte(s)
			b[r.Intn(len(b))] = "0123456789+-.eE x\x00_/:"[r.Intn(21)]
			s = string(b)
		}
		return s
	}
}

var numParts = []string{"-", "0", "1", "9", ".", "e", "E", "+", "00", "123", "999999999999999", "e1", "e-1", "e+18", ".0", ".5", " ", "x", "NaN", "Inf", "infinity", "0x1", "_", "1_0", "e400", "e-400", "e99999999999999999999", "e-99999999999999999999", ",", "\"", "\n", "٣", "1p4"}

func numPart(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return ""
	}
	return numParts[r.Intn(len(numParts))]
}

func runNums(c *ctx) error {
	log := c.create("nums.ndjson")
	c.parallel(func(id int, r *rand.Rand) {
		w := &nworker{c: c, id: id, r: r, log: log, limit: 700, doc: new(njson.Document)}
		if c.tier == "thorough" {
			w.limit = 6000
		}
		// short texts over an alphabet
		al := "-+.eE0159x "
		depth := 5
		if c.tier == "thorough" {
			depth = 7
		}
		k := 0
		var rec func(b []byte, n int)
		rec = func(b []byte, n int) {
			if k++; k%c.workers == id {
				w.text(string(b))
			}
			if n == 0 {
				return
			}
			for i := 0; i < len(al); i++ {
				rec(append(b, al[i]), n-1)
			}
		}
		rec(nil, depth)
		// every byte around a number
		for b := id; b < 256; b += c.workers {
			s := string([]byte{byte(b)})
			for _, t := range []string{s, s + "1", "1" + s, "1" + s + "2", "1." + s, "1.5" + s, "1e" + s, "1e5" + s, "-" + s, "12" + s + "e1", "9223372036854775807" + s} {
				w.text(t)
			}
		}
		// powers of ten and two, all exponents
		for e := -345 + id; e < 345; e += c.workers {
			for _, m := range []string{"1", "9", "1.5", "123456789012345", "9007199254740993", "999999999999999", "2.2250738585072011"} {
				w.text(m + "e" + strconv.Itoa(e))
			}
			f, _ := strconv.ParseFloat("1e"+strconv.Itoa(e), 64)
			for _, g := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))} {
				if !math.IsInf(g, 0) {
					w.format(g, 64)
					w.format(-g, 64)
					if h := float64(float32(g)); !math.IsInf(h, 0) {
						w.format(h, 32)
					}
				}
			}
		}
		for e := -1074 + id; e < 1024; e += c.workers {
			f := math.Ldexp(1, e)
			for _, g := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))} {
				w.format(g, 64)
				w.text(strconv.FormatFloat(g, 'e', 17, 64))
			}
		}
		for e := -149 + id; e < 128; e += c.workers {
			f := float32(math.Ldexp(1, e))
			for _, g := range []float32{f, math.Nextafter32(f, 0), math.Nextafter32(f, float32(math.Inf(1)))} {
				w.format(float64(g), 32)
			}
		}
		for i := 0; c.more(i, 4000); i++ {
			w.text(w.randText(r))
			w.text(w.randText(r))
			f := randFloat(r)
			w.format(f, 64)
			if g := float64(math.Float32frombits(r.Uint32())); g == g && !math.IsInf(g, 0) {
				w.format(g, 32)
			}
			if i%2 == 0 {
				sh := uint(r.Intn(64))
				ii, u := int64(r.Uint64()>>sh), r.Uint64()>>sh
				switch r.Intn(6) {
				case 0:
					ii = math.MinInt64 + int64(r.Intn(2))
				case 1:
					ii, u = math.MaxInt64-int64(r.Intn(2)), math.MaxUint64-uint64(r.Intn(2))
				case 2:
					ii = -ii
				}
				w.scalars(r, f, ii, u)
			}
			if id == 0 && i%2000 == 0 {
				c.addSample(w.randText(r))
			}
		}
		c.add("cases", w.n)
	})
	c.add("logged", int64(log.n))
	log.close()
	return nil
}

func runNumTests(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(id int, r *rand.Rand) {
		w := &nworker{c: c, id: id, r: r, doc: new(njson.Document)}
		for i := id; i < len(lines); i += c.workers {
			var t struct {
				S, I, U []int
				OK      bool
			}
			if err := json.Unmarshal(lines[i], &t); err != nil {
				panic(err)
			}
			s := fromInts(t.S)
			n := scanNum(s)
			mi, mu := "", ""
			if n.ok {
				if x := n.integer(); x != nil {
					if x.IsInt64() {
						mi = x.String()
					}
					if x.IsUint64() {
						mu = x.String()
					}
				}
			}
			if n.ok != t.OK || mi != fromInts(t.I) || mu != fromInts(t.U) {
				panic(fmt.Sprintf("the Go mirror and the specification differ on %q", s))
			}
			w.text(s)
		}
	})
	c.add("tests", int64(len(lines)))
	return nil
}

func (w *nworker) raw(s string) {
	w.text(s)
	var bits int
	var b uint64
	if n, _ := fmt.Sscanf(s, "%d:%x", &bits, &b); n == 2 {
		f := math.Float64frombits(b)
		w.format(f, bits)
		w.scalars(rand.New(rand.NewSource(1)), f, int64(b), b)
	}
}

func rawNums(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	(&nworker{c: c, doc: new(njson.Document)}).raw(string(data))
	return nil
}

func rerunNums(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	var x struct {
		numCase
		S []int
	}
	if err := json.Unmarshal(data, &x); err != nil {
		return err
	}
	w := &nworker{c: c, doc: new(njson.Document)}
	switch {
	case x.S != nil:
		w.text(fromInts(x.S))
	case x.Op == "text":
		w.text(x.Text)
	default:
		w.raw(x.Bits)
		var f float64
		var i int64
		var u uint64
		fmt.Sscan(x.Text, &f, &i, &u)
		for k := int64(0); k < 50; k++ {
			w.scalars(rand.New(rand.NewSource(k)), f, i, u)
		}
	}
	return nil
}

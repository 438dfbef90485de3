package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/alxarch/njson"
)

func init() {
	areas["parse"] = runParse
	areas["parse-rerun"] = rerunParse
	areas["parse-raw"] = rawParse
}

// pworker checks texts against the automaton of spec/JsonText.tla.
type pworker struct {
	c      *ctx
	id     int
	t      *jsonTable
	s, s2  jstate
	buf    []byte
	offs   []int
	out    []byte
	dirty  *njson.Document // recycled between texts by Reset
	pop    *njson.Document // holds earlier values while texts are parsed into it
	kept   []keptNode
	nkept  int
	pre    []byte
	count  map[string]int64
	noisy  []byte
	rounds int
}

type keptNode struct {
	n    njson.Node
	json string
}

func newPWorker(c *ctx, id int, t *jsonTable) *pworker {
	return &pworker{c: c, id: id, t: t, dirty: new(njson.Document), pop: new(njson.Document), count: map[string]int64{}, pre: []byte("\x00pre,[")}
}

type parseCase struct {
	Text string `json:"text"` // printable form, for reading
	B    []int  `json:"b"`
	Form string `json:"form"`
}

func (w *pworker) fail(text, form, msg string, props ...string) {
	if len(text) > 4096 {
		w.c.fail(msg, parseCase{Text: fmt.Sprintf("%q… (%d bytes)", text[:256], len(text)), B: ints(text), Form: form}, props...)
		return
	}
	w.c.fail(msg, parseCase{Text: fmt.Sprintf("%q", text), B: ints(text), Form: form}, props...)
}

func realOutcome(n njson.Node, tail string, err error, text string) (o outcome, problem string) {
	if err == nil {
		o = outcome{"ok", "", len(text) - len(tail)}
		if !strings.HasSuffix(text, tail) {
			problem = fmt.Sprintf("tail %q is not a suffix of the input", tail)
		}
		if n.Type() == njson.TypeInvalid {
			problem = "a successful parse returned an invalid node"
		}
		return
	}
	var eof njson.UnexpectedEOF
	var pe *njson.ParseError
	switch {
	case errors.As(err, &eof):
		o = outcome{"eof", njson.Type(eof).String(), 0}
		if tail != text {
			problem = fmt.Sprintf("tail %q of incomplete input is not the input", tail)
		}
	case errors.As(err, &pe):
		o = outcome{"err", pe.Type().String(), pe.Pos()}
		if tail != "" {
			problem = fmt.Sprintf("a rejected text returned tail %q", tail)
		}
		if problem == "" && pe.Error() == "" {
			problem = "empty error text"
		}
	default:
		o = outcome{"err", fmt.Sprintf("%T", err), -1}
	}
	if n.Type() != njson.TypeInvalid || n.Document() != nil {
		problem = "a failed parse returned a node"
	}
	return
}

// walk compares a real tree with the tokens of the specification.
func walkTree(n njson.Node, text string, toks []token, i int, visit func(n njson.Node, from, to int)) (int, string) {
	if i >= len(toks) {
		return i, "tree has more nodes than the text"
	}
	k := toks[i]
	raw := n.Raw()
	want := njson.TypeInvalid
	switch k.kind {
	case '[':
		want = njson.TypeArray
	case '{':
		want = njson.TypeObject
	case 'S':
		want = njson.TypeString
	case 'N':
		want = njson.TypeNumber
	case 'T', 'F':
		want = njson.TypeBoolean
	case 'Z':
		want = njson.TypeNull
	default:
		return i, fmt.Sprintf("unexpected node of type %s at token %c %d", n.Type(), k.kind, k.from)
	}
	if n.Type() != want {
		return i, fmt.Sprintf("node at %d has type %s, want %s", k.from, n.Type(), want)
	}
	if k.kind != '[' && k.kind != '{' {
		if raw != text[k.from:k.to] {
			return i, fmt.Sprintf("scalar at %d has text %q, want %q", k.from, raw, text[k.from:k.to])
		}
		if visit != nil {
			visit(n, i, i+1)
		}
		if it := n.Values(); it.Len() != 0 || it.Next() {
			return i, "scalar node has values"
		}
		return i + 1, ""
	}
	if raw != "" {
		return i, fmt.Sprintf("container at %d has text %q", k.from, raw)
	}
	first := i
	i++
	it := n.Values()
	idx := 0
	for it.Next() {
		if it.Index() != idx {
			return i, fmt.Sprintf("iteration index %d, want %d", it.Index(), idx)
		}
		idx++
		if i >= len(toks) {
			return i, "tree has more nodes than the text"
		}
		if k.kind == '{' {
			kk := toks[i]
			if kk.kind != 'K' {
				return i, fmt.Sprintf("extra member %q in object at %d", it.Key(), k.from)
			}
			if it.Key() != text[kk.from:kk.to] {
				return i, fmt.Sprintf("key at %d is %q, want %q", kk.from, it.Key(), text[kk.from:kk.to])
			}
			i++
		} else {
			if it.Key() != "" {
				return i, fmt.Sprintf("array element has key %q", it.Key())
			}
			if toks[i].kind == ']' {
				return i, fmt.Sprintf("extra element in array at %d", k.from)
			}
		}
		var msg string
		if i, msg = walkTree(it.Value(), text, toks, i, visit); msg != "" {
			return i, msg
		}
	}
	if i >= len(toks) || toks[i].kind != k.kind+2 {
		return i, fmt.Sprintf("container at %d has %d values, the text has more", k.from, idx)
	}
	if visit != nil {
		visit(n, first, i+1)
	}
	return i + 1, ""
}

func propsFor(want, got outcome) []string {
	var p []string
	switch want.kind {
	case "ok":
		p = append(p, "C01")
	case "err":
		p = append(p, "C02", "C25")
	case "eof":
		p = append(p, "C03")
	}
	if got.kind == "eof" && want.kind != "eof" {
		p = append(p, "C03")
	}
	if got.kind == "err" && want.kind != "err" {
		p = append(p, "C02")
	}
	return p
}

// check parses one text in every way and compares with the specification.
func (w *pworker) check(text string, deep bool) outcome {
	want := w.t.run(&w.s, text)
	w.count[want.kind]++
	w.c.begin(w.id, "parse", []byte(text))
	if msg := try(func() { w.checkReal(text, want, deep) }); msg != "" {
		w.fail(text, "", msg, append(propsFor(want, outcome{}), "C02")...)
		w.dirty, w.pop, w.kept = new(njson.Document), new(njson.Document), nil
	}
	w.c.end(w.id)
	return want
}

func (w *pworker) compareParse(d *njson.Document, form, text string, want outcome) (njson.Node, bool) {
	n, tail, err := d.Parse(text)
	got, problem := realOutcome(n, tail, err, text)
	if got != want {
		w.fail(text, form, fmt.Sprintf("parse gives %s %s at %d, the specification %s %s at %d (%v)", got.kind, got.typ, got.pos, want.kind, want.typ, want.pos, err), propsFor(want, got)...)
		return n, false
	}
	if problem != "" {
		w.fail(text, form, problem, propsFor(want, got)...)
		return n, false
	}
	if err != nil {
		if msg := w.describes(text, err, want); msg != "" {
			w.fail(text, form, msg, "C25")
			return n, false
		}
	}
	if want.kind == "ok" {
		if i, msg := walkTree(n, text, w.s.toks, 0, nil); msg != "" || i != len(w.s.toks) {
			w.fail(text, form, "tree differs: "+msg, "C01")
			return n, false
		}
	}
	return n, true
}

// describes checks that an error names position, kind, the token found and what was expected.
func (w *pworker) describes(text string, err error, want outcome) string {
	msg := err.Error()
	if !strings.Contains(msg, want.typ) {
		return fmt.Sprintf("the error %q does not name the kind %s", msg, want.typ)
	}
	if want.kind == "eof" {
		return ""
	}
	if !hasNumber(msg, want.pos) {
		return fmt.Sprintf("the error %q does not give the position %d", msg, want.pos)
	}
	rest := text[want.pos:]
	q := fmt.Sprintf("%q", rest[:1])
	wd := w.t.want[w.s.errIn]
	if len(wd.Word) > 0 {
		if !strings.Contains(msg, q[:len(q)-1]) {
			return fmt.Sprintf("the error %q does not show the token at %d", msg, want.pos)
		}
		if !strings.Contains(msg, fromInts(wd.Word)) {
			return fmt.Sprintf("the error %q does not say that %q was expected", msg, fromInts(wd.Word))
		}
		return ""
	}
	if !strings.Contains(msg, fmt.Sprintf("%q", rest[0])) && !strings.Contains(msg, q[:len(q)-1]) {
		return fmt.Sprintf("the error %q does not show the token %q", msg, rest[0])
	}
	if strings.Contains(msg, "any value") {
		for _, b := range wd.Set {
			if b == '{' {
				return ""
			}
		}
	}
	for _, b := range wd.Set {
		if c := byte(b); c < 0x80 && !strings.Contains(msg, fmt.Sprintf("%q", c)) && !strings.Contains(msg, fmt.Sprintf("%q", string(c))) {
			return fmt.Sprintf("the error %q does not say that %q was expected", msg, c)
		}
	}
	return ""
}

func hasNumber(msg string, n int) bool {
	s := fmt.Sprint(n)
	for i := 0; ; {
		k := strings.Index(msg[i:], s)
		if k < 0 {
			return false
		}
		k += i
		e := k + len(s)
		if (k == 0 || msg[k-1] < '0' || msg[k-1] > '9') && (e == len(msg) || msg[e] < '0' || msg[e] > '9') {
			return true
		}
		i = k + 1
	}
}

func (w *pworker) checkReal(text string, want outcome, deep bool) {
	fresh := new(njson.Document)
	n, ok := w.compareParse(fresh, "fresh", text, want)
	if !ok {
		return
	}
	if want.kind != "ok" {
		if x := fresh.Root(); x.Type() != njson.TypeInvalid {
			w.fail(text, "fresh", "a failed parse left a root value", "C02", "C09")
		}
	}
	w.dirty.Reset()
	if _, ok := w.compareParse(w.dirty, "recycled", text, want); !ok {
		w.dirty = new(njson.Document)
	}
	if deep {
		w.populated(text, want)
	}
	if want.kind != "ok" {
		return
	}
	w.serialize(text, fresh, n, deep)
}

// populated parses into a document that already holds values.
func (w *pworker) populated(text string, want outcome) {
	w.rounds++
	if w.rounds%64 == 0 || len(w.kept) > 24 {
		w.pop.Reset()
		w.kept = w.kept[:0]
	}
	n, ok := w.compareParse(w.pop, "populated", text, want)
	if !ok {
		w.pop, w.kept = new(njson.Document), nil
		return
	}
	for _, k := range w.kept {
		b, err := k.n.AppendJSON(w.noisy[:0])
		w.noisy = b
		if err != nil || string(b) != k.json {
			p := "C01"
			if want.kind == "err" {
				p = "C02"
			} else if want.kind == "eof" {
				p = "C03"
			}
			w.fail(text, "populated", fmt.Sprintf("an earlier value %q became %q (%v)", k.json, b, err), p, "C09")
			w.pop, w.kept = new(njson.Document), nil
			return
		}
	}
	if want.kind == "ok" && len(text) < 2000 {
		b, err := n.AppendJSON(nil)
		if err == nil {
			w.kept = append(w.kept, keptNode{n, string(b)})
		}
	}
}

type countWriter struct {
	b     []byte
	calls int
}

func (c *countWriter) Write(p []byte) (int, error) {
	c.calls++
	c.b = append(c.b, p...)
	return len(p), nil
}

func (w *pworker) serialize(text string, d *njson.Document, n njson.Node, deep bool) {
	w.buf, w.offs = compact(w.buf[:0], text, w.s.toks, w.offs[:0])
	want := w.buf
	dst := make([]byte, len(w.pre), len(w.pre)+w.rounds%7*len(want)/3)
	copy(dst, w.pre)
	got, err := n.AppendJSON(dst)
	if err != nil || !bytes.HasPrefix(got, w.pre) || !bytes.Equal(got[len(w.pre):], want) {
		w.fail(text, "append", fmt.Sprintf("serializes as %q (%v), the specification gives %q after %q", got, err, want, w.pre), "C04")
		return
	}
	if !deep {
		return
	}
	if got, err = d.AppendJSON(append([]byte(nil), w.pre...)); err != nil || string(got) != string(w.pre)+string(want) {
		w.fail(text, "document", fmt.Sprintf("the document serializes as %q (%v), want %q", got, err, want), "C04")
	}
	cw := countWriter{}
	k, err := n.PrintJSON(&cw)
	if err != nil || k != len(want) || !bytes.Equal(cw.b, want) || cw.calls != 1 {
		w.fail(text, "print", fmt.Sprintf("printed as %q in %d writes, returning %d %v; want %q", cw.b, cw.calls, k, err, want), "C04")
	}
	cw = countWriter{}
	k, err = njson.PrintJSON(&cw, d)
	if err != nil || k != len(want) || !bytes.Equal(cw.b, want) {
		w.fail(text, "print", fmt.Sprintf("document printed as %q, returning %d %v; want %q", cw.b, k, err, want), "C04")
	}
	// every node serializes as its own part
	if len(w.s.toks) < 3000 {
		step := 1 + len(w.s.toks)/200
		walkTree(n, text, w.s.toks, 0, func(x njson.Node, from, to int) {
			if from%step != 0 {
				return
			}
			end := w.offs[to]
			if to < len(w.offs)-1 {
				// the offset of the next token is after a separator, if there is one
				if k := w.s.toks[to].kind; k != ']' && k != '}' {
					end--
				}
			}
			b, err := x.AppendJSON(w.noisy[:0])
			w.noisy = b
			if part := want[w.offs[from]:end]; err != nil || !bytes.Equal(b, part) {
				w.fail(text, "part", fmt.Sprintf("a node serializes as %q (%v), want %q", b, err, part), "C04")
			}
		})
	}
	// fixed point
	c := string(want)
	o := w.t.run(&w.s2, c)
	if o.kind != "ok" || o.pos != len(c) {
		w.fail(text, "spec", "compact form not accepted by the specification: "+c, "C04")
		return
	}
	f := new(njson.Document)
	n2, tail, err := f.Parse(c)
	if err != nil || tail != "" {
		w.fail(text, "reparse", fmt.Sprintf("the output %q does not parse: %v, tail %q", c, err, tail), "C04")
		return
	}
	if i, msg := walkTree(n2, c, w.s2.toks, 0, nil); msg != "" || i != len(w.s2.toks) {
		w.fail(text, "reparse", "the output parses to a different tree: "+msg, "C04")
	}
	if b, err := n2.AppendJSON(nil); err != nil || string(b) != c {
		w.fail(text, "reparse", fmt.Sprintf("the output %q serializes again as %q (%v)", c, b, err), "C04")
	}
}

// enumerate visits every text whose proper prefixes are live, over an alphabet, with every byte as last one.
func (w *pworker) enumerate(alphabet string, prefix []byte, depth int, all bool, part, parts int, k *int) {
	o := w.t.run(&w.s, string(prefix))
	if w.s.mode < 0 || w.s.mode == w.t.done {
		return
	}
	_ = o
	if *k++; *k%parts == part {
		if all {
			for b := 0; b < 256; b++ {
				w.check(string(append(prefix, byte(b))), false)
			}
		} else {
			w.check(string(prefix), true)
		}
	}
	if depth == 0 || w.c.late() {
		return
	}
	for i := 0; i < len(alphabet); i++ {
		w.enumerate(alphabet, append(prefix, alphabet[i]), depth-1, all, part, parts, k)
	}
}

func runParse(c *ctx) error {
	t, err := loadJSONTable(c.in)
	if err != nil {
		return err
	}
	depthAll, depth := 4, 5
	if c.tier == "thorough" {
		depthAll, depth = 5, 7
	}
	alphabet := "\"\\ ,:[]{}0-etrunlfasx"
	trace := c.create("parse.ndjson")
	traceN := c.n
	done := make([]int64, c.workers)
	c.parallel(func(id int, r *rand.Rand) {
		w := newPWorker(c, id, t)
		k := 0
		w.enumerate(alphabet, nil, depthAll, true, id, c.workers, &k)
		k = 0
		w.enumerate("\"\\,:[]{}0 ta", nil, depth, false, id, c.workers, &k)
		// states reached with a deep stack, every byte
		for _, pre := range deepPrefixes() {
			if k++; k%c.workers != id {
				continue
			}
			for b := 0; b < 256; b++ {
				w.check(pre+string([]byte{byte(b)}), true)
				w.check(pre+string([]byte{byte(b)})+"}", false)
				w.check(pre+string([]byte{byte(b)})+"]", false)
			}
		}
		g := &gen{r: r}
		for i := 0; c.more(i, 4000); i++ {
			text := g.text()
			w.check(text, true)
			done[id]++
			switch r.Intn(4) {
			case 0: // cuts
				if len(text) <= 64 {
					for j := 0; j <= len(text); j++ {
						w.check(text[:j], j%8 == 0)
					}
				} else {
					for j := 0; j < 16; j++ {
						w.check(text[:r.Intn(len(text)+1)], true)
					}
				}
			case 1: // feeding in pieces into one document
				w.pieces(text, r)
			default:
				for j := 0; j < 8; j++ {
					w.check(g.mutate(text), true)
				}
			}
			if id == 0 && len(text) > 3 && len(text) < 120 && i%50 == 0 {
				c.addSample(text)
			}
			if len(text) < 90 && trace.n < traceN {
				w.record(trace, text)
				w.record(trace, text[:r.Intn(len(text)+1)])
				w.record(trace, g.mutate(text))
			}
		}
		for k, v := range w.count {
			c.add("texts."+k, v)
		}
	})
	for _, d := range done {
		c.add("generated", d)
	}
	c.add("trace", int64(trace.n))
	trace.close()
	return nil
}

// pieces re-parses the accumulated text after each piece, in one document.
func (w *pworker) pieces(text string, r *rand.Rand) {
	d := new(njson.Document)
	w.c.begin(w.id, "parse", []byte(text))
	defer w.c.end(w.id)
	msg := try(func() {
		for pos := 0; ; {
			pos += 1 + r.Intn(1+len(text)/(1+r.Intn(6)))
			if pos > len(text) {
				pos = len(text)
			}
			want := w.t.run(&w.s, text[:pos])
			n, ok := w.compareParse(d, "pieces", text[:pos], want)
			if !ok {
				return
			}
			if want.kind == "ok" {
				w.buf, w.offs = compact(w.buf[:0], text, w.s.toks, w.offs[:0])
				if b, err := n.AppendJSON(nil); err != nil || string(b) != string(w.buf) {
					w.fail(text, "pieces", fmt.Sprintf("after incomplete pieces the value is %q (%v), want %q", b, err, w.buf), "C03")
				}
				return
			}
			if want.kind == "err" || pos == len(text) {
				return
			}
		}
	})
	if msg != "" {
		w.fail(text, "pieces", msg, "C03", "C02")
	}
}

// record logs what the real parser does with a text, for TLC to judge.
func (w *pworker) record(t *ndjson, text string) {
	type rec struct {
		B    []int           `json:"b"`
		Kind string          `json:"kind"`
		Typ  string          `json:"typ"`
		Pos  int             `json:"pos"`
		Tree [][]interface{} `json:"tree"`
		JSON []int           `json:"json"`
	}
	x := rec{B: ints(text), Tree: [][]interface{}{}, JSON: []int{}}
	if msg := try(func() {
		d := new(njson.Document)
		n, tail, err := d.Parse(text)
		o, _ := realOutcome(n, tail, err, text)
		x.Kind, x.Typ, x.Pos = o.kind, o.typ, o.pos
		if o.kind == "ok" {
			b, err := n.AppendJSON(nil)
			if err != nil {
				b = []byte(err.Error())
			}
			x.JSON = ints(string(b))
			x.Tree = contentOf(n, x.Tree)
		}
	}); msg != "" {
		x.Kind = "panic"
	}
	t.put(x)
}

// contentOf flattens a tree to the Content of spec/JsonText.tla.
func contentOf(n njson.Node, out [][]interface{}) [][]interface{} {
	add := func(k string, s string) { out = append(out, []interface{}{k, ints(s)}) }
	switch n.Type() {
	case njson.TypeArray:
		add("[", "[")
		for it := n.Values(); it.Next(); {
			out = contentOf(it.Value(), out)
		}
		add("]", "]")
	case njson.TypeObject:
		add("{", "{")
		for it := n.Values(); it.Next(); {
			add("K", it.Key())
			out = contentOf(it.Value(), out)
		}
		add("}", "}")
	case njson.TypeString:
		add("S", n.Raw())
	case njson.TypeNumber:
		add("N", n.Raw())
	case njson.TypeNull:
		add("Z", n.Raw())
	case njson.TypeBoolean:
		if n.Raw() == "true" {
			add("T", n.Raw())
		} else {
			add("F", n.Raw())
		}
	default:
		add("?", n.Raw())
	}
	return out
}

func deepPrefixes() []string {
	var out []string
	opens := []string{"[", "{\"k\":", "[1,", "{\"a\":1,\"k\":"}
	tails := []string{"", "[", "{", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "[1", "[\"a\"", "[\"a\",", "{\"a\":\"b\"", "\"", "\"\\", "\"a\\\\", "-", "1", "1e", "t", "tr", "tru", "f", "fa", "fal", "fals", "n", "nu", "nul", "{\"", "{\"\\", "{\"a\\\\", "[[]", "[{}", "{\"a\":{}", "{\"a\":[]", "[true", "[null", "{\"a\":false"}
	var stacks []string
	stacks = append(stacks, "")
	for d := 0; d < 3; d++ {
		n := len(stacks)
		for _, s := range stacks[:n] {
			for _, o := range opens {
				stacks = append(stacks, s+o)
			}
		}
		if len(stacks) > 60 {
			break
		}
	}
	for _, s := range stacks {
		for _, x := range tails {
			out = append(out, s+x)
		}
	}
	return out
}

// rerunParse repeats one recorded case.
func rerunParse(c *ctx) error {
	t, err := loadJSONTable(filepath.Join(c.out, "table.json"))
	if err != nil {
		return err
	}
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	var x parseCase
	if err := json.Unmarshal(data, &x); err != nil {
		return err
	}
	w := newPWorker(c, 0, t)
	text := fromInts(x.B)
	w.check(text, true)
	w.pieces(text, rand.New(rand.NewSource(1)))
	return nil
}

// rawParse runs the text of a journalled case.
func rawParse(c *ctx) error {
	t, err := loadJSONTable(filepath.Join(c.out, "table.json"))
	if err != nil {
		return err
	}
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	w := newPWorker(c, 0, t)
	w.check(string(data), true)
	w.pieces(string(data), rand.New(rand.NewSource(1)))
	return nil
}

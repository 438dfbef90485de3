package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/alxarch/njson/unjson"
)

func init() {
	areas["lines"] = runLines
	areas["lines-tests"] = runLinesTests
	areas["lines-raw"] = runLinesRaw
	areas["lines-rerun"] = runLinesRaw
}

var errStream = errors.New("stream failure")

// lineEvent is what a reader delivers and then reports (see Ndjson.tla).
type lineEvent struct {
	S []int  `json:"s"`
	E string `json:"e"`
}

type lineCase struct {
	Op     string      `json:"op"` // read or write
	T      interface{} `json:"t"`
	O      copts       `json:"o"`
	Cust   bool        `json:"cust"`
	Ev     []lineEvent `json:"ev,omitempty"`
	Buf    int         `json:"buf,omitempty"`   // size of a bufio.Reader to read through
	Typed  bool        `json:"typed,omitempty"` // with a Decoder or Encoder
	Reuse  bool        `json:"reuse,omitempty"` // decode into the same value
	Pieces bool        `json:"pieces,omitempty"`
	Calls  []lineCall  `json:"calls,omitempty"` // of Encode
}

type lineCall struct {
	V     map[string]interface{} `json:"v"`
	Fails int                    `json:"fails"` // what the writer does: -1 ok, n fail after n bytes
}

// eventReader is the reader of a case.
type eventReader struct {
	ev   []lineEvent
	at   int
	more int
	cut  func(n int) int
}

func (r *eventReader) Read(p []byte) (int, error) {
	if len(r.ev) == 0 {
		return 0, io.EOF
	}
	e := r.ev[0]
	n := len(e.S) - r.at
	if n > len(p) {
		n = len(p)
	}
	if r.cut != nil && n > 1 {
		n = r.cut(n)
	}
	for i := 0; i < n; i++ {
		p[i] = byte(e.S[r.at+i])
	}
	// the rest of the buffer may be scratch space
	for i := n; i < len(p); i++ {
		p[i] = '#'
	}
	if r.at += n; r.at < len(e.S) {
		return n, nil
	}
	r.ev, r.at = r.ev[1:], 0
	switch e.E {
	case "fail":
		return n, errStream
	case "eof":
		return n, io.EOF
	}
	return n, nil
}

func streamErr(err error) string {
	switch err {
	case io.EOF:
		return "eof"
	case errStream:
		return "fail"
	}
	return errKind(err)
}

// splitLines gives the texts of the lines of a stream.
func splitLines(ev []lineEvent) (lines []string) {
	cur := []byte{}
	flush := func() {
		lines = append(lines, string(cur))
		cur = cur[:0]
	}
	for _, e := range ev {
		for _, c := range e.S {
			if c == '\n' {
				flush()
			} else {
				cur = append(cur, byte(c))
			}
		}
		if e.E == "eof" && len(cur) > 0 {
			flush()
		}
	}
	if len(cur) > 0 {
		flush()
	}
	return
}

func (cr *codecRun) lines(lc *lineCase, r *rand.Rand) {
	cust := lc.Cust
	msg := try(func() {
		if lc.Op == "read" {
			cr.readLines(lc, r, cust)
		} else {
			cr.writeLines(lc, r, cust)
		}
	})
	if msg != "" {
		cr.c.fail(msg, lc, "C19")
	}
}

func (cr *codecRun) readLines(lc *lineCase, r *rand.Rand, cust bool) {
	lines := []mss{}
	for _, s := range splitLines(lc.Ev) {
		a, lenient := parseTree(s, false, cust)
		if lenient {
			return
		}
		if a == nil {
			a = tree{"k": "bad"}
		}
		lines = append(lines, mss{"s": ints(s), "a": a})
	}
	deep := 2
	for _, l := range lines {
		if n := depth(plain(l["a"])); n+2 > deep {
			deep = n + 2
		}
	}
	src := &eventReader{ev: lc.Ev}
	if lc.Pieces {
		src.cut = func(n int) int { return 1 + r.Intn(n) }
	}
	var rd io.Reader = src
	if lc.Buf > 0 {
		rd = bufio.NewReaderSize(src, lc.Buf)
	}
	d := unjson.NewLineDecoder(rd)
	typ := build(undesc(lc.T))
	if lc.Typed {
		tag := lc.O.Tag
		dec, err := unjson.NewTypeDecoder(reflect.PtrTo(typ), tag)
		if err != nil {
			return
		}
		d.Decoder = dec
	}
	calls, kept, texts := []mss{}, []reflect.Value{}, []string{}
	x := reflect.New(typ)
	for eofs, n := 0, 0; eofs < 3 && n < 200+len(lines)+len(lc.Ev); n++ {
		if !lc.Reuse {
			x = reflect.New(typ)
		}
		call := mss{"old": dump(x.Elem(), deep)}
		err := d.Decode(x.Interface())
		call["err"] = streamErr(err)
		call["new"] = mss{"k": "none"}
		if err == nil {
			call["new"] = dump(x.Elem(), deep)
			if !lc.Reuse {
				kept, texts = append(kept, x), append(texts, show(call["new"]))
			}
		} else if err != io.EOF && err != errStream {
			x = reflect.New(typ)
		}
		calls = append(calls, call)
		if err == io.EOF && len(src.ev) == 0 {
			eofs++
		}
	}
	for i, x := range kept {
		if got := show(dump(x.Elem(), deep)); got != texts[i] {
			cr.c.fail("a value decoded earlier changed from "+texts[i]+" to "+got, lc, "C19")
			return
		}
	}
	cr.log.put(mss{"op": "read", "t": lc.T, "o": lc.O, "cust": lc.Cust, "ev": lc.Ev, "lines": lines, "calls": calls, "buf": lc.Buf, "typed": lc.Typed, "reuse": lc.Reuse, "pieces": lc.Pieces})
	cr.c.add("streams", 1)
	cr.c.add("lines", int64(len(lines)))
}

// eventWriter records what is written and fails on demand.
type eventWriter struct {
	writes [][]byte
	fail   int
}

func (w *eventWriter) Write(p []byte) (int, error) {
	w.writes = append(w.writes, append([]byte(nil), p...))
	if w.fail < 0 {
		return len(p), nil
	}
	if w.fail < len(p) {
		return w.fail, errStream
	}
	return len(p), errStream
}

func (cr *codecRun) writeLines(lc *lineCase, r *rand.Rand, cust bool) {
	w := &eventWriter{}
	e := unjson.NewLineEncoder(w)
	typ := build(undesc(lc.T))
	if lc.Typed {
		enc, err := unjson.NewTypeEncoder(reflect.PtrTo(typ), lc.O.options())
		if err != nil {
			return
		}
		e.Encoder = enc
	}
	calls := []mss{}
	for _, k := range lc.Calls {
		w.writes, w.fail = nil, k.Fails
		x := valueOf(lc.T, k.V)
		err := e.Encode(x.Interface())
		writes := [][]int{}
		for _, b := range w.writes {
			writes = append(writes, ints(string(b)))
		}
		out := tree{"k": "none"}
		if len(w.writes) > 0 {
			if t, _ := parseTree(string(w.writes[0]), true, cust); t != nil {
				out = t
			}
		}
		calls = append(calls, mss{"v": k.V, "fails": k.Fails, "err": streamErr(err), "writes": writes, "out": out})
		cr.c.add("writes", 1)
	}
	cr.log.put(mss{"op": "write", "t": lc.T, "o": lc.O, "cust": lc.Cust, "calls": calls, "typed": lc.Typed})
}

func (g *cgen) lineCase() *lineCase {
	g.cust = g.one(3)
	lc := &lineCase{O: copts{Tag: "json", Omit: "Omit"}, Cust: g.cust, Typed: g.one(2), Op: "read"}
	if lc.Typed {
		lc.O = g.opts()
	}
	g.tag = lc.O.Tag
	var t reflect.Type
	for {
		t = g.typ(2)
		if _, err := unjson.NewTypeEncoder(reflect.PtrTo(t), lc.O.options()); err == nil {
			if _, err = unjson.NewTypeDecoder(reflect.PtrTo(t), lc.O.Tag); err == nil {
				break
			}
		}
	}
	lim := 0
	up := func(x interface{}) {
		if n := depth(x); n > lim {
			lim = n
		}
	}
	deep := 1 + g.r.Intn(3)
	if g.one(3) {
		lc.Op = "write"
		g.nl = true
		for n := 1 + g.r.Intn(5); n > 0; n-- {
			v := reflect.New(t).Elem()
			g.value(v, deep, false)
			x := plain(dump(v, 3)).(map[string]interface{})
			up(x)
			f := -1
			if g.one(5) {
				f = g.r.Intn(20)
			}
			lc.Calls = append(lc.Calls, lineCall{x, f})
		}
		g.nl = false
	} else {
		lc.Reuse, lc.Pieces = g.one(4), g.one(4)
		if g.one(2) {
			lc.Buf = 16 + g.r.Intn(40)
		}
		var s strings.Builder
		for n := g.r.Intn(7); n > 0; n-- {
			var b strings.Builder
			switch {
			case g.one(12):
				b.WriteString([]string{"", " ", "\t", "\r", "x", "{", "[1", "]", "1 2", "null x", "\"a\"\v", "{}\f", "\"\xc2\xa0\"", "1\xc2\xa0"}[g.r.Intn(14)])
			default:
				g.text(&b, t, deep)
				if g.one(10) {
					b.WriteString([]string{"x", "1", " {}", ",", "]", "}", "\"", "\v", "\f", "\xc2\x85", "\xc2\xa0", "\xe2\x80\xa8"}[g.r.Intn(12)])
				}
				if g.one(12) {
					m := gen{r: g.r}
					x := m.mutate(b.String())
					b.Reset()
					b.WriteString(x)
				}
			}
			if g.one(30) {
				b.WriteString(strings.Repeat(" ", 4000+g.r.Intn(200)))
			}
			line := strings.Replace(b.String(), "\n", " ", -1)
			a, _ := parseTree(line, false, false)
			up(plain(a))
			s.WriteString(line)
			if n > 1 || !g.one(3) {
				if g.one(6) {
					s.WriteByte('\r')
				}
				s.WriteByte('\n')
			}
		}
		all := s.String()
		lc.Ev = []lineEvent{}
		// cut it into events
		for len(all) > 0 || g.one(3) {
			n := len(all)
			switch {
			case g.one(8):
				n = 0
			case n > 1 && !g.one(3):
				n = 1 + g.r.Intn(n)
			}
			e := lineEvent{S: ints(all[:n])}
			all = all[n:]
			if g.one(4) || n == 0 {
				e.E = "fail"
				if g.one(5) {
					e.E = "eof"
				}
			}
			lc.Ev = append(lc.Ev, e)
		}
	}
	lc.T = plain(describe(t, lim+1, nil))
	if len(show(lc.T)) > 12000 {
		return g.lineCase()
	}
	return lc
}

func runLines(c *ctx) error {
	cr := &codecRun{c, c.create("lines.ndjson")}
	n := c.n / c.workers
	c.parallel(func(w int, r *rand.Rand) {
		g := &cgen{r: r}
		for i := 0; i < n && !c.expired(); i++ {
			lc := g.lineCase()
			data, err := json.Marshal(lc)
			must(err)
			c.begin(w, "lines", data)
			cr.lines(lc, r)
			c.end(w)
			if i == 3 {
				c.addSample(lc)
			}
		}
	})
	cr.log.close()
	return nil
}

// symbols of the generated tests
var lineSymbols = map[int]string{10: "\n", 55: "7", 120: "x", 32: strings.Repeat(" ", 21)}

// runLinesTests runs every event sequence TLC generated, through small buffers too.
func runLinesTests(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	cr := &codecRun{c, c.create("lines.ndjson")}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(lines); i += c.workers {
			lc := &lineCase{Op: "read", Ev: []lineEvent{}, T: plain(&tdesc{K: "any"}), O: copts{Tag: "json", Omit: "Omit"}, Typed: i&1 == 1, Pieces: i&2 == 2, Reuse: i%5 == 0}
			if i%3 != 0 {
				lc.Buf = 16
			}
			var t struct{ Ev []lineEvent }
			must(json.Unmarshal(lines[i], &t))
			for _, e := range t.Ev {
				s := ""
				for _, x := range e.S {
					s += lineSymbols[x]
				}
				lc.Ev = append(lc.Ev, lineEvent{ints(s), e.E})
			}
			c.begin(w, "lines", []byte(show(lc)))
			cr.lines(lc, r)
			c.end(w)
		}
	})
	cr.log.close()
	return nil
}

func runLinesRaw(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	lc := new(lineCase)
	must(json.Unmarshal(data, lc))
	cr := &codecRun{c, c.create("lines.ndjson")}
	cr.lines(lc, rand.New(rand.NewSource(1)))
	cr.log.close()
	return nil
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
)

func init() {
	areas["strs"] = runStrs
	areas["strs-tests"] = runStrTests
	areas["strs-raw"] = rawStrs
	areas["strs-rerun"] = rerunStrs
}

type strCase struct {
	Text string `json:"text"`
	S    []int  `json:"s"`
}

type sworker struct {
	c     *ctx
	id    int
	r     *rand.Rand
	n     int64
	log   *ndjson
	limit int
	pre   []byte
	k     int
}

func (w *sworker) fail(s, msg string, props ...string) {
	w.c.fail(msg, strCase{fmt.Sprintf("%q", s), ints(s)}, props...)
}

// dst gives a buffer with a prefix and some spare room.
func (w *sworker) dst(n int) []byte {
	w.k++
	var room int
	switch w.k % 7 {
	case 0:
		room = 0
	case 1:
		room = n
	case 2:
		room = n + 1
	case 3:
		room = n / 2
	case 4:
		room = 3 * n
	case 5:
		room = n + 16
	default:
		room = 64
	}
	p := w.pre[:w.k%5]
	b := make([]byte, len(p), len(p)+room)
	copy(b, p)
	if w.k%3 == 0 { // leftovers behind the contents
		f := b[len(b):cap(b)]
		for i := range f {
			f[i] = "\\u\"x"[i%4]
		}
	}
	return b
}

func (w *sworker) check(s string) {
	w.n++
	w.c.begin(w.id, "strs", []byte(s))
	if msg := try(func() { w.escape(s) }); msg != "" {
		w.fail(s, "escaping: "+msg, "C10", "C14")
	}
	if msg := try(func() { w.unescape(s) }); msg != "" {
		w.fail(s, "unescaping: "+msg, "C11")
	}
	w.c.end(w.id)
}

func (w *sworker) escape(s string) {
	san := sanitize(s)
	for _, html := range []bool{false, true} {
		o := strjson.Escaped(s, html, false)
		if !bodySpec(o, html) {
			w.fail(s, fmt.Sprintf("Escaped(html %v) gives %q, which may not stand between quotes", html, o), "C10", "C14")
			return
		}
		if u, ok := unescSpec(o); !ok || u != san {
			w.fail(s, fmt.Sprintf("Escaped(html %v) gives %q, which denotes %q, not %q", html, o, u, san), "C10", "C14")
			return
		}
		if q := strjson.Escaped(s, html, true); q != `"`+o+`"` {
			w.fail(s, fmt.Sprintf("the quoted form is %q, the plain one %q", q, o), "C10")
		}
		d := w.dst(len(s))
		p := string(d)
		if a := strjson.AppendEscaped(d, s, html); string(a) != p+o {
			w.fail(s, fmt.Sprintf("AppendEscaped to %q (cap %d) gives %q, Escaped %q", p, cap(d), a, o), "C10")
		}
		if string(d) != p {
			w.fail(s, fmt.Sprintf("AppendEscaped changed the buffer %q to %q", p, d), "C10")
		}
		w.record(map[string]interface{}{"op": "esc", "html": html, "s": ints(s), "o": ints(o)})
	}
}

func (w *sworker) unescape(s string) {
	u := strjson.Unescaped(s)
	if len(u) > len(s) {
		w.fail(s, fmt.Sprintf("Unescaped gives %d bytes for %d", len(u), len(s)), "C11")
	}
	if want, ok := unescSpec(s); ok && u != want {
		w.fail(s, fmt.Sprintf("Unescaped gives %q, the rules %q", u, want), "C11")
		return
	}
	buf := make([]byte, len(s)+8)
	for i := range buf {
		buf[i] = 0xA5
	}
	n := strjson.Unescape(buf[:len(s)], s)
	if n < 0 || n > len(s) || string(buf[:n]) != u {
		w.fail(s, fmt.Sprintf("Unescape into a buffer gives %d bytes %q, Unescaped %q", n, buf[:len(s)], u), "C11")
	}
	for _, c := range buf[len(s):] {
		if c != 0xA5 {
			w.fail(s, "Unescape writes beyond the buffer", "C11")
			break
		}
	}
	if n := strjson.Unescape(buf, s); n < 0 || n > len(buf) || string(buf[:n]) != u {
		w.fail(s, fmt.Sprintf("Unescape into a larger buffer gives %d bytes, Unescaped %q", n, u), "C11")
	}
	d := w.dst(len(s))
	p := string(d)
	if a := strjson.AppendUnescaped(d, s); string(a) != p+u {
		w.fail(s, fmt.Sprintf("AppendUnescaped to %q (cap %d) gives %q, Unescaped %q", p, cap(d), a, u), "C11")
	}
	if string(d) != p {
		w.fail(s, fmt.Sprintf("AppendUnescaped changed the buffer %q to %q", p, d), "C11")
	}
	w.record(map[string]interface{}{"op": "unesc", "html": false, "s": ints(s), "o": ints(u)})
}

func (w *sworker) record(x map[string]interface{}) {
	if w.log != nil && w.r != nil && w.r.Intn(w.limit) == 0 {
		w.log.put(x)
	}
}

// nodes writes the text to nodes and reads it back.
func (w *sworker) nodes(d *njson.Document, s string) {
	w.c.begin(w.id, "strs", []byte(s))
	defer w.c.end(w.id)
	msg := try(func() {
		san := sanitize(s)
		d.Reset()
		arr := d.Array()
		arr.Append(d.Text(s), d.TextHTML(s), d.Null(), d.Object())
		arr.Index(2).SetString(s)
		o := arr.Index(3)
		o.Set(strjson.Escaped(s, false, false), d.True())
		o.SetStringHTML(s)
		for i := 0; i < 4; i++ {
			n := arr.Index(i)
			if n.Type() != njson.TypeString || n.Unescaped() != san {
				w.fail(s, fmt.Sprintf("node %d is %s and reads back as %q, want %q", i, n.Type(), n.Unescaped(), san), "C14")
			}
			if x, ok := n.ToInterface(); !ok || x != interface{}(san) {
				w.fail(s, fmt.Sprintf("node %d converts to %q, want %q", i, x, san), "C14", "C05")
			}
			if i%2 == 1 && bytes.ContainsAny([]byte(n.Raw()), "<>&") {
				w.fail(s, fmt.Sprintf("HTML node %d holds %q", i, n.Raw()), "C14", "C10")
			}
		}
		b, err := arr.AppendJSON(nil)
		var out []string
		if err == nil {
			err = json.Unmarshal(b, &out)
		}
		if err != nil || len(out) != 4 || out[0] != san || out[1] != san || out[2] != san || out[3] != san {
			w.fail(s, fmt.Sprintf("an independent decoder reads %q from %q (%v), want %q", out, b, err, san), "C14")
		}
	})
	if msg != "" {
		w.fail(s, msg, "C14")
	}
}

var strPieces = []string{"\\", "\"", "/", "a", "n", "b", "t", "r", "f", "u", "0041", "d83d", "DE00", "2028", "\\ud83D", "\\uDe00", "\\u00e9", "\\uffff", "\\u003", "\\r", "\\n",
	"\xe2", "\x80", "\xa8", "\xed\xa0\x80", "😀", "<", ">", "&", "\x01", "\x1f", "é", "\xff", "\x7f", "\u2028", "\u2029", "\ufffd", "\xc0", "\xf4\x90", "\\u", "\\x", "\\u12", "\\uZZZZ", "\\\\", "\\\"", "\\/", "long plain text ", "0", "\x00", "\\u0000", "\\ud800", "\\udfff", "\\udbff\\udfff", "\\ud800\\udc00"}

func runStrs(c *ctx) error {
	log := c.create("strs.ndjson")
	q := c.tier != "thorough"
	c.parallel(func(id int, r *rand.Rand) {
		w := &sworker{c: c, id: id, r: r, log: log, limit: 400, pre: []byte("\\u\"<")}
		if !q {
			w.limit = 4000
		}
		// every one- and two-byte text, every code unit, every code point
		for i := id; i < 1<<16; i += c.workers {
			w.check(string([]byte{byte(i)}))
			w.check(string([]byte{byte(i), byte(i >> 8)}))
			esc := fmt.Sprintf("\\u%04x", i)
			if i%2 == 1 {
				esc = fmt.Sprintf("\\u%04X", i)
			}
			w.check(esc)
			for _, t := range []string{"\\ud83d", "\\udc00", "\\ude00", "\\n", "x", "\\u0041", "\\u00", "\\"} {
				w.check(esc + t)
				w.check(t + esc)
			}
		}
		for i := id; i < 0x110000; i += c.workers * map[bool]int{true: 3, false: 1}[q] {
			w.check(string(rune(i)))
		}
		// bodies around multi-byte sequences: all lead bytes with boundary continuations
		bs := []byte{0, 0x22, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xa9, 0xbf, 0xc0, 0xff}
		for i := 0xc0 + id; i < 0x100; i += c.workers {
			for _, a := range bs {
				for _, b := range bs {
					w.check(string([]byte{byte(i), a, b}))
					w.check(string([]byte{'x', byte(i), a, b, 'y'}))
					for _, d := range bs {
						w.check(string([]byte{byte(i), a, b, d}))
					}
				}
			}
		}
		// short texts over an alphabet of classes
		al := "\\u\"/bnx0dDeE8\x00<\xe2\x80\xa8\xff"
		depth := 4
		if !q {
			depth = 6
		}
		k := 0
		var rec func(b []byte, n int)
		rec = func(b []byte, n int) {
			if k++; k%c.workers == id {
				w.check(string(b))
			}
			if n == 0 || c.late() {
				return
			}
			for i := 0; i < len(al); i++ {
				rec(append(b, al[i]), n-1)
			}
		}
		rec(nil, depth)
		d := new(njson.Document)
		for i := 0; c.more(i, 4000); i++ {
			var b []byte
			n := 1 + r.Intn(8)
			if r.Intn(20) == 0 {
				n = r.Intn(200)
			}
			for ; n > 0; n-- {
				if r.Intn(8) == 0 {
					b = append(b, byte(r.Intn(256)))
				} else if r.Intn(10) == 0 {
					b = append(b, fmt.Sprintf("\\u%04x", r.Intn(1<<16))...)
				} else {
					b = append(b, strPieces[r.Intn(len(strPieces))]...)
				}
			}
			w.check(string(b))
			w.nodes(d, string(b))
			if id == 0 && i%1000 == 0 {
				c.addSample(fmt.Sprintf("%q", b))
			}
		}
		c.add("texts", w.n)
	})
	c.add("logged", int64(log.n))
	log.close()
	return nil
}

// runStrTests replays the cases of MCEscape on the real code.
func runStrTests(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
	c.parallel(func(id int, r *rand.Rand) {
		w := &sworker{c: c, id: id, pre: []byte("\\u\"<")}
		d := new(njson.Document)
		for i := id; i < len(lines); i += c.workers {
			var t struct {
				S, U, San []int
				Def, Body bool
			}
			if err := json.Unmarshal(lines[i], &t); err != nil {
				panic(err)
			}
			s := fromInts(t.S)
			if u, ok := unescSpec(s); ok != t.Def || ok && u != fromInts(t.U) || sanitize(s) != fromInts(t.San) || bodySpec(s, false) != t.Body {
				panic(fmt.Sprintf("the Go mirror and the specification differ on %q", s))
			}
			w.check(s)
			w.nodes(d, s)
		}
	})
	c.add("tests", int64(len(lines)))
	return nil
}

func rawStrs(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	w := &sworker{c: c, pre: []byte("\\u\"<")}
	for i := 0; i < 40; i++ {
		w.check(string(data))
	}
	w.nodes(new(njson.Document), string(data))
	return nil
}

func rerunStrs(c *ctx) error {
	data, err := os.ReadFile(c.in)
	if err != nil {
		return err
	}
	var x strCase
	if err := json.Unmarshal(data, &x); err != nil {
		return err
	}
	w := &sworker{c: c, pre: []byte("\\u\"<")}
	for i := 0; i < 40; i++ {
		w.check(fromInts(x.S))
	}
	w.nodes(new(njson.Document), fromInts(x.S))
	return nil
}

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"vh/vsync"
)

func init() {
	areas["registry"] = runRegistry       // schedules from MCRegistry
	areas["registry-free"] = runRegFree   // any schedule
	areas["pool"] = runPool               // schedules from MCPool
	areas["pool-dom"] = runPoolDom        // histories of Dom.tla side by side, random schedules
	areas["pool-free"] = runPoolFree      // the same with any schedule
	areas["frames"] = runFrames           // schedules from MCBuffers
	areas["frames-free"] = runFramesFree  // any schedule
	areas["readers-free"] = runReaderFree // any schedule
}

// lostControl counts runs where something in the code was not under control of the scheduler.
func (c *ctx) ran(s *vsync.Sched) {
	_, ops := s.Used()
	c.add("steps", int64(ops))
	if s.Lost() {
		c.add("uncontrolled", 1)
	}
}

func (c *ctx) lines() [][]byte {
	data, err := os.ReadFile(c.in)
	must(err)
	return bytes.Split(bytes.TrimSpace(data), []byte("\n"))
}

// from0 counts from 0 what TLA+ counts from 1.
func from0(order []int) []int {
	x := make([]int, len(order))
	for i := range order {
		x[i] = order[i] - 1
	}
	return x
}

func picker(pick []int, r *rand.Rand) func(n int) int {
	k := 0
	return func(n int) int {
		if k++; k <= len(pick) {
			return pick[k-1] - 1
		}
		return r.Intn(n+1) - 1
	}
}

// ---------------------------------------------------------------- registry

// regType is something to ask a registry for.
type regType struct {
	t     reflect.Type
	enc   bool
	bad   bool
	val   reflect.Value // to encode
	node  njson.Node    // to decode
	text  string
	want  string // what it gives
	typ   reflect.Type
	name  string
	exact bool // the codec belongs to one type
}

func (x *regType) fresh(o copts) *regType {
	if x.enc {
		x.typ = x.t
		if e, err := unjson.NewTypeEncoder(x.typ, o.options()); err != nil {
			x.bad = true
		} else {
			x.want = x.useEnc(e)
		}
	} else {
		x.typ = reflect.PtrTo(x.t)
		if d, err := unjson.NewTypeDecoder(x.typ, o.Tag); err != nil {
			x.bad = true
		} else {
			x.want = x.useDec(d)
		}
	}
	return x
}

// arg is what to encode.
func (x *regType) arg() interface{} {
	if x.t.Kind() == reflect.Interface {
		return x.val.Addr().Interface()
	}
	return x.val.Interface()
}

func sameJSON(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	if t, _ := parseTree(string(b), true, false); t != nil {
		return show(sorted(t))
	}
	return string(b)
}

func (x *regType) useEnc(e unjson.Encoder) (s string) {
	msg := try(func() {
		b, err := e.Encode(nil, x.arg())
		s = sameJSON(b, err)
	})
	return s + msg
}

func (x *regType) useDec(d unjson.Decoder) (s string) {
	msg := try(func() {
		v := reflect.New(x.t)
		err := d.Decode(v.Interface(), x.node)
		if err != nil {
			s = "error " + errKind(err)
		} else {
			s = show(dump(v.Elem(), 6))
		}
	})
	return s + msg
}

// newRegType makes a type with something to use a codec on.
func newRegType(g *cgen, t reflect.Type, enc bool) *regType {
	x := &regType{t: t, enc: enc}
	if enc {
		x.val = reflect.New(t).Elem()
		g.value(x.val, 3, false)
	} else {
		for k := 0; ; k++ {
			var b strings.Builder
			g.text(&b, t, 3)
			n, tail, err := new(njson.Document).Parse(b.String())
			if _, lenient := parseTree(b.String(), false, false); err == nil && strings.TrimSpace(tail) == "" && !lenient || k > 20 {
				x.node, x.text = n, b.String()
				break
			}
		}
	}
	return x
}

type regAnswer struct {
	P  int    `json:"p"`
	T  string `json:"t"`
	C  int    `json:"c"`
	OK bool   `json:"ok"`
}

type regRec struct {
	Bad     []string    `json:"bad"`
	Answers []regAnswer `json:"answers"`
	Of      []string    `json:"of"`
	Same    bool        `json:"same"`
	Prog    interface{} `json:"prog,omitempty"`
	O       copts       `json:"o"`
	Seed    int64       `json:"seed"`
}

// regLog numbers codecs.
type regLog struct {
	mu     sync.Mutex
	rec    regRec
	codecs []interface{}
}

func sameCodec(a, b interface{}) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return a == b
}

// identity tells if codecs of a type can be told apart at all.
func identity(x interface{}) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.Elem().Type().Size() > 0
}

func (l *regLog) answer(p int, name string, codec interface{}, ok bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	a := regAnswer{P: p, T: name, OK: ok}
	if codec != nil {
		a.C = -1
		if identity(codec) {
			a.C = 0
			for i, c := range l.codecs {
				if sameCodec(c, codec) {
					a.C = i + 1
				}
			}
			if a.C == 0 {
				l.codecs = append(l.codecs, codec)
				l.rec.Of = append(l.rec.Of, name)
				a.C = len(l.codecs)
			}
		}
	}
	l.rec.Answers = append(l.rec.Answers, a)
}

// request asks a cache for a codec and uses it.
func (l *regLog) request(p int, c *unjson.Cache, x *regType) {
	var codec interface{}
	ok := true
	msg := try(func() {
		if x.enc {
			e, err := c.Encoder(x.typ)
			if err != nil {
				ok = e == nil
			} else {
				codec = e
				ok = e != nil && x.useEnc(e) == x.want
			}
		} else {
			d, err := c.Decoder(x.typ)
			if err != nil {
				ok = d == nil
			} else {
				codec = d
				ok = d != nil && x.useDec(d) == x.want
			}
		}
	})
	l.answer(p, x.name, codec, ok && msg == "")
}

// owners notes which type every codec works for: it must refuse all others.
func (l *regLog) owners(xs map[string]*regType) {
	for i, c := range l.codecs {
		of := []string{}
		for name, x := range xs {
			if x.bad {
				continue
			}
			good := false
			switch e := c.(type) {
			case unjson.Encoder:
				good = x.enc && x.useEnc(e) == x.want
			case unjson.Decoder:
				good = !x.enc && x.useDec(e) == x.want
			}
			if good {
				of = append(of, name)
			}
		}
		if len(of) == 1 {
			l.rec.Of[i] = of[0]
		} // otherwise the name it was asked for, and the answers tell
	}
}

type badType struct{ C chan int }

var regNames = []string{"RList", "RTree", "RSlice", "RMap", "RA", "RB", "SU", "SD", "SP", "NSlice", "NMap"}

func runRegistry(c *ctx) error {
	log := c.create("registry.ndjson")
	tests := c.lines()
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(tests); i += c.workers {
			var t struct {
				Reqs  [][]string `json:"reqs"`
				Order []int      `json:"order"`
			}
			must(json.Unmarshal(tests[i], &t))
			g := &cgen{r: r}
			o := g.opts()
			g.tag = o.Tag
			pickType := func() reflect.Type {
				if r.Intn(4) == 0 {
					if t := g.structType(2); t != nil {
						return t
					}
				}
				return libs[regNames[r.Intn(len(regNames))]].typ
			}
			ta := pickType()
			tb := pickType()
			ea, eb := r.Intn(2) == 0, r.Intn(2) == 0
			if r.Intn(3) == 0 {
				tb, eb = ta, !ea
			}
			xs := map[string]*regType{"a": newRegType(g, ta, ea), "b": newRegType(g, tb, eb), "x": newRegType(g, reflect.TypeOf(badType{}), r.Intn(2) == 0)}
			cache := &unjson.Cache{Options: o.options()}
			l := &regLog{rec: regRec{Prog: json.RawMessage(tests[i]), O: o, Same: true, Bad: []string{}, Of: []string{}, Answers: []regAnswer{}}}
			for name, x := range xs {
				x.name = name
				if x.fresh(o); x.bad {
					l.rec.Bad = append(l.rec.Bad, name)
				}
			}
			if ta == tb && ea == eb {
				continue
			}
			fns := []func(){}
			for p := range t.Reqs {
				p := p
				fns = append(fns, func() {
					for _, name := range t.Reqs[p] {
						l.request(p+1, cache, xs[name])
					}
				})
			}
			c.begin(w, "registry", tests[i])
			s, ok := vsync.Run(from0(t.Order), picker(nil, r), fns...)
			c.end(w)
			c.ran(s)
			if !ok {
				c.fail("requests to a registry block each other", json.RawMessage(tests[i]), "C20")
				continue
			}
			l.owners(xs)
			log.put(l.rec)
		}
	})
	log.close()
	c.add("schedules", int64(len(tests)))
	return nil
}

func runRegFree(c *ctx) error {
	log := c.create("registry.ndjson")
	const workers = 8
	r := rand.New(rand.NewSource(c.seed))
	g := &cgen{r: r}
	for round := 0; round < c.n && !c.expired(); round++ {
		o := g.opts()
		plain := r.Intn(3) == 0
		if plain {
			o = copts{Tag: "json", Omit: "Omit"}
		}
		g.tag, g.cust = o.Tag, r.Intn(3) == 0
		cache := &unjson.Cache{Options: o.options()}
		l := &regLog{rec: regRec{O: o, Seed: c.seed, Same: true, Bad: []string{}, Of: []string{}, Answers: []regAnswer{}}}
		xs := []*regType{}
		seen := map[interface{}]bool{}
		for k := 1 + r.Intn(5); k > 0; k-- {
			t := g.typ(3)
			if r.Intn(3) == 0 {
				t = libs[regNames[r.Intn(len(regNames))]].typ
			}
			enc := r.Intn(2) == 0
			if seen[[2]interface{}{t, enc}] {
				continue
			}
			seen[[2]interface{}{t, enc}] = true
			x := newRegType(g, t, enc).fresh(o)
			x.name = fmt.Sprint("t", len(xs))
			if x.bad {
				l.rec.Bad = append(l.rec.Bad, x.name)
			}
			xs = append(xs, x)
		}
		type job struct {
			x    *regType
			mode int
		}
		jobs := make([][]job, workers)
		for p := range jobs {
			for k := 0; k < 4; k++ {
				jobs[p] = append(jobs[p], job{xs[r.Intn(len(xs))], r.Intn(4)})
			}
		}
		c.begin(0, "registry-free", nil)
		start := make(chan bool)
		var wg sync.WaitGroup
		for p := range jobs {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				<-start
				for _, j := range jobs[p] {
					if plain && j.mode == 0 && !j.x.bad {
						// the package's own registry
						msg := try(func() {
							got := ""
							if j.x.enc {
								got = sameJSON(unjson.Marshal(j.x.arg()))
							} else {
								v := reflect.New(j.x.t)
								if err := unjson.UnmarshalFromNode(j.x.node, v.Interface()); err != nil {
									got = "error " + errKind(err)
								} else {
									got = show(dump(v.Elem(), 6))
								}
							}
							if got != j.x.want {
								l.mu.Lock()
								l.rec.Same = false
								l.mu.Unlock()
							}
						})
						if msg != "" {
							l.answer(p+1, j.x.name, nil, false)
						}
						continue
					}
					l.request(p+1, cache, j.x)
				}
			}(p)
		}
		close(start)
		wg.Wait()
		c.end(0)
		log.put(l.rec)
		c.add("rounds", 1)
	}
	log.close()
	return nil
}

// ---------------------------------------------------------------- pools

type poolEv struct {
	P     int      `json:"p"`
	A     string   `json:"a"`
	Pool  string   `json:"pool"`
	D     int      `json:"d"`
	V     string   `json:"v"`
	N     int      `json:"n"`
	Blank bool     `json:"blank"`
	Shows []string `json:"shows,omitempty"`
}

type poolRec struct {
	Ev   []poolEv    `json:"ev"`
	Prog interface{} `json:"prog,omitempty"`
}

func isBlank(d *njson.Document) bool {
	if _, err := d.AppendJSON(nil); err == nil {
		return false
	}
	for id := uint(0); id < 4; id++ {
		if d.Node(id).Type() != njson.TypeInvalid {
			return false
		}
	}
	return d.Root().Type() == njson.TypeInvalid
}

func runPool(c *ctx) error {
	log := c.create("pool.ndjson")
	tests := c.lines()
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(tests); i += c.workers {
			var t struct {
				Prog [][]struct {
					A    string `json:"a"`
					Pool string `json:"pool"`
				} `json:"prog"`
				Order []int `json:"order"`
				Pick  []int `json:"pick"`
			}
			must(json.Unmarshal(tests[i], &t))
			rec := poolRec{Ev: []poolEv{}, Prog: json.RawMessage(tests[i])}
			var mu sync.Mutex
			ids := map[*njson.Document]int{}
			pools := map[string]*njson.Pool{"a": new(njson.Pool), "b": new(njson.Pool)}
			def := r.Intn(2) == 0 // a is the default pool
			get := func(name string) *njson.Document {
				if def && name == "a" {
					return njson.Blank()
				}
				return pools[name].Get()
			}
			put := func(name string, d *njson.Document) {
				if def && name == "a" {
					d.Close()
				} else {
					pools[name].Put(d)
				}
			}
			fns := []func(){}
			for p := range t.Prog {
				p := p
				fns = append(fns, func() {
					type ref struct {
						n   njson.Node
						raw bool
					}
					var held []*njson.Document
					var refs []njson.Node
					for k, x := range t.Prog[p] {
						vsync.Yield()
						e := poolEv{P: p + 1, A: x.A, Pool: x.Pool, V: fmt.Sprint((p+1)*100 + k)}
						var d *njson.Document
						if x.A == "get" {
							d = get(x.Pool)
						}
						mu.Lock()
						switch x.A {
						case "get":
							held = append(held, d)
							if ids[d] == 0 {
								ids[d] = len(ids) + 1
							}
							e.Blank = isBlank(d)
						case "parse":
							d = held[len(held)-1]
							n, _, err := d.Parse(e.V)
							if err != nil {
								e.V = "error " + err.Error()
							}
							refs = append(refs, n)
						case "edit":
							e.N = 1
							refs[0].SetInt(int64((p+1)*100 + k))
						case "put":
							d = held[len(held)-1]
							held = held[:len(held)-1]
						}
						e.D = ids[d]
						if x.A != "put" {
							e.Shows = []string{}
							for _, n := range refs {
								s := jsonOf(n)
								if s == "!" {
									s = "-"
								}
								e.Shows = append(e.Shows, s)
							}
						}
						rec.Ev = append(rec.Ev, e)
						mu.Unlock()
						if x.A == "put" {
							put(x.Pool, d)
						}
					}
				})
			}
			c.begin(w, "pool", tests[i])
			s, ok := vsync.Run(from0(t.Order), picker(t.Pick, r), fns...)
			c.end(w)
			c.ran(s)
			if !ok {
				c.fail("holders of pooled documents block each other", json.RawMessage(tests[i]), "C21")
				continue
			}
			log.put(rec)
		}
	})
	log.close()
	c.add("schedules", int64(len(tests)))
	return nil
}

// side runs histories of Dom.tla side by side, with documents of common pools.
func (c *ctx) side(w int, seed int64, n int, control bool, stats map[string]int64, log *ndjson) {
	r := rand.New(rand.NewSource(seed))
	pool := new(njson.Pool)
	hs := make([]domHist, n)
	sims := make([]*domSim, n)
	fns := make([]func(), n)
	for k := range fns {
		k := k
		fns[k] = func() {
			hs[k], sims[k] = (*ctx)(nil).history(0, seed*31+int64(k), nil, func(s *domSim) {
				s.pool = pool
				for d := 1; d < len(s.docs); d++ {
					if (seed+int64(d))%2 == 0 {
						s.docs[d] = njson.Blank()
					} else {
						s.docs[d] = pool.Get()
					}
				}
				if control {
					s.step = vsync.Yield
				} else {
					s.drop = true
				}
			})
			for d, doc := range sims[k].docs {
				if d > 0 {
					doc.Close()
				}
			}
		}
	}
	if control {
		order := make([]int, 0, 600)
		for len(order) < 600 {
			p := r.Intn(n)
			for b := 1 + r.Intn(6); b > 0; b-- {
				order = append(order, p)
			}
		}
		s, ok := vsync.Run(order, picker(nil, r), fns...)
		c.ran(s)
		if !ok {
			c.fail("holders of pooled documents block each other", seed, "C21")
			return
		}
	} else {
		var wg sync.WaitGroup
		for _, f := range fns {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				f()
			}(f)
		}
		wg.Wait()
	}
	for k, s := range sims {
		for _, f := range s.fails {
			c.fail(fmt.Sprintf("side by side with others (seed %d): %s", seed, f.msg), hs[k], "C21")
		}
		if len(s.fails) == 0 {
			log.put(hs[k])
		}
	}
}

func runPoolDom(c *ctx) error {
	log := c.create("dom.ndjson")
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < c.n && !c.expired(); i += c.workers {
			c.begin(w, "pool-dom", nil)
			c.side(w, c.seed*1000003+int64(i), 2+i%2, true, nil, log)
			c.end(w)
		}
	})
	c.add("histories", int64(log.n))
	log.close()
	return nil
}

func runPoolFree(c *ctx) error {
	log := c.create("dom.ndjson")
	for i := 0; i < c.n && !c.expired(); i++ {
		c.begin(0, "pool-free", nil)
		c.side(0, c.seed*2000003+int64(i), 8, false, nil, log)
		c.end(0)
	}
	c.add("histories", int64(log.n))
	log.close()
	return nil
}

// ---------------------------------------------------------------- buffers

var errCallback = errors.New("callback failed")

type frame struct {
	K     string `json:"k"`
	E     string `json:"e"`
	Want  string `json:"want"`
	Start string `json:"start"`
	Stop  string `json:"stop"`
	Got   string `json:"got"`
	Out   string `json:"out"`
	WOut  string `json:"wout"`
	Calls int    `json:"calls"`
}

type mark struct {
	M string `json:"m"`
	K string `json:"k,omitempty"`
	E string `json:"e,omitempty"`
}

type frameRec struct {
	Frames []*frame    `json:"frames"`
	Prog   interface{} `json:"prog,omitempty"`
}

// frameRun is what the processes of a run share.
type frameRun struct {
	mu   sync.Mutex
	rec  frameRec
	root njson.Node // a document that everybody reads
}

// frameProc runs a forest of calls.
type frameProc struct {
	run  *frameRun
	p    int
	prog []mark
	at   int
}

func (x *frameProc) callback(f *frame, data []byte) error {
	f.Calls++
	if f.Calls > 1 {
		return nil
	}
	f.Start = string(data)
	vsync.Yield()
	x.forest()
	x.at++ // its end
	vsync.Yield()
	f.Stop = string(data)
	switch f.E {
	case "err":
		return errCallback
	case "panic":
		panic(errCallback)
	}
	return nil
}

func (x *frameProc) forest() {
	for x.at < len(x.prog) && x.prog[x.at].M == "i" {
		m := x.prog[x.at]
		x.at++
		x.call(m)
	}
}

type cbWriter struct {
	x   *frameProc
	f   *frame
	out []byte
}

func (w *cbWriter) Write(b []byte) (int, error) {
	if err := w.x.callback(w.f, b); err != nil {
		return 0, err
	}
	w.out = append(w.out, b...)
	return len(b), nil
}

type cbAppender struct {
	x    *frameProc
	f    *frame
	pay  string
	fast bool
}

func (a cbAppender) AppendJSON(out []byte) ([]byte, error) {
	n := len(out)
	out = append(out, a.pay...)
	if err := a.x.callback(a.f, out[n:]); err != nil {
		return out[:n], err
	}
	return out, nil
}

type cbJSON struct {
	x *frameProc
	f *frame
}

func (u cbJSON) UnmarshalJSON(b []byte) error { return u.x.callback(u.f, b) }

type cbText struct {
	x *frameProc
	f *frame
}

func (u cbText) UnmarshalText(b []byte) error { return u.x.callback(u.f, b) }

// cbMarshal encodes itself with a callback.
type cbMarshal struct {
	x   *frameProc
	f   *frame
	pay string
}

func (u cbMarshal) MarshalJSON() ([]byte, error) {
	b := []byte(u.pay)
	err := u.x.callback(u.f, b)
	return b, err
}

// frameKinds are the calls with a callback.
var frameKinds = []string{"print", "json", "text", "append", "decode", "encode", "line", "unmarshal"}

// framePays are JSON texts, long ones among them; strings at odd places. No
// object has two keys: a map has no order.
var framePays []string

func init() {
	for k := 0; k < 24; k++ {
		id := fmt.Sprintf("%02d", k)
		framePays = append(framePays,
			[]string{`{"id":"` + id + `"}`, `[` + id[:1] + `,"` + id + `",[true,null]]`, `{"` + id + `":"` + strings.Repeat(id, 1300) + `"}`, `[]`}[k%4],
			[]string{`"` + id + `"`, `"` + strings.Repeat(id, 1500) + `"`, `"q\"` + id + `\n"`, `""`}[k%4])
	}
}

func (x *frameProc) call(m mark) {
	run := x.run
	run.mu.Lock()
	k := len(run.rec.Frames)
	f := &frame{K: m.K, E: m.E}
	run.rec.Frames = append(run.rec.Frames, f)
	run.mu.Unlock()
	// process and place decide the payload
	i := (x.p*7 + x.at*5 + k) % 24 * 2
	if m.K == "text" {
		i++
	}
	pay := framePays[i]
	n := run.root.Index(i)
	f.Want = pay
	out := []byte{}
	var err error
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r == interface{}(errCallback) {
					msg = "panic"
				} else {
					msg = fmt.Sprint("panic ", r)
				}
			}
		}()
		switch m.K {
		case "print":
			w := &cbWriter{x: x, f: f}
			var c int
			c, err = n.PrintJSON(w)
			out = append(w.out, fmt.Sprint(c)...)
			f.WOut = pay + fmt.Sprint(len(pay))
		case "json":
			err = n.WrapUnmarshalJSON(cbJSON{x, f})
		case "text":
			f.Want = n.Unescaped()
			err = n.WrapUnmarshalText(cbText{x, f})
		case "append":
			var w bytes.Buffer
			_, err = njson.PrintJSON(&w, cbAppender{x: x, f: f, pay: pay})
			out, f.WOut = w.Bytes(), pay
		case "decode":
			v := struct{ A cbJSON }{cbJSON{x, f}}
			var d njson.Document
			obj := d.Object()
			obj.Set("A", n)
			err = unjson.UnmarshalFromNode(obj, &v)
		case "encode":
			v := []interface{}{1, cbMarshal{x, f, pay}}
			out, err = unjson.Marshal(v)
			f.WOut = `[1,` + pay + `]`
		case "line":
			w := &cbWriter{x: x, f: f}
			v, _ := n.ToInterface()
			b, _ := unjson.Marshal([]interface{}{v})
			f.Want, f.WOut = string(b)+"\n", string(b)+"\n"
			err = unjson.NewLineEncoder(w).Encode([]interface{}{v})
			out = w.out
		case "unmarshal":
			v := cbJSON{x, f}
			err = unjson.UnmarshalFromString(pay, &v)
		}
	}()
	switch {
	case msg != "":
		f.Got = msg
	case err == errCallback:
		f.Got = "err"
	case err != nil:
		f.Got = "error " + err.Error()
	}
	if f.Got == "" {
		f.Out = string(out)
	}
	if f.Calls == 0 { // skip what it should have run
		for d := 1; d > 0 && x.at < len(x.prog); x.at++ {
			if x.prog[x.at].M == "i" {
				d++
			} else {
				d--
			}
		}
	}
}

func newFrameRun() *frameRun {
	var d njson.Document
	n, _, err := d.Parse("[" + strings.Join(framePays, ",") + "]")
	must(err)
	return &frameRun{root: n, rec: frameRec{Frames: []*frame{}}}
}

func (run *frameRun) procs(prog [][]mark) (fns []func()) {
	for p := range prog {
		x := &frameProc{run: run, p: p, prog: prog[p]}
		fns = append(fns, func() {
			for x.at < len(x.prog) {
				x.forest()
				x.at++
			}
		})
	}
	return
}

func runFrames(c *ctx) error {
	log := c.create("frames.ndjson")
	tests := c.lines()
	c.parallel(func(w int, r *rand.Rand) {
		for i := w; i < len(tests); i += c.workers {
			var t struct {
				Prog  [][]mark `json:"prog"`
				Order []int    `json:"order"`
				Pick  []int    `json:"pick"`
			}
			must(json.Unmarshal(tests[i], &t))
			for p := range t.Prog {
				for k := range t.Prog[p] {
					m := &t.Prog[p][k]
					if m.M == "i" && m.K == "x" {
						m.K = frameKinds[r.Intn(len(frameKinds))]
						m.E = []string{"", "", "", "err", "panic"}[r.Intn(5)]
					}
				}
			}
			run := newFrameRun()
			run.rec.Prog = map[string]interface{}{"prog": t.Prog, "order": t.Order, "pick": t.Pick}
			c.begin(w, "frames", tests[i])
			s, ok := vsync.Run(from0(t.Order), picker(t.Pick, r), run.procs(t.Prog)...)
			c.end(w)
			c.ran(s)
			if !ok {
				c.fail("calls block each other", json.RawMessage(tests[i]), "C22")
				continue
			}
			run.log(log)
		}
	})
	log.close()
	c.add("schedules", int64(len(tests)))
	return nil
}

// short makes long texts short, different ones differently.
func short(s string) string {
	if len(s) < 60 {
		return s
	}
	return fmt.Sprintf("%s... %d bytes %x", s[:20], len(s), crc32.ChecksumIEEE([]byte(s)))
}

func (run *frameRun) log(log *ndjson) {
	for _, f := range run.rec.Frames {
		for _, p := range []*string{&f.Want, &f.Start, &f.Stop, &f.Got, &f.Out, &f.WOut} {
			*p = short(*p)
		}
	}
	log.put(run.rec)
}

// randomProg is a random forest.
func randomProg(r *rand.Rand, n int) (prog []mark) {
	open := 0
	for n > 0 || open > 0 {
		if n > 0 && (open == 0 || open < 6 && r.Intn(2) == 0) {
			prog = append(prog, mark{M: "i", K: frameKinds[r.Intn(len(frameKinds))], E: []string{"", "", "", "", "err", "panic"}[r.Intn(6)]})
			n--
			open++
		} else {
			prog = append(prog, mark{M: "o"})
			open--
		}
	}
	return
}

func runFramesFree(c *ctx) error {
	log := c.create("frames.ndjson")
	r := rand.New(rand.NewSource(c.seed))
	for i := 0; i < c.n && !c.expired(); i++ {
		var prog [][]mark
		for p := 0; p < 8; p++ {
			prog = append(prog, randomProg(r, 1+r.Intn(8)))
		}
		run := newFrameRun()
		run.rec.Prog = prog
		c.begin(0, "frames-free", nil)
		var wg sync.WaitGroup
		for _, f := range run.procs(prog) {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				f()
			}(f)
		}
		wg.Wait()
		c.end(0)
		run.log(log)
		c.add("runs", 1)
	}
	log.close()
	return nil
}

// ---------------------------------------------------------------- readers

var readMix = &domMix{"readers", map[string]int{"root": 1, "copyref": 2, "get": 10, "index": 10, "iter": 6, "lookup": 12, "conv": 14, "kids": 10}}

// runReaderFree lets several goroutines read the documents that a history left behind.
func runReaderFree(c *ctx) error {
	log := c.create("dom.ndjson")
	for i := 0; i < c.n && !c.expired(); i++ {
		seed := c.seed*3000017 + int64(i)
		h, s := (*ctx)(nil).history(0, seed, nil, nil)
		if len(s.fails) > 0 {
			continue // not about concurrency
		}
		const readers = 6
		hs := make([]domHist, readers)
		sims := make([]*domSim, readers)
		c.begin(0, "readers-free", nil)
		var wg sync.WaitGroup
		for k := range hs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + int64(k)))
				sims[k] = &domSim{docs: s.docs, revs: s.revs, refs: append([]njson.Node(nil), s.refs...), pool: s.pool}
				hs[k] = domHist{Nd: h.Nd, Nr: h.Nr, Seed: seed, Ev: h.Ev[:len(h.Ev):len(h.Ev)]}
				for j := 0; j < 12 && len(sims[k].fails) == 0; j++ {
					e := sims[k].gen(r, readMix)
					ok := sims[k].apply(&e)
					hs[k].Ev = append(hs[k].Ev, e)
					if !ok {
						break
					}
				}
			}(k)
		}
		wg.Wait()
		c.end(0)
		for k := range sims {
			for _, f := range sims[k].fails {
				c.fail("several readers: "+f.msg, hs[k], "C22")
			}
			if len(sims[k].fails) == 0 {
				log.put(hs[k])
			}
		}
		c.add("documents", int64(h.Nd))
	}
	c.add("histories", int64(log.n))
	log.close()
	return nil
}

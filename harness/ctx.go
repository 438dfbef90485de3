package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ctx is shared by the drivers of one harness run.
type ctx struct {
	area    string
	seed    int64
	tier    string
	out     string // directory for traces and cases
	in      string // optional input file (cases generated by TLC, or a single case to rerun)
	n       int
	budget  time.Duration
	start   time.Time
	workers int

	mu     sync.Mutex
	viol   []violation
	nviol  map[string]int
	stats  map[string]int64
	sample []interface{}
	jrn    []byte
	busy   []busySlot
}

type busySlot struct {
	since int64
	_     [7]int64
}

// violation is a disagreement between the real code and the specification.
type violation struct {
	Props []string    `json:"props"`
	Msg   string      `json:"msg"`
	Area  string      `json:"area"`
	Case  interface{} `json:"case"`
}

const (
	jrnSlot  = 1 << 18
	jrnSlots = 64
)

func newCtx() *ctx {
	return &ctx{nviol: map[string]int{}, stats: map[string]int64{}, start: time.Now(), busy: make([]busySlot, jrnSlots)}
}

func (c *ctx) openJournal() error {
	f, err := os.OpenFile(filepath.Join(c.out, "journal"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	if err = f.Truncate(jrnSlot * jrnSlots); err != nil {
		return err
	}
	c.jrn, err = syscall.Mmap(int(f.Fd()), 0, jrnSlot*jrnSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return err
}

// begin journals the case a worker is about to run, so a crash can be attributed.
func (c *ctx) begin(worker int, area string, data []byte) {
	atomic.StoreInt64(&c.busy[worker].since, time.Now().UnixNano())
	if c.jrn == nil {
		return
	}
	s := c.jrn[worker*jrnSlot : (worker+1)*jrnSlot]
	n := len(data)
	if n > jrnSlot-64 {
		n = jrnSlot - 64
	}
	copy(s[64:], data[:n])
	h := fmt.Sprintf("%s %d %d\n", area, n, len(data))
	copy(s[:64], h)
}

func (c *ctx) end(worker int) {
	atomic.StoreInt64(&c.busy[worker].since, 0)
	if c.jrn != nil {
		c.jrn[worker*jrnSlot] = 0
	}
}

// watchdog ends the process when a case hangs.
func (c *ctx) watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for i := range c.busy {
			if t := atomic.LoadInt64(&c.busy[i].since); t != 0 && now-t > int64(limit) {
				fmt.Fprintf(os.Stderr, "HANG worker %d\n", i)
				debug.SetTraceback("all")
				os.Exit(44)
			}
		}
	}
}

func (c *ctx) expired() bool { return c.budget > 0 && time.Since(c.start) > c.budget }

// late ends what should be complete, on a machine that is much too slow.
func (c *ctx) late() bool {
	n := time.Duration(5)
	if c.tier == "thorough" {
		n = 1
	}
	return c.budget > 0 && time.Since(c.start) > n*c.budget
}

// more goes on with case i: at least to least, however slow the machine, and as long as the budget lasts.
func (c *ctx) more(i, least int) bool {
	return i < least && !c.late() || c.budget > 0 && !c.expired() || c.budget > 0 && i < least/10
}

func (c *ctx) fail(msg string, cas interface{}, props ...string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	seen := true
	for _, p := range props {
		if c.nviol[p]++; c.nviol[p] <= 3 {
			seen = false
		}
	}
	if seen {
		return
	}
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	c.viol = append(c.viol, violation{props, msg, c.area, cas})
}

func (c *ctx) add(key string, n int64) {
	c.mu.Lock()
	c.stats[key] += n
	c.mu.Unlock()
}

func (c *ctx) addSample(x interface{}) {
	c.mu.Lock()
	if len(c.sample) < 5 {
		c.sample = append(c.sample, x)
	}
	c.mu.Unlock()
}

// parallel runs f on every worker and waits.
func (c *ctx) parallel(f func(w int, r *rand.Rand)) {
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			f(w, rand.New(rand.NewSource(c.seed*1000003+int64(w)*7919+int64(len(c.area)))))
		}(w)
	}
	wg.Wait()
}

func (c *ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := map[string]interface{}{
		"violations": c.viol, "counts": c.nviol, "stats": c.stats, "samples": c.sample,
		"wall": time.Since(c.start).Seconds(),
	}
	data, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(c.out, "result.json"), data, 0644); err != nil {
		panic(err)
	}
}

// ndjson is a trace file writer.
type ndjson struct {
	f   *os.File
	mu  sync.Mutex
	n   int
	buf []byte
}

func (c *ctx) create(name string) *ndjson {
	f, err := os.Create(filepath.Join(c.out, name))
	if err != nil {
		panic(err)
	}
	return &ndjson{f: f}
}

func (t *ndjson) put(x interface{}) int {
	data, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(append(t.buf, data...), '\n')
	t.n++
	if len(t.buf) > 1<<20 {
		t.flush()
	}
	return t.n
}

func (t *ndjson) flush() {
	if _, err := t.f.Write(t.buf); err != nil {
		panic(err)
	}
	t.buf = t.buf[:0]
}

func (t *ndjson) close() {
	t.mu.Lock()
	t.flush()
	t.f.Close()
	t.mu.Unlock()
}

// ints gives the bytes of a string as the integers TLC reads.
func ints(s string) []int {
	x := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		x[i] = int(s[i])
	}
	return x
}

func fromInts(x []int) string {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return string(b)
}

// try runs f and returns the panic it ended with, if any.
func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
			if st := debug.Stack(); len(st) > 0 {
				if len(st) > 1200 {
					st = st[:1200]
				}
				msg += "\n" + string(st)
			}
		}
	}()
	f()
	return ""
}

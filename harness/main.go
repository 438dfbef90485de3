package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

var areas = map[string]func(*ctx) error{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh area [flags]")
		os.Exit(3)
	}
	c := newCtx()
	c.area = os.Args[1]
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	budget := fs.Float64("budget", 0, "seconds")
	fs.Int64Var(&c.seed, "seed", 1, "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.StringVar(&c.out, "out", ".", "")
	fs.StringVar(&c.in, "in", "", "")
	fs.IntVar(&c.n, "n", 0, "")
	fs.IntVar(&c.workers, "workers", runtime.NumCPU(), "")
	hang := fs.Float64("hang", 30, "seconds a single case may take")
	fs.Parse(os.Args[2:])
	c.budget = time.Duration(*budget * float64(time.Second))
	f := areas[c.area]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown area", c.area)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(12 << 30)
	if err := c.openJournal(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go c.watchdog(time.Duration(*hang * float64(time.Second)))
	if err := f(c); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	c.finish()
}

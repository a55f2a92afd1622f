// Command h is the harness: it enumerates inputs, environment answers, schedules, faults or operation
// sequences for one property and checks the property on each of them, on the (instrumented) real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"time"
)

type viol struct {
	Case int64  `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

type report struct {
	Property    string           `json:"property"`
	Cases       int64            `json:"cases"`
	Evaluations int64            `json:"evaluations"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Nontrivial  int64            `json:"nontrivial"`
	Truncated   bool             `json:"truncated"`
	Families    map[string]int64 `json:"families"`
	Outcomes    int              `json:"outcomes"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
	Viol        []viol           `json:"viol"`
}

// ctx drives one property's enumeration; cases are dealt to shards by their number.
type ctx struct {
	prop      string
	quick     bool
	shard, n  int64
	only      int64
	list      bool
	idx       int64
	r         report
	seen      map[uint64]struct{}
	outs      map[uint64]struct{}
	deadline  time.Time
	fam       string
	curStart  atomic.Int64
	curCase   atomic.Int64
	sampleGap int64
}

type stopAll struct{}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// family names the part of the space being enumerated.
func (c *ctx) family(name string) { c.fam = name }

// mine tells whether the next case is for this process, and counts it.
func (c *ctx) mine() bool {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		return i == c.only
	}
	return int64(mix(uint64(i))%uint64(c.n)) == c.shard
}

func (c *ctx) thorough() bool { return !c.quick }

// run executes one case; desc is only evaluated when needed.
func (c *ctx) run(desc func() string, f func() error) {
	if !c.mine() {
		return
	}
	if c.only < 0 && c.r.Evaluations&15 == 0 && time.Now().After(c.deadline) {
		c.r.Truncated = true
		panic(stopAll{})
	}
	if c.list {
		fmt.Fprintf(os.Stderr, "CASE %d\n", c.idx-1)
	}
	c.r.Cases++
	c.r.Evaluations++
	c.r.Families[c.fam]++
	c.curCase.Store(c.idx - 1)
	c.curStart.Store(time.Now().UnixNano())
	err := guard(f)
	c.curStart.Store(0)
	if len(c.r.Samples) < 6 && (c.r.Families[c.fam] == 1) {
		c.r.Samples = append(c.r.Samples, c.fam+": "+cut(desc(), 400))
	}
	if err != nil {
		c.r.Viol = append(c.r.Viol, viol{c.idx - 1, c.fam + ": " + cut(desc(), 4000), cut(err.Error(), 4000)})
		panic(stopAll{})
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// guard turns a panic of the code under test into an error.
func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopAll); ok {
				panic(p)
			}
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}

// nontrivial counts a distinct non-trivial case.
func (c *ctx) nontrivial(key string) {
	h := hash(key)
	if _, ok := c.seen[h]; !ok {
		c.seen[h] = struct{}{}
		c.r.Nontrivial++
	}
}

// outcome records an observed outcome (to show that the exploration is not vacuous).
func (c *ctx) outcome(key string) {
	if len(c.outs) < 200000 {
		c.outs[hash(key)] = struct{}{}
	}
}

func (c *ctx) state(n int)      { c.r.States += int64(n) }
func (c *ctx) transition(n int) { c.r.Transitions += int64(n) }
func (c *ctx) trace()           { c.r.Traces++ }
func (c *ctx) note(s string) {
	for _, x := range c.r.Notes {
		if x == s {
			return
		}
	}
	c.r.Notes = append(c.r.Notes, s)
}

var checks = map[string]func(*ctx){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int64("shard", 0, "")
	n := flag.Int64("n", 1, "")
	only := flag.Int64("only", -1, "")
	list := flag.Bool("list", false, "")
	out := flag.String("out", "", "")
	budget := flag.Float64("budget", 600, "seconds")
	flag.Parse()
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(4)
	}
	log.SetOutput(io.Discard)
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = devnull
	}
	debug.SetMaxStack(128 << 20)
	debug.SetMemoryLimit(3 << 30)
	c := &ctx{prop: *prop, quick: *tier != "thorough", shard: *shard, n: *n, only: *only, list: *list, seen: map[uint64]struct{}{}, outs: map[uint64]struct{}{}}
	c.r.Property = *prop
	c.r.Families = map[string]int64{}
	c.deadline = time.Now().Add(time.Duration(*budget * float64(time.Second)))
	go func() { // a case that never ends
		for {
			time.Sleep(time.Second)
			if s := c.curStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > 120*time.Second {
				fmt.Fprintf(os.Stderr, "HANG case=%d\n", c.curCase.Load())
				os.Exit(7)
			}
		}
	}()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopAll); !ok {
					panic(p)
				}
			}
		}()
		f(c)
	}()
	c.r.Outcomes = len(c.outs)
	b, _ := json.Marshal(&c.r)
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	} else {
		fmt.Fprintln(os.Stderr, string(b))
	}
}

// ---- enumeration helpers ----

// tuples calls f with every tuple of length n over k symbols (the slice is reused).
func tuples(n, k int, f func([]int)) {
	t := make([]int, n)
	for {
		f(t)
		i := n - 1
		for ; i >= 0; i-- {
			t[i]++
			if t[i] < k {
				break
			}
			t[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// chooser enumerates environment answers depth first, with at most maxDev answers that differ from
// the default (answer 0).
type chooser struct {
	stack []choice
	pos   int
	max   int
}
type choice struct{ v, n int }

func (h *chooser) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if h.pos < len(h.stack) {
		c := h.stack[h.pos]
		h.pos++
		if c.n != n {
			panic(fmt.Sprintf("harness: nondeterministic replay: %d alternatives, then %d", c.n, n))
		}
		return c.v
	}
	h.stack = append(h.stack, choice{0, n})
	h.pos++
	return 0
}

func (h *chooser) next() bool {
	h.pos = 0
	for len(h.stack) > 0 {
		k := len(h.stack) - 1
		dev := 0
		for _, c := range h.stack[:k] {
			if c.v != 0 {
				dev++
			}
		}
		if h.stack[k].v+1 < h.stack[k].n && (h.max < 0 || dev+1 <= h.max) {
			h.stack[k].v++
			return true
		}
		h.stack = h.stack[:k]
	}
	return false
}

func (h *chooser) String() string {
	var b strings.Builder
	for _, c := range h.stack {
		fmt.Fprintf(&b, "%d/%d ", c.v, c.n)
	}
	return b.String()
}

// enumerate runs f once per answer sequence (maxDev < 0: all of them), at most limit times (0: all).
// It reports whether everything within the bound was enumerated.
func enumerate(maxDev, limit int, f func(h *chooser)) bool {
	h := &chooser{max: maxDev}
	for i := 0; ; i++ {
		h.pos = 0
		f(h)
		if !h.next() {
			return true
		}
		if limit > 0 && i+1 >= limit {
			return false
		}
	}
}

// answers is a rand provider that takes Float64 and IntN answers from functions.
type answers struct {
	f  func() float64
	in func(int) int
	u  func() uint64
}

func (a *answers) Float64() float64 { return a.f() }
func (a *answers) IntN(n int) int   { return a.in(n) }
func (a *answers) Uint64() uint64 {
	if a.u != nil {
		return a.u()
	}
	return uint64(a.f() * (1 << 63))
}

const almostOne = 1 - 1.0/(1<<53)

// stream is a deterministic provider (splitmix64).
type stream struct{ s uint64 }

func (s *stream) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	return mix(s.s)
}
func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *stream) Float64() float64 { return float64(s.Uint64()>>11) / (1 << 53) }
func (s *stream) IntN(n int) int   { return int(s.Uint64() % uint64(n)) }

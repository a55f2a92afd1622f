package main

import (
	"fmt"
	"sort"
	"strings"

	vatomic "github.com/rmera/boo/zzverif/vatomic"
	"github.com/rmera/boo/zzverif/vsched"
	vsync "github.com/rmera/boo/zzverif/vsync"
)

// The self-test compares the reduced exploration with plain enumeration of all interleavings on every
// small program: both must see the same set of outcomes.
func selfBody(progs [][]int, obs *[]string) func() {
	return func() {
		c0 := make(chan int)
		c1 := make(chan int, 1)
		c2 := make(chan int, 2)
		var mu vsync.Mutex
		var at vatomic.Int64
		var wg vsync.WaitGroup
		x := 0
		logs := make([]string, len(progs))
		*obs = logs
		for t, p := range progs {
			wg.Add(1)
			vsched.Go(func() {
				for i, o := range p {
					v := t*10 + i
					switch o {
					case 0:
						vsched.SendTo(c0)(v)
					case 1:
						logs[t] += fmt.Sprint(" u", vsched.Recv(c0))
					case 2:
						vsched.SendTo(c1)(v)
					case 3:
						logs[t] += fmt.Sprint(" b", vsched.Recv(c1))
					case 4:
						mu.Lock()
						x = x*3 + v
						logs[t] += fmt.Sprint(" m", x)
						mu.Unlock()
					case 5:
						logs[t] += fmt.Sprint(" a", at.Add(int64(v+1)))
					case 6:
						logs[t] += fmt.Sprint(" l", at.Load())
					case 7:
						r, ok := vsched.Recv2(c2)
						logs[t] += fmt.Sprint(" c", r, ok)
					case 8:
						vsched.SendTo(c2)(v)
					case 9:
						switch vsched.Select(true, vsched.RecvCase(c1), vsched.RecvCase(c2)) {
						case 0:
							logs[t] += " s0"
						case 1:
							logs[t] += " s1"
						default:
							logs[t] += " sd"
						}
					}
				}
				wg.Done()
			})
		}
		wg.Wait()
	}
}

func checkSelf(c *ctx) {
	c.family("two threads")
	run := func(progs [][]int) {
		var ps [][]int
		for _, p := range progs {
			ps = append(ps, append([]int{}, p...))
		}
		c.run(func() string { return fmt.Sprint(ps) }, func() error {
			sets := [2]map[string]bool{{}, {}}
			execs := [2]int{}
			for k := 0; k < 2; k++ {
				var obs []string
				e := &vsched.Explorer{Body: func() { selfBody(ps, &obs)() }, NoReduce: k == 1, MaxDev: -1, Preempt: -1, MaxSteps: 200, MaxExecs: 400000}
				e.Explore(func(r *vsched.Result) bool {
					b := append([]string{}, r.Blocked...)
					sort.Strings(b)
					sets[k][fmt.Sprint(strings.Join(obs, "|"), b, r.Panics)] = true
					return true
				})
				if e.Capped {
					return nil
				}
				execs[k] = e.Execs
				c.transition(e.Transitions)
			}
			c.state(len(sets[1]))
			c.nontrivial(fmt.Sprint(ps))
			for s := range sets[1] {
				if !sets[0][s] {
					return fmt.Errorf("outcome %s is missed by the reduced exploration (%d of %d executions)", s, execs[0], execs[1])
				}
			}
			for s := range sets[0] {
				if !sets[1][s] {
					return fmt.Errorf("outcome %s only in the reduced exploration", s)
				}
			}
			return nil
		})
	}
	L := 2
	if c.thorough() {
		L = 3
	}
	tuples(2*L, 10, func(a []int) { run([][]int{a[:L], a[L:]}) })
	c.family("three threads")
	tuples(4, 10, func(a []int) { run([][]int{a[:1], a[1:2], a[2:4]}) })
	c.family("three threads of two")
	ops := []int{0, 1, 2, 3, 4, 9}
	tuples(6, 6, func(a []int) {
		if c.quick && (a[0]*7+a[1]*5+a[2]*3+a[3]*11+a[4]*13+a[5])%29 != 0 {
			return
		}
		b := make([]int, 6)
		for i := range b {
			b[i] = ops[a[i]]
		}
		run([][]int{b[:2], b[2:4], b[4:6]})
	})
}

func init() { checks["SELF"] = checkSelf }

// checkSelfRace: known racy and race-free programs, in a -race build.
func checkSelfRace(c *ctx) {
	type prog struct {
		name string
		racy bool
		f    func()
	}
	x := 0
	_ = x
	progs := []prog{
		{"unlocked", true, func() {
			y := 0
			ch := make(chan int, 2)
			for i := 0; i < 2; i++ {
				vsched.Go(func() { y++; vsched.SendTo(ch)(1) })
			}
			vsched.Recv(ch)
			vsched.Recv(ch)
			x = y
		}},
		{"locked", false, func() {
			y := 0
			var mu vsync.Mutex
			ch := make(chan int, 2)
			for i := 0; i < 2; i++ {
				vsched.Go(func() { mu.Lock(); y++; mu.Unlock(); vsched.SendTo(ch)(1) })
			}
			vsched.Recv(ch)
			vsched.Recv(ch)
			x = y
		}},
		{"channel ordered", false, func() {
			y := 0
			ch := make(chan int)
			vsched.Go(func() { y = 1; vsched.SendTo(ch)(1) })
			vsched.Recv(ch)
			x = y
		}},
		{"read before done", true, func() {
			y := 0
			ch := make(chan int)
			vsched.Go(func() { vsched.SendTo(ch)(1); y = 1 })
			vsched.Recv(ch)
			x = y
		}},
		{"waitgroup", false, func() {
			y := make([]int, 3)
			var wg vsync.WaitGroup
			for i := range y {
				wg.Add(1)
				vsched.Go(func() { y[i] = i; wg.Done() })
			}
			wg.Wait()
			x = y[2]
		}},
		{"lock order race only in one interleaving", true, func() {
			var mu vsync.Mutex
			y, flag := 0, false
			ch := make(chan int, 2)
			vsched.Go(func() { y = 1; mu.Lock(); flag = true; mu.Unlock(); vsched.SendTo(ch)(1) })
			vsched.Go(func() {
				mu.Lock()
				f := flag
				mu.Unlock()
				if !f {
					y = 2
				}
				vsched.SendTo(ch)(1)
			})
			vsched.Recv(ch)
			vsched.Recv(ch)
			x = y
		}},
	}
	for _, p := range progs {
		c.run(func() string { return p.name }, func() error {
			races := 0
			e := &vsched.Explorer{Body: p.f, MaxDev: -1, Preempt: -1, MaxSteps: 200}
			e.Explore(func(r *vsched.Result) bool { races += r.Races; return true })
			if (races > 0) != p.racy {
				return fmt.Errorf("%s: %d races in %d executions, racy: %v", p.name, races, e.Execs, p.racy)
			}
			return nil
		})
	}
}

func init() { checks["SELFRACE"] = checkSelfRace }

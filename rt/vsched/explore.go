package vsched

import (
	"fmt"
	"strconv"
	"sort"
	"strings"
	"unsafe"
)

// Result is one complete execution.
type Result struct {
	Panics   []string
	Blocked  []string // threads that can never continue, with what they wait for
	MainDone bool     // the main thread finished
	Horizon  bool     // step limit reached
	Redund   bool     // abandoned: sleep set shows it is equivalent to an explored one
	Steps    int
	Threads  int
	Events   []Event
	Schedule []int // decisions, replayable with Replay
	Trace    []string
	Races    int
}

type node struct {
	choice   bool
	n        int // alternatives of a choice node
	chosen   int
	done     map[int]bool
	back     map[int]bool
	enabled  []int
	sleep    map[int]bool // threads asleep on entry
	budgeted bool
	label    string
}

// trans is one executed transition, for the partial-order reduction.
type trans struct {
	th    int
	th2   int // partner of a rendezvous, or -1
	accs  []access
	depth int // stack index of the node that scheduled it
	clock []int
	kind  Kind
}

type access struct {
	obj  unsafe.Pointer
	kind Kind
	wr   bool
	n    int
	send bool
	capy int
	pre  int  // buffered values before the transition
	def  bool // part of a select with default
	ran  bool // executed (pre is known)
}

// Explorer enumerates the executions of Body.
type Explorer struct {
	Body     func()
	MaxExecs int  // 0: no limit
	MaxSteps int  // per execution
	NoReduce bool // enumerate every interleaving (cross-check of the reduction)
	MaxDev   int  // bound on non-default answers of budgeted choices (<0: unlimited)
	Preempt  int  // with NoReduce: bound on preemptions (<0: unlimited)
	// statistics
	Execs, Redundant, Transitions, Choices int
	MaxThreads, MaxDepth                   int
	Capped                                 bool
	stack                                  []*node
	forced                                 []int // replay: the decisions to take
}

func dep(a, b []access) (dependent, coenabled bool) {
	for _, x := range a {
		for _, y := range b {
			if x.obj != y.obj {
				continue
			}
			d, c := depKinds(x, y)
			if d {
				dependent = true
				coenabled = coenabled || c
			}
		}
	}
	return
}

func depKinds(x, y access) (bool, bool) {
	k1, k2 := x.kind, y.kind
	if k1 == KAtomic && k2 == KAtomic {
		r := x.wr || y.wr
		return r, r
	}
	if k1 == KRLock && k2 == KRLock || k1 == KRUnlock && k2 == KRUnlock {
		return false, false
	}
	if k1 == KRLock && k2 == KRUnlock || k2 == KRLock && k1 == KRUnlock {
		return false, false
	}
	isLock := func(k Kind) bool { return k == KLock || k == KRLock }
	isUnl := func(k Kind) bool { return k == KUnlock || k == KRUnlock }
	if isLock(k1) && isUnl(k2) || isLock(k2) && isUnl(k1) {
		return true, false
	}
	if k1 == KWGAdd && k2 == KWGAdd {
		return false, false
	}
	if k1 == KWGAdd && k2 == KWGWait || k2 == KWGAdd && k1 == KWGWait {
		n := x.n + y.n
		return true, n > 0
	}
	if k1 == KWGWait && k2 == KWGWait {
		return false, false
	}
	if k1 == KComm && k2 == KComm && x.ran && x.capy > 0 && !y.def {
		if x.send && !y.send && x.pre == 0 { // the receiver had nothing to take before
			return true, false
		}
		if !x.send && y.send && x.pre == x.capy { // the sender had no room before
			return true, false
		}
	}
	return true, true
}

// pendAccs gives the objects the pending operation of a thread touches.
func pendAccs(o *op) []access {
	switch o.kind {
	case KComm:
		r := make([]access, 0, len(o.cases))
		for _, c := range o.cases {
			if c.ch != nil {
				r = append(r, access{obj: c.ch, kind: KComm, wr: true, send: c.send, capy: c.capy, def: o.hasDef})
			}
		}
		return r
	case KSpawn, KNone, KChoose, KExit:
		return nil
	case KCondWait:
		return []access{{obj: o.obj, kind: o.kind, wr: true}, {obj: o.obj2, kind: KUnlock, wr: true}}
	}
	wr := true
	if o.kind == KAtomic {
		wr = o.write
	}
	return []access{{obj: o.obj, kind: o.kind, wr: wr, n: o.n}}
}

func (s *sched) mu(o *op, p unsafe.Pointer) *muState {
	m := s.mus[p]
	if m == nil {
		m = &muState{ref: o.ref}
		s.mus[p] = m
	}
	return m
}
func (s *sched) wg(o *op) *wgState {
	m := s.wgs[o.obj]
	if m == nil {
		m = &wgState{ref: o.ref}
		s.wgs[o.obj] = m
	}
	return m
}
func (s *sched) cond(o *op) *condState {
	m := s.conds[o.obj]
	if m == nil {
		m = &condState{ref: o.ref, ready: map[*thread]*op{}}
		s.conds[o.obj] = m
	}
	return m
}
func (s *sched) ch(c commCase) *chanState {
	st := s.chans[c.ch]
	if st == nil {
		st = &chanState{ref: c.ref}
		s.chans[c.ch] = st
	}
	return st
}

// alt is one way the pending operation of a thread can execute.
type alt struct {
	ci      int     // case index, -1 default
	partner *thread // rendezvous partner
	pci     int
}

// alts lists the ways th's pending operation can execute now; nil means it is not enabled.
func (s *sched) alts(th *thread) []alt {
	o := th.op
	switch o.kind {
	case KLock:
		m := s.mu(o, o.obj)
		if m.writer || m.readers > 0 {
			return nil
		}
	case KRLock:
		if s.mu(o, o.obj).writer {
			return nil
		}
	case KWGWait:
		if s.wg(o).n != 0 {
			return nil
		}
	case KCondWake:
		if s.cond(o).ready[th] == nil {
			return nil
		}
	case KExit:
		return nil
	case KComm:
		var r []alt
		passiveReady := false
		for i, c := range o.cases {
			if c.ch == nil {
				continue
			}
			st := s.ch(c)
			switch {
			case c.send && st.closed != nil:
				r = append(r, alt{ci: i})
			case c.send && c.capy > 0:
				if len(st.buf) < c.capy {
					r = append(r, alt{ci: i})
				}
			case c.send: // unbuffered: the receiver takes it, unless this is a polling select
				for _, p := range s.threads {
					if p == th || p.done || p.op == nil || p.op.kind != KComm {
						continue
					}
					for j, pc := range p.op.cases {
						if !pc.send && pc.ch == c.ch {
							if o.hasDef {
								r = append(r, alt{ci: i, partner: p, pci: j})
							}
							passiveReady = true
						}
					}
				}
			case len(st.buf) > 0:
				r = append(r, alt{ci: i})
			case c.capy == 0 && st.closed == nil:
				for _, p := range s.threads {
					if p == th || p.done || p.op == nil || p.op.kind != KComm {
						continue
					}
					for j, pc := range p.op.cases {
						if pc.send && pc.ch == c.ch && !(o.hasDef && p.op.hasDef) {
							r = append(r, alt{ci: i, partner: p, pci: j})
						}
					}
				}
			case st.closed != nil:
				r = append(r, alt{ci: i})
			}
		}
		if o.hasDef {
			ready := false
			for _, a := range r {
				if a.partner == nil {
					ready = true
				}
			}
			_ = passiveReady
			if !ready { // partners may not have arrived yet
				r = append(r, alt{ci: -1})
			}
		}
		return r
	}
	return []alt{{}}
}

func mergeClock(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, -1)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// finishComm performs a channel transition; it returns the partner that was completed, if any.
func (s *sched) finishComm(th *thread, a alt) *thread {
	o := th.op
	o.chosen = a.ci
	if a.ci < 0 {
		return nil
	}
	c := o.cases[a.ci]
	st := s.ch(c)
	if a.partner != nil {
		po := a.partner.op
		po.chosen = a.pci
		if c.send {
			po.rval, po.rok = c.val, true
		} else {
			o.rval, o.rok = po.cases[a.pci].val, true
		}
		o.acq = append(o.acq, po)
		po.acq = append(po.acq, o)
		return a.partner
	}
	if c.send {
		if st.closed != nil {
			o.panicv = "send on closed channel"
			return nil
		}
		if len(st.freed) > 0 {
			o.acq = append(o.acq, st.freed[0])
			st.freed = st.freed[1:]
		}
		st.buf = append(st.buf, bufItem{c.val, o})
		return nil
	}
	if len(st.buf) > 0 {
		it := st.buf[0]
		st.buf = st.buf[1:]
		o.rval, o.rok = it.val, true
		o.acq = append(o.acq, it.op)
		st.freed = append(st.freed, o)
		return nil
	}
	o.rok = false
	o.acq = append(o.acq, st.closed)
	return nil
}

// exec applies the chosen transition of th. It returns the threads to resume.
func (s *sched) exec(th *thread, a alt) []*thread {
	o := th.op
	switch o.kind {
	case KComm:
		if p := s.finishComm(th, a); p != nil {
			return []*thread{th, p}
		}
	case KClose:
		if o.obj == nil {
			o.panicv = "close of nil channel"
			break
		}
		st := s.ch(commCase{ch: o.obj, ref: o.ref})
		if st.closed != nil {
			o.panicv = "close of closed channel"
			break
		}
		st.closed = o
	case KLock:
		m := s.mu(o, o.obj)
		m.writer = true
		if m.lastW != nil {
			o.acq = append(o.acq, m.lastW)
		}
		o.acq = append(o.acq, m.lastR...)
		m.lastR = nil
	case KTryLock:
		m := s.mu(o, o.obj)
		if o.write && !m.writer && m.readers == 0 {
			m.writer, o.rok = true, true
			o.acq = append(o.acq, m.lastR...)
		}
		if !o.write && !m.writer {
			m.readers++
			o.rok = true
		}
		if o.rok && m.lastW != nil {
			o.acq = append(o.acq, m.lastW)
		}
	case KUnlock:
		m := s.mu(o, o.obj)
		if !m.writer {
			o.panicv = "sync: unlock of unlocked mutex"
			break
		}
		m.writer = false
		m.lastW = o
	case KRLock:
		m := s.mu(o, o.obj)
		m.readers++
		if m.lastW != nil {
			o.acq = append(o.acq, m.lastW)
		}
	case KRUnlock:
		m := s.mu(o, o.obj)
		if m.readers <= 0 {
			o.panicv = "sync: RUnlock of unlocked RWMutex"
			break
		}
		m.readers--
		m.lastR = append(m.lastR, o)
	case KWGAdd:
		w := s.wg(o)
		w.n += o.n
		w.dones = append(w.dones, o)
		if w.n < 0 {
			o.panicv = "sync: negative WaitGroup counter"
		}
	case KWGWait:
		o.acq = append(o.acq, s.wg(o).dones...)
	case KCondWait:
		m := s.mu(o, o.obj2)
		m.writer = false
		m.lastW = o
		c := s.cond(o)
		c.waiters = append(c.waiters, th)
	case KCondWake:
		c := s.cond(o)
		o.acq = append(o.acq, c.ready[th])
		delete(c.ready, th)
	case KCondSignal, KCondBroadcast:
		c := s.cond(o)
		for len(c.waiters) > 0 {
			c.ready[c.waiters[0]] = o
			c.waiters = c.waiters[1:]
			if o.kind == KCondSignal {
				break
			}
		}
	case KSpawn:
		nt := &thread{id: len(s.threads), path: th.path + "." + strconv.Itoa(th.nchild), wake: make(chan struct{}, 1)}
		th.nchild++
		s.threads = append(s.threads, nt)
		o.child = nt
		return []*thread{th, nt}
	}
	return []*thread{th}
}

// advance lets th run to its next scheduling point.
func (s *sched) advance(e *Explorer, th *thread) {
	for {
		s.cur = th
		th.wake <- struct{}{}
		t := <-s.ctl
		if t != th {
			panic("vsched: two threads running")
		}
		if th.done || th.op.kind != KChoose {
			return
		}
		th.op.chosen = e.pickChoice(th.op.n, true, th.op.label)
	}
}

var depthNow int

// pickChoice resolves a data choice through the exploration stack.
func (e *Explorer) pickChoice(n int, budgeted bool, label string) int {
	if n <= 1 {
		return 0
	}
	d := depthNow
	depthNow++
	if d < len(e.stack) {
		nd := e.stack[d]
		if !nd.choice || nd.n != n {
			panic(fmt.Sprintf("vsched: replay diverged at %d: choice of %d (%s)", d, n, label))
		}
		return nd.chosen
	}
	e.Choices++
	c := 0
	if d < len(e.forced) {
		if c = e.forced[d]; c >= n {
			panic(fmt.Sprintf("vsched: replay diverged at %d: choice %d of %d (%s)", d, c, n, label))
		}
	}
	e.stack = append(e.stack, &node{choice: true, n: n, chosen: c, done: map[int]bool{c: true}, budgeted: budgeted, label: label})
	return c
}

func (e *Explorer) runOnce() *Result {
	s := &sched{ctl: make(chan *thread), chans: map[unsafe.Pointer]*chanState{}, mus: map[unsafe.Pointer]*muState{}, wgs: map[unsafe.Pointer]*wgState{}, conds: map[unsafe.Pointer]*condState{}}
	raceOff()
	defer raceOn()
	active = s
	defer func() { active = nil }()
	depthNow = 0
	r0 := RaceErrors()
	main := &thread{path: "0", wake: make(chan struct{}, 1)}
	s.threads = []*thread{main}
	raceOn()
	go s.threadMain(main, e.Body)
	raceOff()
	s.advance(e, main)
	var log []trans
	byObj := map[unsafe.Pointer][]int{} // transitions touching an object
	res := &Result{}
	cur := main
	sleepNow := map[int]bool{}
	for {
		if len(s.panics) > 0 {
			break
		}
		var en []int
		altsOf := map[int][]alt{}
		for _, t := range s.threads {
			if t.done {
				continue
			}
			if a := s.alts(t); len(a) > 0 {
				en = append(en, t.id)
				altsOf[t.id] = a
			}
		}
		// partial-order reduction: where could pending operations have come earlier?
		if !e.NoReduce && e.MaxExecs != 1 {
			for _, t := range s.threads {
				if t.done {
					continue
				}
				pa := pendAccs(t.op)
				if len(pa) == 0 {
					continue
				}
				last := -1
				for _, p := range pa {
					l := byObj[p.obj]
					for k := len(l) - 1; k >= 0 && l[k] > last; k-- {
						i := l[k]
						tr := &log[i]
						if tr.th == t.id || tr.th2 == t.id {
							continue
						}
						d, co := dep(tr.accs, pa)
						if !d || !co {
							continue
						}
						if tr.th < len(t.clock) && t.clock[tr.th] >= i {
							continue // happens before
						}
						last = i
						break
					}
				}
				if last >= 0 {
					nd := e.stack[log[last].depth]
					found := false
					for _, x := range nd.enabled {
						if x == t.id {
							found = true
						}
					}
					if found {
						nd.back[t.id] = true
					} else {
						for _, x := range nd.enabled {
							nd.back[x] = true
						}
					}
				}
			}
		}
		if len(en) == 0 {
			break
		}
		if e.MaxSteps > 0 && len(log) >= e.MaxSteps {
			res.Horizon = true
			break
		}
		d := depthNow
		depthNow++
		var nd *node
		if d < len(e.stack) {
			nd = e.stack[d]
			ok := !nd.choice
			if ok {
				ok = false
				for _, x := range en {
					if x == nd.chosen {
						ok = true
					}
				}
			}
			if !ok {
				panic(fmt.Sprintf("vsched: replay diverged at depth %d", d))
			}
		} else {
			nd = &node{done: map[int]bool{}, back: map[int]bool{}, enabled: en, sleep: map[int]bool{}}
			for k := range sleepNow {
				nd.sleep[k] = true
			}
			pick := -1
			for _, x := range en {
				if x == cur.id && !nd.sleep[x] {
					pick = x
				}
			}
			if pick < 0 {
				for _, x := range en {
					if !nd.sleep[x] {
						pick = x
						break
					}
				}
			}
			if pick < 0 {
				res.Redund = true
				depthNow--
				break
			}
			if d < len(e.forced) {
				if pick = e.forced[d]; !enabledIn(en, pick) {
					panic(fmt.Sprintf("vsched: replay diverged at %d: thread %d is not enabled", d, pick))
				}
			}
			nd.chosen = pick
			nd.done[pick] = true
			nd.back[pick] = true
			if e.NoReduce {
				for _, x := range en {
					nd.back[x] = true
				}
			}
			e.stack = append(e.stack, nd)
		}
		th := s.threads[nd.chosen]
		as := altsOf[th.id]
		a := as[0]
		if len(as) > 1 {
			a = as[e.pickChoice(len(as), false, "alt")]
		}
		// record the transition
		accs := pendAccs(th.op)
		th2 := -1
		if a.partner != nil {
			th2 = a.partner.id
			accs = append(accs, pendAccs(a.partner.op)...)
		}
		for i := range accs {
			if accs[i].kind == KComm && accs[i].capy > 0 {
				if st := s.chans[accs[i].obj]; st == nil || st.closed == nil {
					accs[i].ran = true
					if st != nil {
						accs[i].pre = len(st.buf)
					}
				}
			}
		}
		idx := len(log)
		ck := append([]int{}, th.clock...)
		if a.partner != nil {
			ck = mergeClock(ck, a.partner.clock)
		}
		if e.MaxExecs != 1 {
			for k, x := range accs {
				seen := false
				for _, y := range accs[:k] {
					seen = seen || y.obj == x.obj
				}
				if seen {
					continue
				}
				for _, i := range byObj[x.obj] {
					if dd, _ := dep(log[i].accs, accs); dd {
						ck = mergeClock(ck, log[i].clock)
					}
				}
				byObj[x.obj] = append(byObj[x.obj], idx)
			}
		}
		for len(ck) <= th.id || len(ck) <= th2 {
			ck = append(ck, -1)
		}
		ck[th.id] = idx
		if th2 >= 0 {
			ck[th2] = idx
		}
		log = append(log, trans{th: th.id, th2: th2, accs: accs, depth: d, clock: ck, kind: th.op.kind})
		res.Trace = append(res.Trace, th.path+":"+th.op.kind.String()+opDetail(th, a))
		// sleep set for the successor: asleep threads whose pending op is independent of this one,
		// plus those already explored from this node
		ns := map[int]bool{}
		if !e.NoReduce {
			cand := map[int]bool{}
			for k := range nd.sleep {
				cand[k] = true
			}
			for k := range nd.done {
				cand[k] = true
			}
			for k := range cand {
				if k == th.id || k == th2 || k >= len(s.threads) || s.threads[k].done {
					continue
				}
				if dd, _ := dep(pendAccs(s.threads[k].op), accs); !dd && enabledIn(en, k) && !partnerOf(altsOf[k], th.id, th2) {
					ns[k] = true
				}
			}
		}
		sleepNow = ns
		e.Transitions++
		resume := s.exec(th, a)
		th.clock = ck
		if a.partner != nil {
			a.partner.clock = append([]int{}, ck...)
		}
		for _, t := range resume {
			if t != th && t != a.partner {
				t.clock = append([]int{}, ck...)
			}
		}
		for _, t := range resume {
			s.advance(e, t)
			if len(s.panics) > 0 {
				break
			}
		}
		// a thread that arrives at an unbuffered channel gives sleeping partners a new alternative
		for _, t := range resume {
			if t.done || t.op == nil || t.op.kind != KComm {
				continue
			}
			for k := range sleepNow {
				if o := s.threads[k].op; o != nil && o.kind == KComm && shareUnbuf(o, t.op) {
					delete(sleepNow, k)
				}
			}
		}
		cur = th
	}
	res.Steps = len(log)
	res.Threads = len(s.threads)
	res.MainDone = main.done
	for _, t := range s.threads {
		if !t.done {
			res.Blocked = append(res.Blocked, "goroutine "+t.path+" waits at "+t.op.kind.String()+caseDetail(t.op))
		}
	}
	// end the remaining threads
	s.kill = true
	for _, t := range s.threads {
		if t.done {
			continue
		}
		t.killed = true
		s.cur = t
		t.wake <- struct{}{}
		for !t.done {
			<-s.ctl
			if !t.done {
				t.wake <- struct{}{}
			}
		}
	}
	for _, t := range s.threads {
		raceOn()
		raceAcq(unsafe.Pointer(&t.hb))
		raceOff()
	}
	res.Panics = s.panics
	res.Events = s.events
	res.Races = RaceErrors() - r0
	for i := 0; i < len(e.stack) && i < depthNow; i++ {
		res.Schedule = append(res.Schedule, e.stack[i].chosen)
	}
	if len(s.threads) > e.MaxThreads {
		e.MaxThreads = len(s.threads)
	}
	if len(log) > e.MaxDepth {
		e.MaxDepth = len(log)
	}
	return res
}

func shareUnbuf(a, b *op) bool {
	for _, x := range a.cases {
		for _, y := range b.cases {
			if x.ch != nil && x.ch == y.ch && x.capy == 0 {
				return true
			}
		}
	}
	return false
}

func partnerOf(as []alt, ids ...int) bool {
	for _, a := range as {
		if a.partner != nil {
			for _, id := range ids {
				if a.partner.id == id {
					return true
				}
			}
		}
	}
	return false
}

func enabledIn(en []int, k int) bool {
	for _, x := range en {
		if x == k {
			return true
		}
	}
	return false
}

func opDetail(th *thread, a alt) string {
	if a.partner != nil {
		return "<->" + a.partner.path
	}
	return caseDetail(th.op)
}

func caseDetail(o *op) string {
	if o.kind != KComm {
		return ""
	}
	var r []string
	for _, c := range o.cases {
		if c.send {
			r = append(r, "send")
		} else {
			r = append(r, "recv")
		}
	}
	return "(" + strings.Join(r, ",") + ")"
}

// Explore enumerates executions, calling check on each one that is not redundant. It stops when
// check returns false, when everything within the bounds is explored, or at MaxExecs.
func (e *Explorer) Explore(check func(*Result) bool) {
	e.stack = nil
	for {
		r := e.runOnce()
		e.Execs++
		if r.Redund {
			e.Redundant++
		} else if !check(r) {
			return
		}
		if e.MaxExecs > 0 && e.Execs >= e.MaxExecs {
			e.Capped = e.next()
			return
		}
		if !e.next() {
			return
		}
	}
}

func (e *Explorer) devs(n int) int {
	c := 0
	for _, nd := range e.stack[:n] {
		if nd.choice && nd.budgeted && nd.chosen != 0 {
			c++
		}
	}
	return c
}

func (e *Explorer) preempts(n int) int {
	c := 0
	prev := -1
	for _, nd := range e.stack[:n] {
		if nd.choice {
			continue
		}
		if prev >= 0 && nd.chosen != prev && enabledIn(nd.enabled, prev) {
			c++
		}
		prev = nd.chosen
	}
	return c
}

// next moves the stack to the next unexplored prefix.
func (e *Explorer) next() bool {
	for len(e.stack) > 0 {
		n := len(e.stack) - 1
		nd := e.stack[n]
		if nd.choice {
			if nd.chosen+1 < nd.n && (!nd.budgeted || e.MaxDev < 0 || e.devs(n)+1 <= e.MaxDev) {
				nd.chosen++
				return true
			}
			e.stack = e.stack[:n]
			continue
		}
		var cand []int
		for k := range nd.back {
			if !nd.done[k] && !nd.sleep[k] {
				cand = append(cand, k)
			}
		}
		sort.Ints(cand)
		for _, k := range cand {
			nd.done[k] = true
			old := nd.chosen
			nd.chosen = k
			if e.NoReduce && e.Preempt >= 0 && e.preempts(n+1) > e.Preempt {
				nd.chosen = old
				continue
			}
			return true
		}
		e.stack = e.stack[:n]
	}
	return false
}

// Replay runs the single execution given by the recorded decisions.
func Replay(body func(), schedule []int, maxSteps int) (r *Result, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	e := &Explorer{Body: body, NoReduce: true, MaxDev: -1, Preempt: -1, MaxSteps: maxSteps, forced: schedule}
	return e.runOnce(), nil
}

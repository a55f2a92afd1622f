package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
)

// okey identifies an option set by all its settings.
func okey(o *boo.Options) string {
	if o == nil {
		return "nil"
	}
	var b strings.Builder
	v := reflect.ValueOf(*o)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Float64:
			fmt.Fprintf(&b, "%s=%x ", v.Type().Field(i).Name, f.Float())
		case reflect.Interface, reflect.Pointer:
			fmt.Fprintf(&b, "%s=%T ", v.Type().Field(i).Name, f.Interface())
		default:
			fmt.Fprintf(&b, "%s=%v ", v.Type().Field(i).Name, f.Interface())
		}
	}
	return b.String()
}

// ---- C14 ----

// pgrid is a small search space; the values are binary fractions.
func pgrid(xgb, central bool, nsteps int) *cv.GridOptions {
	g := cv.DefaultXGridOptions()
	g.XGB = xgb
	g.Rounds = [3]int{1, 3, 2}
	g.MaxDepth = [3]int{2, 2, 1}
	g.LearningRate = [3]float64{0.125, 0.875, 0.25}
	g.Gamma = [3]float64{0, 0.5, 0.25}
	g.Lambda = [3]float64{0.5, 1.5, 0.5}
	g.SubSample = [3]float64{0.5, 1, 0.25}
	g.ColSubSample = [3]float64{0.5, 1, 0.25}
	g.MinChildWeight = [3]float64{1, 1, 1}
	g.NSteps, g.Central, g.EarlyStop = nsteps, central, 2
	return g
}

// concCase is one concurrent use: body returns a description of the outcome.
type concCase struct {
	name string
	body func() string
}

func accSorted(acc float64, accs []float64, o *boo.Options, err error) string {
	s := append([]float64{}, accs...)
	sort.Float64s(s)
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%v %v %s", acc, s, okey(o))
}

func concCases(c *ctx, race bool) []concCase {
	var r []concCase
	small := func(o *boo.Options) *boo.Options {
		o.Rounds, o.MinSample, o.MinChildWeight, o.MaxDepth = 1, 1, 1, 2
		return o
	}
	// grid search
	shapes := [][]int{{1, 1, 1, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 1, 1, 1}, {1, 1, 3, 1, 1, 1, 1, 1}, {1, 2, 1, 1, 2, 1, 1, 1}, {1, 1, 1, 1, 1, 5, 1, 1}}
	for si, sh := range shapes {
		for nc := 0; nc <= 6; nc++ {
			for _, n := range []int{8, 2} {
				for _, wb := range []bool{false, true} {
					if wb && (si+nc)%3 != 0 {
						continue
					}
					sh, nc, n, wb := sh, nc, n, wb
					xgb := (si+nc)%2 == 0
					r = append(r, concCase{fmt.Sprintf("grid search over %v, %d workers, %d samples, xgb %v, writing the best %v", sh, nc, n, xgb, wb), func() string {
						g := gridOf(sh, 0, xgb, 1, nc)
						g.Rounds[0], g.Rounds[1], g.Rounds[2] = 1, g.Rounds[1]-1, 1
						if g.Rounds[1] > 3 {
							g.Rounds[1] = 2
						}
						g.WriteBest = wb
						return accSorted(cv.Grid(cvData(n, 0), 2, g))
					}})
				}
			}
		}
	}
	// one parameter
	for _, p := range []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds", "Curr"} {
		for _, central := range []bool{false, true} {
			for _, n := range []int{8, 2} {
				for start := 0; start < 4; start++ {
					for buf := 0; buf < 2; buf++ {
						p, central, n, start, buf := p, central, n, start, buf
						r = append(r, concCase{fmt.Sprintf("step in %s, central %v, %d samples, start %d, channel of %d", p, central, n, start, buf), func() string {
							g := pgrid(true, central, 1)
							o := small(boo.DefaultXOptions())
							switch start {
							case 0:
								o.Rounds, o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.LearningRate = 2, 0.25, 1, 0.75, 0.75, 0.5
							case 1: // vanishing derivative steps
								o.Gamma, o.Lambda, o.SubSample, o.ColSubSample = 0, 0, 1, 1
							case 2: // invalid
								o = boo.DefaultGOptions()
								o.Rounds = 1
							case 3: // outside the range
								o.Gamma, o.Lambda, o.Rounds = 5, 5, 5
							}
							out := make(chan *boo.Options, buf)
							vsched.Go(func() {
								cv.ParamaterGradStep(cvData(n, 0), o, g, p, 0.1, 0.25, 50, 2, central, out)
							})
							return okey(vsched.Recv(out))
						}})
					}
				}
			}
		}
	}
	// a step in all
	for _, central := range []bool{false, true} {
		for _, n := range []int{8, 2} {
			for start := 0; start < 2; start++ {
				for ch := 0; ch < 3; ch++ {
					central, n, start, ch := central, n, start, ch
					r = append(r, concCase{fmt.Sprintf("gradient step, central %v, %d samples, start %d, channel %d", central, n, start, ch-1), func() string {
						g := pgrid(true, central, 1)
						o := small(boo.DefaultXOptions())
						o.Rounds, o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.LearningRate = 2, 0.25, 1, 0.75, 0.75, 0.5
						if start == 1 {
							o = boo.DefaultGOptions()
							o.Rounds = 1
						}
						if ch == 0 {
							return okey(cv.GradStep(o, g, cvData(n, 0), 0.1, 0.25, 2, central, nil))
						}
						out := make(chan *boo.Options, ch-1)
						ret := make(chan *boo.Options, 1)
						vsched.Go(func() {
							vsched.SendTo(ret)(cv.GradStep(o, g, cvData(n, 0), 0.1, 0.25, 2, central, out))
						})
						a := vsched.Recv(out)
						b := vsched.Recv(ret)
						return okey(a) + " / " + okey(b)
					}})
				}
			}
		}
	}
	// whole searches
	for kind := 0; kind < 2; kind++ {
		for _, central := range []bool{false, true} {
			for _, n := range []int{8, 2} {
				for _, xgb := range []bool{true, false} {
					for _, wb := range []bool{false, true} {
						kind, central, n, xgb, wb := kind, central, n, xgb, wb
						if wb && !xgb {
							continue
						}
						r = append(r, concCase{fmt.Sprintf("search kind %d, central %v, %d samples, xgb %v, writing the best %v", kind, central, n, xgb, wb), func() string {
							g := pgrid(xgb, central, 2)
							g.WriteBest = wb
							if kind == 0 {
								return accSorted(cv.GradientGrid(cvData(n, 0), 2, g))
							}
							g.Rounds = [3]int{1, 1, 1}
							g.Lambda = [3]float64{1, 1.25, 1}
							return accSorted(cv.HybridGradientGrid(cvData(n, 0), 2, g))
						}})
					}
				}
			}
		}
	}
	// cross-validations reporting through channels, at the same time, with shared data and options
	for k := 1; k <= 3; k++ {
		for buf := 0; buf < 2; buf++ {
			for _, n := range []int{8, 2} {
				for shared := 0; shared < 3; shared++ {
					k, buf, n, shared := k, buf, n, shared
					if race && k == 3 && buf == 1 {
						continue
					}
					r = append(r, concCase{fmt.Sprintf("%d cross-validations, channels of %d, %d samples, sharing %d", k, buf, n, shared), func() string {
						var res []string
						D := cvData(n, 0)
						o := small(boo.DefaultXOptions())
						if shared == 2 {
							o = nil
						}
						type got struct {
							a float64
							o *boo.Options
							e error
						}
						gs := make([]got, k)
						var done []chan bool
						for i := 0; i < k; i++ {
							oo, DD := o, D
							if shared == 0 {
								oo, DD = o.Clone(), cvData(n, 0)
							}
							op := &cv.Options{O: oo, Conc: true, Acc: make(chan float64, buf), Err: make(chan error, buf), Ochan: make(chan *boo.Options, buf)}
							vsched.Go(func() { cv.MultiClassCrossValidation(DD, 2, op) })
							d := []chan bool{make(chan bool, 1), make(chan bool, 1), make(chan bool, 1)}
							done = append(done, d...)
							vsched.Go(func() { gs[i].a = vsched.Recv(op.Acc); vsched.SendTo(d[0])(true) })
							vsched.Go(func() { gs[i].e = vsched.Recv(op.Err); vsched.SendTo(d[1])(true) })
							vsched.Go(func() { gs[i].o = vsched.Recv(op.Ochan); vsched.SendTo(d[2])(true) })
						}
						for i := range done {
							vsched.Recv(done[i])
						}
						for _, g := range gs {
							res = append(res, fmt.Sprintf("%v %s %v", g.a, okey(g.o), g.e != nil))
						}
						return strings.Join(res, "; ")
					}})
				}
			}
		}
	}
	return r
}

func checkC14(c *ctx) {
	defer func() {
		vrand.Provider = nil
		vsched.MapReverse = false
		boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil
	}()
	race := vsched.RaceEnabled
	modes := []int{0, 1, 2} // real training; environment accuracies
	if race {
		modes = []int{0}
	}
	cap1 := 400
	if c.thorough() {
		cap1 = 20000
	}
	if race {
		cap1 /= 4
	}
	for _, mode := range modes {
		c.family([]string{"all interleavings, real training", "all interleavings, accuracies by options", "all interleavings, accuracies in another order"}[mode])
		for _, cc := range concCases(c, race) {
			for rev := 0; rev < 2; rev++ {
				if rev == 1 && (strings.Contains(cc.name, "cross-val") || strings.Contains(cc.name, "grid search")) {
					continue
				}
				c.run(func() string { return fmt.Sprintf("%s, maps iterated backwards %v", cc.name, rev == 1) }, func() error {
					vrand.Provider = perThread{uint64(mode + 3)}
					vsched.MapReverse = rev == 1
					defer func() { vsched.MapReverse = false }()
					first, have := "", false
					var last string
					env := func(o *boo.Options) float64 { return 10 + float64(mix(hash(fmt.Sprint(mode, okey(o))))%8000)/100 }
					err := underSched(c, cap1, func() {
						if mode > 0 {
							rec := &recorder{env: env}
							rec.install()
						}
						last = cc.body()
					}, func(r *vsched.Result) error {
						if err := clean(r); err != nil {
							return err
						}
						if race {
							return nil
						}
						if !have {
							first, have = last, true
						} else if last != first {
							return fmt.Errorf("the outcome depends on the interleaving: %s, and %s", first, last)
						}
						return nil
					})
					boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil
					c.outcome(first)
					c.nontrivial(c.fam + cc.name)
					c.trace()
					return err
				})
			}
		}
	}
	if !race {
		checkC14all(c)
	}
}

// checkC14all enumerates interleavings without reduction, bounding preemptions (a cross-check of the reduction
// that also sees dependences through plain memory).
func checkC14all(c *ctx) {
	c.family("interleavings without reduction, bounded preemptions")
	limit, pre := 300, 1
	if c.thorough() {
		limit, pre = 20000, 2
	}
	for _, cc := range concCases(c, false) {
		if strings.Contains(cc.name, "search kind") {
			continue
		}
		c.run(func() string { return cc.name }, func() error {
			vrand.Provider = perThread{5}
			env := func(o *boo.Options) float64 { return 10 + float64(mix(hash(okey(o)))%8000)/100 }
			var err error
			var first, last string
			have := false
			e := &vsched.Explorer{Body: func() {
				rec := &recorder{env: env}
				rec.install()
				last = cc.body()
			}, MaxExecs: limit, MaxSteps: 20000, MaxDev: -1, Preempt: pre, NoReduce: true}
			e.Explore(func(r *vsched.Result) bool {
				if err = clean(r); err == nil && have && last != first {
					err = fmt.Errorf("the outcome depends on the interleaving: %s, and %s", first, last)
				}
				first, have = last, true
				if err != nil {
					err = fmt.Errorf("%v\nschedule (thread of each step): %v", err, cut(fmt.Sprint(r.Schedule), 1500))
				}
				return err == nil
			})
			boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil
			c.state(e.Execs)
			c.transition(e.Transitions)
			if e.Capped {
				c.note(fmt.Sprintf("unreduced enumerations are cut at %d interleavings each (the reduced ones are complete)", limit))
			}
			return err
		})
	}
}

// ---- C15 ----

var gradParams = []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"}

func pget(o *boo.Options, p string) float64 {
	switch p {
	case "Gamma":
		return o.Gamma
	case "Lambda":
		return o.Lambda
	case "SubSample":
		return o.SubSample
	case "ColSubSample":
		return o.ColSubSample
	case "LearningRate":
		return o.LearningRate
	case "MinChildWeight":
		return o.MinChildWeight
	case "MaxDepth":
		return float64(o.MaxDepth)
	}
	return float64(o.Rounds)
}

func pset(o *boo.Options, p string, v float64) {
	switch p {
	case "Gamma":
		o.Gamma = v
	case "Lambda":
		o.Lambda = v
	case "SubSample":
		o.SubSample = v
	case "ColSubSample":
		o.ColSubSample = v
	case "LearningRate":
		o.LearningRate = v
	default:
		o.Rounds = int(v)
	}
}

func prange(g *cv.GridOptions, p string) (lo, hi float64) {
	switch p {
	case "Gamma":
		return g.Gamma[0], g.Gamma[1]
	case "Lambda":
		return g.Lambda[0], g.Lambda[1]
	case "SubSample":
		return g.SubSample[0], g.SubSample[1]
	case "ColSubSample":
		return g.ColSubSample[0], g.ColSubSample[1]
	case "LearningRate":
		return g.LearningRate[0], g.LearningRate[1]
	case "MinChildWeight":
		return g.MinChildWeight[0], g.MinChildWeight[1]
	case "MaxDepth":
		return float64(g.MaxDepth[0]), float64(g.MaxDepth[1])
	}
	return float64(g.Rounds[0]), float64(g.Rounds[1])
}

func sgn(f float64) float64 {
	if f > 0 {
		return 1
	}
	if f < 0 {
		return -1
	}
	return 0
}

// one runs f under the scheduler with one schedule (C14 enumerates them).
func one(c *ctx, f func()) error {
	var err error
	e := &vsched.Explorer{Body: f, MaxExecs: 1, MaxSteps: 2000000, MaxDev: -1, Preempt: -1}
	e.Explore(func(r *vsched.Result) bool {
		err = clean(r)
		return false
	})
	c.state(1)
	c.transition(e.Transitions)
	return err
}

// draws answers from fixed patterns: fold draws are cyclic.
type draws struct {
	f    []float64
	bits uint
	nb   uint
	i, j int
	next int
}

func (d *draws) Float64() float64 { d.i++; return d.f[(d.i-1)%len(d.f)] }
func (d *draws) Uint64() uint64   { d.next++; return mix(uint64(d.next)) }
func (d *draws) IntN(n int) int {
	if n == 2 {
		d.j++
		return int(d.bits >> (uint(d.j-1) % d.nb) & 1)
	}
	d.next++
	return (d.next - 1) % n
}

func sgrid(xgb bool) *cv.GridOptions {
	g := cv.DefaultXGridOptions()
	g.XGB = xgb
	g.Rounds = [3]int{4, 44, 10}
	g.MaxDepth = [3]int{2, 4, 1}
	g.LearningRate = [3]float64{0.125, 0.875, 0.25}
	g.Gamma = [3]float64{0, 1, 0.25}
	g.Lambda = [3]float64{0.5, 2.5, 0.5}
	g.SubSample = [3]float64{0.5, 0.875, 0.125}
	g.ColSubSample = [3]float64{0.375, 0.75, 0.125}
	g.MinChildWeight = [3]float64{1, 3, 1}
	return g
}

func checkGradStep(c *ctx, g *cv.GridOptions, start *boo.Options, signs []int, k, step, fd float64, central bool, nfold int) error {
	keepG := *g
	keep := *start
	D := cvData(12, 0)
	keepD := copyDB(D)
	rec := &recorder{env: func(o *boo.Options) float64 {
		a := 50.0
		for i, p := range gradParams {
			a += float64(signs[i]-1) * k * sgn(pget(o, p)-pget(&keep, p))
		}
		return a
	}}
	rec.install()
	defer rec.remove()
	vrand.Provider = &draws{f: []float64{0.5}, nb: 1}
	defer func() { vrand.Provider = nil }()
	var got *boo.Options
	if err := one(c, func() { got = cv.GradStep(start, g, D, step, fd, nfold, central, nil) }); err != nil {
		return err
	}
	c.trace()
	if !reflect.DeepEqual(*start, keep) {
		return fmt.Errorf("the step changed the options it started from, from %s to %s", okey(&keep), okey(start))
	}
	if *g != keepG {
		return fmt.Errorf("the step changed the search options from %+v to %+v", keepG, *g)
	}
	if !sameDB(D, keepD) {
		return fmt.Errorf("the step changed the data")
	}
	if got == nil {
		return fmt.Errorf("no options returned")
	}
	if got == start {
		return fmt.Errorf("the options returned are the ones given, not a copy")
	}
	nf := expectFolds(len(D.Data), nfold)
	for _, e := range rec.evals {
		if len(e.train.Data) != len(D.Data)-len(D.Data)/nf {
			return fmt.Errorf("%d-fold cross-validation requested, trained on %d of %d samples", nf, len(e.train.Data), len(D.Data))
		}
	}
	for i, p := range gradParams {
		a, b := pget(&keep, p), pget(got, p)
		s := float64(signs[i] - 1)
		if math.IsNaN(b) || math.IsInf(b, 0) {
			return fmt.Errorf("%s is %v after the step", p, b)
		}
		if s == 0 && a != b {
			return fmt.Errorf("%s does not change the accuracy and moved from %v to %v", p, a, b)
		}
		if s*(b-a) < 0 {
			return fmt.Errorf("the accuracy grows with %s as %v, and it moved from %v to %v", p, s, a, b)
		}
		lo, hi := prange(g, p)
		if a >= lo && a <= hi && (b < lo || b > hi) {
			return fmt.Errorf("%s moved from %v to %v, out of [%v,%v]", p, a, b, lo, hi)
		}
		if a != b {
			c.nontrivial(fmt.Sprint(c.idx))
		}
		if rec.scored() && s != 0 {
			if err := wholeStep(g, &keep, p, b, s*k, step, fd, central); err != nil {
				return err
			}
			if a != b {
				if err := differences(rec, &keep, p, fd, central); err != nil {
					return err
				}
			}
		}
		pset(got, p, a)
	}
	if !reflect.DeepEqual(*got, keep) {
		return fmt.Errorf("the step changed an option it does not search: %s, was %s", okey(got), okey(&keep))
	}
	return nil
}

func pstep(g *cv.GridOptions, p string) float64 {
	switch p {
	case "Gamma":
		return g.Gamma[2]
	case "Lambda":
		return g.Lambda[2]
	case "SubSample":
		return g.SubSample[2]
	case "ColSubSample":
		return g.ColSubSample[2]
	case "LearningRate":
		return g.LearningRate[2]
	}
	return float64(g.Rounds[2])
}

// wholeStep checks the size of a step of one parameter, when the whole step stays in the search space: the slope of
// the accuracy (k up, -k down from the start) times the parameter's grid step times the step size.
func wholeStep(g *cv.GridOptions, start *boo.Options, p string, got, k, step, fd float64, central bool) error {
	for _, q := range append([]string{"MinChildWeight", "MaxDepth"}, gradParams...) {
		v := pget(start, q)
		if lo, hi := prange(g, q); v < lo || v > hi {
			return nil
		}
	}
	v := pget(start, p)
	d := v * fd
	if p == "Rounds" {
		d = float64(int(d))
	}
	if d <= 0 {
		return nil
	}
	h := v * fd
	var slopes []float64
	if central {
		slopes = []float64{k / h, k * h}
	} else {
		slopes = []float64{k / h}
	}
	lo, hi := prange(g, p)
	var wants []float64
	for _, s := range slopes {
		w := s * pstep(g, p) * step
		tol := 1e-9 * (math.Abs(w) + math.Abs(v))
		if p == "Rounds" {
			w = float64(int(w))
			tol = 1
		}
		// clearly inside, or nothing is demanded
		if v+w < lo+tol || v+w > hi-tol || math.Abs(w) <= tol {
			return nil
		}
		if math.Abs(got-(v+w)) <= tol {
			return nil
		}
		wants = append(wants, v+w)
	}
	return fmt.Errorf("%s moved from %v to %v, the whole step, to %v, is inside [%v,%v]", p, v, got, wants, lo, hi)
}

// differences checks that the slope of a parameter that moved comes from evaluations that differ from the start in
// that parameter only, by the requested fraction of its value.
func differences(rec *recorder, start *boo.Options, p string, fd float64, central bool) error {
	v := pget(start, p)
	d := v * fd
	if p == "Rounds" {
		d = float64(int(d))
	}
	wants := []float64{v + d}
	if central {
		wants = append(wants, v-d)
	}
	for _, w := range wants {
		found := false
		for _, e := range rec.evals {
			o := e.o
			if !near(pget(&o, p), w, 1e-9*math.Abs(v)) {
				continue
			}
			pset(&o, p, v)
			if okey(&o) == okey(start) {
				found = true
				break
			}
		}
		if !found {
			return fmt.Errorf("%s moved, but only it changed from %v to %v was not evaluated", p, v, w)
		}
	}
	return nil
}

// startOf gives the options a search starts a cell from: the grid values of the cell, the middle of the other ranges.
func startOf(g *cv.GridOptions, cw float64, md int, cell [2]float64) *boo.Options {
	o := boo.DefaultGOptions()
	if g.XGB {
		o = boo.DefaultXOptions()
	}
	o.XGB, o.EarlyStop, o.MinChildWeight, o.MaxDepth = g.XGB, g.EarlyStop, cw, md
	for _, p := range gradParams {
		lo, hi := prange(g, p)
		pset(o, p, (lo+hi)/2)
	}
	if cell[0] >= 0 {
		o.Rounds, o.Lambda = int(cell[0]), cell[1]
	}
	return o
}

func sameSearched(a, b *boo.Options) bool {
	for _, p := range append([]string{"MinChildWeight", "MaxDepth"}, gradParams...) {
		if !near(pget(a, p), pget(b, p), 1e-9*(1+math.Abs(pget(b, p)))) {
			return false
		}
	}
	return true
}

// climb checks that a search with one starting point evaluates the results of the requested number of gradient steps,
// each from the one before, up to the first that changes nothing or is worse than the best.
func climb(c *ctx, kind int, g *cv.GridOptions, nfold int, env func(*boo.Options) float64) error {
	D := cvData(12, 0)
	rec := &recorder{env: env}
	rec.install()
	defer rec.remove()
	vrand.Provider = &draws{f: []float64{0.5}, bits: 1, nb: 2}
	defer func() { vrand.Provider = nil }()
	var acc float64
	var best *boo.Options
	var err error
	if e := one(c, func() {
		if kind == kGradient {
			acc, _, best, err = cv.GradientGrid(D, nfold, g)
		} else {
			acc, _, best, err = cv.HybridGradientGrid(D, nfold, g)
		}
	}); e != nil {
		return e
	}
	if err != nil || best == nil {
		return fmt.Errorf("error %v, options %v", err, best)
	}
	c.trace()
	if !rec.scored() {
		c.note("accuracies were not observed")
		return nil
	}
	evals := rec.evals
	// the options evaluated that are these, up to rounding
	like := func(o *boo.Options) *boo.Options {
		for _, e := range evals {
			if sameSearched(&e.o, o) {
				r := e.o
				return &r
			}
		}
		return nil
	}
	has := func(o *boo.Options) bool { return like(o) != nil }
	cell := [2]float64{-1, -1}
	if kind == kHybrid {
		cell = [2]float64{float64(g.Rounds[0]), g.Lambda[0]}
	}
	t := startOf(g, g.MinChildWeight[0], g.MaxDepth[0], cell)
	if !has(t) {
		return fmt.Errorf("the start %s was not evaluated", okey(t))
	}
	t = like(t)
	top := env(t)
	n := 0
	for ; n <= g.NSteps; n++ {
		var next *boo.Options
		rec.evals = nil
		if e := one(c, func() { next = cv.GradStep(t, g, D, g.Step, g.DeltaFraction, nfold, g.Central, nil) }); e != nil {
			return e
		}
		if sameSearched(next, t) {
			return nil
		}
		if n == g.NSteps {
			moved := 0
			for _, p := range gradParams {
				if pget(next, p) != pget(t, p) {
					moved++
				}
			}
			if moved > 1 && has(next) { // one moved parameter can look like a difference
				return fmt.Errorf("a step more than the %d requested was taken, to %s", n, okey(next))
			}
			break
		}
		if !has(next) {
			return fmt.Errorf("step %d of %d leads from %s to %s, which was not evaluated", n+1, g.NSteps, okey(t), okey(next))
		}
		c.nontrivial(fmt.Sprint(c.idx))
		next = like(next)
		a := env(next)
		if a < top {
			if n+1 == g.NSteps {
				return nil
			}
			var after *boo.Options
			if e := one(c, func() { after = cv.GradStep(next, g, D, g.Step, g.DeltaFraction, nfold, g.Central, nil) }); e != nil {
				return e
			}
			moved := 0
			for _, p := range gradParams {
				if pget(after, p) != pget(next, p) {
					moved++
				}
			}
			if moved > 1 && has(after) {
				return fmt.Errorf("step %d scored %v, below %v, and the next step started from it, to %s", n+1, a, top, okey(after))
			}
			return nil
		}
		top = a
		if acc < top-1e-9 {
			return fmt.Errorf("step %d scored %v, the best reported is %v", n+1, top, acc)
		}
		t = next
	}
	return nil
}

// search kinds
const (
	kGradient = iota
	kHybrid
)

type searchCase struct {
	kind    int
	g       *cv.GridOptions
	none    int // 1: no options are passed, 2: nil is passed (g has the defaults)
	nfold   int
	n       int
	base    func(o *boo.Options) float64
	prov    func() vrand.Answers
	samples int
}

// runSearch runs one search; dev, if >= 0, is the index of the distinct evaluated options whose accuracy deviates.
func runSearch(c *ctx, s *searchCase, dev []int, to []func(float64) float64) (int, error) {
	D := cvData(s.n, 0)
	keepD := copyDB(D)
	g := *s.g
	keepG := g
	idx := map[string]int{}
	val := map[string]float64{}
	rec := &recorder{env: func(o *boo.Options) float64 {
		k := okey(o)
		if v, ok := val[k]; ok {
			return v
		}
		v := s.base(o)
		for i, d := range dev {
			if d == len(idx) {
				v = to[i](v)
			}
		}
		idx[k] = len(idx)
		val[k] = v
		return v
	}}
	rec.install()
	defer rec.remove()
	vrand.Provider = s.prov()
	defer func() { vrand.Provider = nil }()
	var acc float64
	var accs []float64
	var o *boo.Options
	var err error
	if e := one(c, func() {
		opts := [][]*cv.GridOptions{{&g}, {}, {nil}}[s.none]
		if s.kind == kGradient {
			acc, accs, o, err = cv.GradientGrid(D, s.nfold, opts...)
		} else {
			acc, accs, o, err = cv.HybridGradientGrid(D, s.nfold, opts...)
		}
	}); e != nil {
		return 0, e
	}
	c.trace()
	if err != nil {
		return 0, fmt.Errorf("error %v", err)
	}
	if g != keepG {
		return 0, fmt.Errorf("the search changed its options from %+v to %+v", keepG, g)
	}
	if !sameDB(D, keepD) {
		return 0, fmt.Errorf("the search changed the data")
	}
	if o == nil {
		return 0, fmt.Errorf("no options returned, accuracy %v", acc)
	}
	nf := expectFolds(s.n, s.nfold)
	cnt := map[string]int{}
	def := boo.DefaultXOptions()
	if !g.XGB {
		def = boo.DefaultGOptions()
	}
	for _, e := range rec.evals {
		if len(e.train.Data) == s.n && g.WriteBest {
			continue
		}
		cnt[okey(&e.o)]++
		if len(e.train.Data) != s.n-s.n/nf {
			return 0, fmt.Errorf("%d-fold cross-validation requested, trained on %d of %d samples", nf, len(e.train.Data), s.n)
		}
		if e.o.XGB != g.XGB || e.o.EarlyStop != g.EarlyStop {
			return 0, fmt.Errorf("evaluated with xgb=%v and early stopping %d, requested %v and %d", e.o.XGB, e.o.EarlyStop, g.XGB, g.EarlyStop)
		}
		if e.o.MinSample != def.MinSample || e.o.TreeMethod != def.TreeMethod || !reflect.DeepEqual(e.o.Loss, def.Loss) {
			return 0, fmt.Errorf("an option not searched is different from the default: %s", okey(&e.o))
		}
	}
	if g.XGB != o.XGB || o.EarlyStop != g.EarlyStop || o.MinSample != def.MinSample || o.TreeMethod != def.TreeMethod || !reflect.DeepEqual(o.Loss, def.Loss) {
		return 0, fmt.Errorf("an option not searched is different in the returned ones: %s", okey(o))
	}
	for _, p := range append([]string{"MinChildWeight", "MaxDepth"}, gradParams...) {
		v := pget(o, p)
		lo, hi := prange(&g, p)
		if math.IsNaN(v) || v < lo || v > hi {
			return 0, fmt.Errorf("the returned %s is %v, its range is [%v,%v]", p, v, lo, hi)
		}
	}
	if math.IsNaN(o.BaseScore) || math.IsInf(o.BaseScore, 0) {
		return 0, fmt.Errorf("base score %v", o.BaseScore)
	}
	k := okey(o)
	if cnt[k] == 0 {
		return 0, fmt.Errorf("the returned options %s were never evaluated", k)
	}
	if cnt[k]%nf != 0 {
		return 0, fmt.Errorf("the returned options were trained %d times in %d-fold cross-validation", cnt[k], nf)
	}
	v, scored := val[k]
	if !scored {
		c.note("accuracies were not observed")
		return len(idx), nil
	}
	if !near(acc, v, 1e-9) {
		return 0, fmt.Errorf("the returned options scored %v, the accuracy returned is %v", v, acc)
	}
	if len(accs) == 0 || !near(accs[len(accs)-1], acc, 1e-9) {
		return 0, fmt.Errorf("accuracies %v, best %v", accs, acc)
	}
	for i := 1; i < len(accs); i++ {
		if accs[i] <= accs[i-1] {
			return 0, fmt.Errorf("the accuracies do not increase: %v", accs)
		}
	}
	// the starting points: every combination of the parameters on a grid is tried, with the others in the middle
	for cw := g.MinChildWeight[0]; cw <= g.MinChildWeight[1]; cw += g.MinChildWeight[2] {
		for md := g.MaxDepth[0]; md <= g.MaxDepth[1]; md += g.MaxDepth[2] {
			cells := [][2]float64{{-1, -1}}
			if s.kind == kHybrid {
				cells = nil
				for r := g.Rounds[0]; r <= g.Rounds[1]; r += g.Rounds[2] {
					for l := g.Lambda[0]; l <= g.Lambda[1]; l += g.Lambda[2] {
						cells = append(cells, [2]float64{float64(r), l})
					}
				}
			}
			for _, cell := range cells {
				found := false
				start := startOf(&g, cw, md, cell)
				for _, e := range rec.evals {
					if !sameSearched(&e.o, start) || e.o.BaseScore != start.BaseScore {
						continue
					}
					found = true
					if v, ok := val[okey(&e.o)]; ok && acc < v-1e-9 {
						return 0, fmt.Errorf("the start with minimum child weight %v and depth %d scored %v (%s), but the best reported is %v", cw, md, v, okey(&e.o), acc)
					}
					break
				}
				if !found {
					return 0, fmt.Errorf("minimum child weight %v and depth %d (rounds and lambda %v), the rest in the middle, were not tried", cw, md, cell)
				}
			}
		}
	}
	c.outcome(fmt.Sprint(accs, k))
	return len(idx), nil
}

func checkC15(c *ctx) {
	defer func() { boo.VerifNewMultiClass, boo.VerifAccuracy, vrand.Provider = nil, nil, nil }()
	c.family("gradient steps, every combination of signs")
	// start positions: 0 low, 1 middle, 2 high per parameter
	starts := [][]int{{1, 1, 1, 1, 1, 1}, {0, 0, 0, 0, 0, 0}, {2, 2, 2, 2, 2, 2}}
	for i := 0; i < 6; i++ {
		for _, v := range []int{0, 2, 3} {
			s := []int{1, 1, 1, 1, 1, 1}
			s[i] = v
			starts = append(starts, s)
		}
	}
	type scale struct{ k, step, fd float64 }
	scales := []scale{{1, 0.1, 0.25}, {0.001, 0.1, 0.05}, {40, 1, 0.25}, {3, 10, 0.5}, {1, 0.0078125, 0.0625}, {40, 0.002, 0.25}, {0.00001, 10, 0.25}}
	for si, st := range starts {
		for ki, sc := range scales {
			for _, central := range []bool{false, true} {
				for _, nfold := range []int{2, 3} {
					if c.quick && (si > 2 && (si+ki)%3 != 0 || (si+ki+nfold)%2 != 0) {
						continue
					}
					xgb := (si+ki)%4 != 3
					tuples(6, 3, func(signs []int) {
						if c.quick && si > 2 && (signs[0]+2*signs[1]+signs[2]*4+signs[3]*5+signs[4]*7+signs[5]+si)%5 != 0 {
							return
						}
						c.run(func() string {
							return fmt.Sprintf("start %v, signs %v of %v, step %v, fraction %v, central %v, %d-fold, xgb %v", st, signs, gradParams, sc.step, sc.fd, central, nfold, xgb)
						}, func() error {
							g := sgrid(true)
							o := boo.DefaultXOptions()
							o.BaseScore, o.EarlyStop, o.TreeMethod, o.MaxDepth, o.MinChildWeight = 0.3, 4, "foo", 3, 2
							if !xgb {
								o.XGB = false
								o.Loss = &utils.MSELoss{}
							}
							for i, p := range gradParams {
								lo, hi := prange(g, p)
								switch st[i] {
								case 0:
									pset(o, p, lo)
								case 1:
									pset(o, p, (lo+hi)/2)
								case 2:
									pset(o, p, hi)
								case 3:
									pset(o, p, hi*1.125)
								}
							}
							return checkGradStep(c, g, o, append([]int{}, signs...), sc.k, sc.step, sc.fd, central, nfold)
						})
					})
				}
			}
		}
	}
	// whole searches
	c.family("searches")
	hashAcc := func(seed string, mod uint64) func(o *boo.Options) float64 {
		return func(o *boo.Options) float64 { return float64(mix(hash(seed+okey(o)))%mod) * 100 / float64(mod) }
	}
	type namedAcc struct {
		name string
		f    func(o *boo.Options) float64
	}
	lin := func(dir ...float64) func(o *boo.Options) float64 {
		g := sgrid(true)
		return func(o *boo.Options) float64 {
			a := 50.0
			for i, p := range gradParams {
				lo, hi := prange(g, p)
				a += 8 * dir[i] * ((pget(o, p)-lo)/(hi-lo) - 0.5)
			}
			return math.Max(0, math.Min(100, a))
		}
	}
	accf := []namedAcc{
		{"hash a", hashAcc("a", 1000)}, {"hash b", hashAcc("b", 1000)}, {"ties", hashAcc("c", 3)}, {"zero or one", hashAcc("d", 2)},
		{"zero", func(*boo.Options) float64 { return 0 }}, {"hundred", func(*boo.Options) float64 { return 100 }},
		{"up", lin(1, 1, 1, 1, 1, 1)}, {"down", lin(-1, -1, -1, -1, -1, -1)}, {"mixed", lin(1, -1, 0, 1, -1, 1)}, {"mixed 2", lin(-1, 1, 1, -1, 1, -1)},
		{"steep", lin(6, -6, 6, -6, 6, -6)},
		{"hash e", hashAcc("e", 100000)},
		{"close", func(o *boo.Options) float64 { return 50 + float64(mix(hash("f"+okey(o)))%1000)*1e-7 }},
	}
	type pat struct {
		f    []float64
		bits uint
		nb   uint
	}
	pats := []pat{{[]float64{0.5}, 0, 1}, {[]float64{almostOne}, 1, 1}, {[]float64{0}, 0, 1}, {[]float64{almostOne, 0.25}, 0b01, 2}, {[]float64{0.75, 0.125, 0.5}, 0b1101, 5}}
	for ai, a := range accf {
		for none := 1; none <= 2; none++ {
			c.run(func() string { return fmt.Sprintf("no options (%d), accuracies %s", none, a.name) }, func() error {
				_, err := runSearch(c, &searchCase{kind: kGradient, g: cv.DefaultXGridOptions(), none: none, nfold: 2, n: 10, base: a.f, prov: func() vrand.Answers { return &draws{f: pats[ai%len(pats)].f, bits: 1, nb: 2} }}, nil, nil)
				return err
			})
		}
	}
	for _, kind := range []int{kGradient, kHybrid} {
		for none := 1; none <= 2; none++ {
			c.run(func() string { return fmt.Sprintf("no options (%d), too small data, search %d", none, kind) }, func() error {
				return one(c, func() {
					opts := [][]*cv.GridOptions{{}, {nil}}[none-1]
					var o *boo.Options
					var err error
					if kind == kGradient {
						_, _, o, err = cv.GradientGrid(cvData(3, 0), 2, opts...)
					} else {
						_, _, o, err = cv.HybridGradientGrid(cvData(3, 0), 2, opts...)
					}
					if err == nil {
						panic(fmt.Sprintf("no error for 3 samples: %v", o))
					}
				})
			})
		}
	}
	for kind := 0; kind < 2; kind++ {
		for ai, a := range accf {
			for pi, p := range pats {
				for _, central := range []bool{false, true} {
					for _, xgb := range []bool{true, false} {
						for _, nsteps := range []int{0, 1, 2, 4, 7} {
							for _, sc := range scales[:4] {
								if c.quick && (ai*3+pi*5+nsteps+int(sc.step*10)+b2i(central)+b2i(xgb)+kind)%9 != 0 {
									continue
								}
								mk := func() *searchCase {
									g := sgrid(xgb)
									g.Central, g.NSteps, g.Step, g.DeltaFraction = central, nsteps, sc.step, sc.fd
									g.EarlyStop = (ai + pi) % 4
									switch (ai + pi + nsteps) % 4 {
									case 0:
										g.MaxDepth = [3]int{2, 2, 1}
									case 1:
										g.MinChildWeight = [3]float64{2, 2, 1}
										g.MaxDepth = [3]int{3, 4, 1}
									case 2:
										g.MaxDepth = [3]int{2, 4, 2}
										g.MinChildWeight = [3]float64{1, 1.5, 0.5}
									case 3:
										g.Gamma = [3]float64{0, 0, 1}
										g.Lambda = [3]float64{0, 1, 0.5}
										g.MaxDepth = [3]int{5, 5, 3}
										g.MinChildWeight = [3]float64{1, 1, 1}
									}
									if kind == kHybrid {
										g.Rounds = [3]int{10, 20, 10}
										g.Lambda = [3]float64{1, 1.5, 0.5}
										g.MaxDepth[1] = g.MaxDepth[0]
									}
									n, nf := 12, 2+(ai+pi)%2
									return &searchCase{kind: kind, g: g, nfold: nf, n: n, base: a.f, prov: func() vrand.Answers { return &draws{f: p.f, bits: p.bits, nb: p.nb} }}
								}
								c.run(func() string {
									s := mk()
									return fmt.Sprintf("search kind %d, accuracies %s, draws %+v, %d-fold, %+v", kind, a.name, p, s.nfold, *s.g)
								}, func() error {
									s := mk()
									k, err := runSearch(c, s, nil, nil)
									if err != nil {
										return err
									}
									c.nontrivial(fmt.Sprint(c.idx))
									// every single deviation of an evaluation
									stride := 1
									if c.quick && k > 12 {
										stride = (k + 11) / 12
									}
									for d := 0; d < k; d += stride {
										for t, to := range []func(float64) float64{func(v float64) float64 { return math.Min(100, v+13) }, func(v float64) float64 { return 0 }} {
											if c.quick && (d/stride+t)%2 == 1 {
												continue
											}
											if _, err := runSearch(c, s, []int{d}, []func(float64) float64{to}); err != nil {
												return fmt.Errorf("accuracy of the %d-th options evaluated deviating (%d): %v", d, t, err)
											}
										}
									}
									return nil
								})
							}
						}
					}
				}
			}
		}
	}
	c.family("climbing")
	dirs := [][]float64{{1, 1, 1, 1, 1, 1}, {-1, -1, -1, -1, -1, -1}, {1, -1, 0, 1, -1, 1}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 0.1, 0, 0}, {-1, 1, 1, -1, 1, -1}, {0, 0, 0, 0, 1, 0}, {0.05, 0.1, 0.2, 0.1, 0.2, 0.05}}
	for i := 0; i < 12; i++ {
		dirs = append(dirs, []float64{float64(i)})
	}
	for kind := 0; kind < 2; kind++ {
		for di, dir := range dirs {
			for _, central := range []bool{false, true} {
				for nsteps := 0; nsteps <= 6; nsteps++ {
					for si, sc := range []scale{{0, 0.1, 0.25}, {0, 0.01, 0.05}, {0, 0.5, 0.5}, {0, 0.003, 0.125}} {
						kind, dir, central, nsteps, sc := kind, dir, central, nsteps, sc
						c.run(func() string {
							return fmt.Sprintf("climbing, kind %d, slopes %v, central %v, %d steps of %v, fraction %v", kind, dir, central, nsteps, sc.step, sc.fd)
						}, func() error {
							g := sgrid((di+si)%3 != 2)
							g.Central, g.NSteps, g.Step, g.DeltaFraction = central, nsteps, sc.step, sc.fd
							g.MaxDepth, g.MinChildWeight = [3]int{2, 2, 1}, [3]float64{2, 2, 1}
							if kind == kHybrid {
								// one starting point, inside the ranges
								g.Rounds[2], g.Lambda[2] = 100, 10
								g.Rounds[0], g.Lambda[0] = 20, 1
							}
							if len(dir) == 1 {
								return climb(c, kind, g, 2+nsteps%2, hashAcc(fmt.Sprint("climb", dir[0]), 100000))
							}
							return climb(c, kind, g, 2+nsteps%2, lin(dir...))
						})
					}
				}
			}
		}
	}
	c.family("too small data, fold counts")
	for kind := 0; kind < 2; kind++ {
		for n := 0; n <= 13; n++ {
			for nf := 0; nf <= 6; nf++ {
				kind, n, nf := kind, n, nf
				c.run(func() string { return fmt.Sprintf("kind %d, %d samples, %d-fold", kind, n, nf) }, func() error {
					g := sgrid(true)
					g.NSteps, g.MaxDepth, g.MinChildWeight = 2, [3]int{2, 2, 1}, [3]float64{1, 1, 1}
					g.Central = n%2 == 0
					if kind == kHybrid {
						g.Rounds, g.Lambda = [3]int{10, 10, 10}, [3]float64{1, 1, 1}
					}
					if n >= 4 && nf != 1 {
						if k := expectFolds(n, nf); n%k == 0 {
							s := &searchCase{kind: kind, g: g, nfold: nf, n: n, base: hashAcc("q", 1000), prov: func() vrand.Answers { return &draws{f: []float64{0.5}, bits: 1, nb: 2} }}
							_, err := runSearch(c, s, nil, nil)
							return err
						}
						return nil
					}
					vrand.Provider = &draws{f: []float64{0.5}, bits: 1, nb: 2}
					defer func() { vrand.Provider = nil }()
					var err error
					var o *boo.Options
					if e := one(c, func() {
						if kind == kGradient {
							_, _, o, err = cv.GradientGrid(cvData(n, 0), nf, g)
						} else {
							_, _, o, err = cv.HybridGradientGrid(cvData(n, 0), nf, g)
						}
					}); e != nil {
						return e
					}
					if err == nil {
						return fmt.Errorf("no error, options %v", o)
					}
					return nil
				})
			}
		}
	}
}

func init() {
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

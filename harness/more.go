package main

// C27: progress output. C28: defaults.

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
)

// ---- C27 ----

var captureFile *os.File

// printed gives what f writes to the standard output.
func printed(f func() error) (string, error) {
	if captureFile == nil {
		d, err := os.MkdirTemp("", "verif-out")
		if err != nil {
			panic("harness: " + err.Error())
		}
		captureFile, err = os.OpenFile(filepath.Join(d, "out"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
		os.RemoveAll(d)
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	captureFile.Truncate(0)
	captureFile.Seek(0, io.SeekStart)
	old := os.Stdout
	os.Stdout = captureFile
	err := func() error {
		defer func() { os.Stdout = old }()
		return f()
	}()
	n, _ := captureFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	captureFile.ReadAt(b, 0)
	return string(b), err
}

var lossLine = regexp.MustCompile(`^round: *(\d+), *class: *(\d+) +train loss *= *(\S+)$`)

// lossLines checks the progress report of a training against the trees of the model.
func lossLines(t *trainCase, m *model, text string) error {
	as, ok, err := t.attempts()
	if err != nil {
		return err
	}
	var rounds []int
	for i, a := range as {
		if !t.skipped(a) {
			rounds = append(rounds, i)
		}
	}
	if ok && len(rounds) != len(m.rounds) {
		return fmt.Errorf("%d rounds were to be trained, the model has %d", len(rounds), len(m.rounds))
	}
	n, K := len(t.D.Data), len(m.meta.ClassLabels)
	raw := make([][]float64, n)
	for i := range raw {
		raw[i] = make([]float64, K)
		for k := range raw[i] {
			raw[i][k] = m.meta.BaseScore
		}
	}
	text = strings.TrimRight(text, "\n")
	var lines []string
	if text != "" {
		lines = strings.Split(text, "\n")
	}
	at := 0
	for ri, r := range m.rounds {
		for k, tree := range r {
			if tree.ns == 0 {
				continue
			}
			loss := 0.0
			for i, x := range t.D.Data {
				raw[i][k] += tree.leafFor(x).val * m.meta.LearningRate
				y := 0.0
				if t.D.Labels[i] == m.meta.ClassLabels[k] {
					y = 1
				}
				p := softmax(raw[i])[k]
				loss += (y - p) * (y - p) / float64(n)
			}
			if at >= len(lines) {
				return fmt.Errorf("%d lines printed; no line for round %d, class %d", len(lines), ri, k)
			}
			f := lossLine.FindStringSubmatch(strings.TrimSpace(lines[at]))
			if f == nil {
				return fmt.Errorf("line %d printed is %q", at+1, lines[at])
			}
			gr, _ := strconv.Atoi(f[1])
			gk, _ := strconv.Atoi(f[2])
			gl, err := strconv.ParseFloat(f[3], 64)
			if ok && gr != rounds[ri] || gk != k || err != nil || math.Abs(gl-loss) > 0.0005+1e-9 {
				return fmt.Errorf("line %d printed is %q; the %d-th trained round, class %d ends with loss %v", at+1, lines[at], ri, k, loss)
			}
			at++
		}
	}
	if at != len(lines) {
		return fmt.Errorf("%d lines for %d trees: %q", len(lines), at, cut(strings.Join(lines[at:], "\n"), 300))
	}
	return nil
}

func verboseTraining(c *ctx, t *trainCase, rnd func() vrand.Answers) {
	c.run(t.String, func() error {
		texts := [2]string{}
		for v := 0; v < 2; v++ {
			t.rnd = rnd()
			o := *t.O
			o.Verbose = v == 1
			keep := t.O
			t.O = &o
			var m *boo.MultiClass
			out, err := printed(func() error { m = t.train(); return nil })
			t.O = keep
			if err != nil {
				return err
			}
			texts[v], err = modelText(m)
			if err != nil {
				return err
			}
			if v == 0 {
				if out != "" {
					return fmt.Errorf("training without Verbose printed %q", cut(out, 300))
				}
				continue
			}
			d, err := parseModel(texts[v])
			if err != nil {
				return err
			}
			if err := lossLines(t, d, out); err != nil {
				return err
			}
			if len(d.rounds) > 0 {
				c.nontrivial(texts[v])
			}
			c.outcome(out)
		}
		c.state(1)
		c.trace()
		c.transition(1)
		if texts[0] != texts[1] {
			return fmt.Errorf("with Verbose the model is\n%s\nwithout\n%s", cut(texts[1], 1500), cut(texts[0], 1500))
		}
		return nil
	})
}

var bestLine = regexp.MustCompile(`(?i)^new best accuracy:?\s+([^\s%,]+)(%?),?\s+(\S.*)$`)

type searchFunc = func(*utils.DataBunch, int, ...*cv.GridOptions) (float64, []float64, *boo.Options, error)

// verboseSearch compares a search with and without Verbose.
func verboseSearch(c *ctx, search searchFunc, mk func() *cv.GridOptions, f func(*boo.Options) float64, n, nfold int, prov func() vrand.Answers) error {
	var prev string
	for v := 0; v < 2; v++ {
		g := mk()
		g.Verbose = v == 1
		D := cvData(n, 0)
		rec := &recorder{env: f}
		rec.install()
		vrand.Provider = prov()
		var acc float64
		var accs []float64
		var best *boo.Options
		var err error
		out, e := printed(func() error {
			return one(c, func() { acc, accs, best, err = search(D, nfold, g) })
		})
		rec.remove()
		vrand.Provider = nil
		if e != nil {
			return e
		}
		var evals []string
		for _, e := range rec.evals {
			o := e.o
			o.Verbose = false
			evals = append(evals, okey(&o))
		}
		k := "nil"
		if best != nil {
			o := *best
			o.Verbose = false
			k = okey(&o)
		}
		now := fmt.Sprintf("accuracy %v accuracies %v error %v options %s evaluated %v", acc, accs, err != nil, k, evals)
		c.trace()
		if v == 0 {
			if out != "" {
				return fmt.Errorf("a search without Verbose printed %q", cut(out, 300))
			}
			prev = now
			continue
		}
		if now != prev {
			return fmt.Errorf("with Verbose: %s\nwithout: %s", cut(now, 1500), cut(prev, 1500))
		}
		if err != nil {
			return nil
		}
		last, lastOpts := math.Inf(-1), ""
		nb := 0
		for _, l := range strings.Split(out, "\n") {
			m := bestLine.FindStringSubmatch(strings.TrimSpace(l))
			if m == nil {
				continue
			}
			nb++
			a, e := strconv.ParseFloat(m[1], 64)
			if e != nil {
				return fmt.Errorf("printed %q", l)
			}
			found := false
			for _, ev := range rec.evals {
				if ev.o.String() == strings.TrimSpace(m[3]) && (math.Abs(f(&ev.o)-a) < 1e-9 || m[2] == "%" && math.Abs(f(&ev.o)-a) <= 0.5+1e-9) {
					found = true
				}
			}
			if !found {
				return fmt.Errorf("printed %q; no options were evaluated with that accuracy", l)
			}
			if a < last || a == last && m[2] != "%" {
				return fmt.Errorf("printed %q after a best accuracy of %v", l, last)
			}
			last, lastOpts = a, strings.TrimSpace(m[3])
		}
		if nb == 0 {
			return fmt.Errorf("no best accuracy was printed: %q", cut(out, 500))
		}
		if lastOpts != best.String() || math.Abs(last-acc) > 0.5+1e-9 {
			return fmt.Errorf("the last best accuracy printed is %v with %s, returned is %v with %s", last, lastOpts, acc, best)
		}
		c.nontrivial(out)
		c.outcome(out)
	}
	return nil
}

// verboseScripts: every sequence of improvements, stalls and worsenings, for every early stop, with and without Verbose.
func verboseScripts(c *ctx) {
	c.family("scripted losses")
	length := 8
	if c.thorough() {
		length = 10
	}
	n := 6
	for K := 2; K <= 3; K++ {
		l := make([]int, n)
		for i := range l {
			l[i] = labelNames[(i*i+i)/2%K]
		}
		D := bunch(transpose(col(6, n), col(4, n)), l)
		tuples(length-1, 3, func(a []int) {
			if c.quick && K == 3 && (a[0]+a[1]+a[2]+a[3])%3 != 0 {
				return
			}
			sc := []float64{64}
			for _, v := range a {
				sc = append(sc, sc[len(sc)-1]+float64(v-1))
			}
			a0 := fmt.Sprint(a)
			c.run(func() string { return fmt.Sprintf("%d classes, losses %v", K, sc) }, func() error {
				for es := 0; es <= length; es++ {
					var texts [2]string
					for v := range texts {
						o := hypers[2].set(mkopts(es%2 == 0, 1))
						o.Rounds, o.EarlyStop, o.LearningRate, o.MaxDepth, o.Verbose = length, es, 0.1, 2, v == 1
						scripts := [][]float64{sc, {9, 8, 8, 8, 7, 7, 8, 9, 10, 11}, {5, 5, 5, 5, 4, 3, 2, 1, 1, 1}}[:K]
						o.Loss = newScripted(D, scripts)
						var m *boo.MultiClass
						out, _ := printed(func() error { m = boo.NewMultiClass(D, o); return nil })
						var err error
						texts[v], err = modelText(m)
						if err != nil {
							return err
						}
						if v == 0 {
							if out != "" {
								return fmt.Errorf("printed without Verbose: %q", cut(out, 300))
							}
							continue
						}
						d, err := parseModel(texts[v])
						if err != nil {
							return err
						}
						var want []string
						for r, ts := range d.rounds {
							for k, x := range ts {
								if x.ns > 0 {
									want = append(want, fmt.Sprintf("%d %d %.3f", r, k, scripts[k][min(r, len(scripts[k])-1)]))
								}
							}
						}
						var got []string
						for _, l := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
							if f := lossLine.FindStringSubmatch(strings.TrimSpace(l)); f != nil {
								got = append(got, strings.Join(f[1:4], " "))
							}
						}
						if !slices.Equal(got, want) {
							return fmt.Errorf("EarlyStop %d: printed %v, should be %v", es, got, want)
						}
					}
					c.transition(2)
					if texts[0] != texts[1] {
						return fmt.Errorf("EarlyStop %d: with Verbose the model is\n%s\nwithout\n%s", es, cut(texts[1], 1500), cut(texts[0], 1500))
					}
				}
				c.state(length + 1)
				c.nontrivial(a0)
				return nil
			})
		})
	}
}

func checkC27(c *ctx) {
	log.SetOutput(io.Discard)
	i := 0
	cases := func(t *trainCase) {
		i++
		if c.quick && i%2 != 0 { // every second one of the space of C04 (thorough: all)
			return
		}
		verboseTraining(c, t, func() vrand.Answers { return nil })
	}
	enumTrain(c, cases)
	enumLong(c, func(t *trainCase) {
		if t.O.Rounds < 60 && len(t.D.Data) < 120 {
			cases(t)
		}
	})
	verboseScripts(c)
	c.family("sub-sampled training")
	N := len(colPats)
	for seed := uint64(0); seed < 24; seed++ {
		for _, n := range []int{4, 7, 12, 30} {
			for K := 1; K <= 3; K++ {
				for _, ms := range []int{1, 3, 6} {
					for es := 0; es < 3; es++ {
						l := make([]int, n)
						for i := range l {
							l[i] = labelNames[i%K]
						}
						o := hypers[2].set(xopts(int(seed) % 2))
						o.Gamma = 0
						o.SubSample, o.ColSubSample, o.MinSample = 0.5, []float64{1, 0.5}[seed%2], ms
						o.Rounds, o.EarlyStop = 12, es
						p := int(seed)
						verboseTraining(c, &trainCase{name: fmt.Sprintf("stream %d", seed), D: bunch(transpose(col(p%N, n), col((p+4)%N, n), col((p+9)%N, n)), l), O: o}, func() vrand.Answers { s := stream{seed * 7919}; return &s })
					}
				}
			}
		}
	}
	j := 0
	enumTrees(c, func(t *treeCase) {
		j++
		if c.quick && (j%40 != 0 || len(t.X) > 60) {
			return
		}
		c.run(t.String, func() error {
			var texts [2]string
			for v := 0; v < 2; v++ {
				o := t.options()
				o.Debug = v == 1
				var tr *boo.Tree
				out, _ := printed(func() error { tr = boo.NewTree(t.X, o); return nil })
				b, _, err := utils.JSONTree(tr)
				if err != nil {
					return err
				}
				texts[v] = fmt.Sprintf("%s", b)
				if out != "" {
					return fmt.Errorf("growing a tree printed %q", cut(out, 300))
				}
			}
			c.state(1)
			c.nontrivial(texts[0])
			if texts[0] != texts[1] {
				return fmt.Errorf("with Debug the tree is\n%s\nwithout\n%s", cut(texts[1], 1500), cut(texts[0], 1500))
			}
			return nil
		})
	})
	c.family("searches")
	scores := []struct {
		name string
		f    func(*boo.Options) float64
	}{
		{"up", func(o *boo.Options) float64 {
			return 30 + float64(o.Rounds)/2 + 20*o.LearningRate + 3*float64(o.MaxDepth) - o.MinChildWeight
		}},
		{"down", func(o *boo.Options) float64 { return 80 - float64(o.Rounds)/2 - 20*o.LearningRate - o.Lambda }},
		{"hash", func(o *boo.Options) float64 { return float64(hash(okey(noVerbose(o)))%10000) / 100 }},
		{"coarse", func(o *boo.Options) float64 { return float64(hash(okey(noVerbose(o)))%4) * 25 }},
		{"flat", func(o *boo.Options) float64 { return 50 }},
		{"zero", func(o *boo.Options) float64 { return 0 }},
	}
	pats := [][]float64{{0}, {0.5, 0.25}, {almostOne, 0, 0.5}}
	for _, s := range scores {
		for _, xgb := range []bool{true, false} {
			for nc := 0; nc <= 5; nc++ {
				for _, axes := range [][]int{{1, 1, 1, 1, 1, 1, 1, 1}, {2, 1, 3, 1, 1, 1, 1, 1}, {1, 3, 1, 2, 1, 1, 2, 1}, {3, 2, 1, 1, 2, 1, 1, 2}} {
					c.run(func() string { return fmt.Sprintf("grid %v, workers %d, scores %s, xgb=%v", axes, nc, s.name, xgb) }, func() error {
						return verboseSearch(c, cv.Grid, func() *cv.GridOptions { return gridOf(axes, 0.5, xgb, 2, nc) }, s.f, 6, 2, func() vrand.Answers { return perThread{3} })
					})
				}
			}
			for ki, search := range []searchFunc{cv.GradientGrid, cv.HybridGradientGrid} {
				for _, central := range []bool{true, false} {
					for steps := 0; steps <= 3; steps++ {
						for pi, pat := range pats {
							for bits := uint(0); bits < 4; bits++ {
								c.run(func() string {
									return fmt.Sprintf("search %d, central=%v, %d steps, scores %s, xgb=%v, draws %d/%d", ki, central, steps, s.name, xgb, pi, bits)
								}, func() error {
									return verboseSearch(c, search, func() *cv.GridOptions {
										g := sgrid(xgb)
										g.MaxDepth = [3]int{2, 3, 1}
										g.MinChildWeight = [3]float64{1, 2, 1}
										if ki == 1 {
											g.Rounds = [3]int{4, 24, 20}
											g.Lambda = [3]float64{0.5, 1.5, 1}
										}
										g.NSteps, g.Central, g.EarlyStop, g.Step, g.DeltaFraction = steps, central, 3, 0.5, 0.125
										return g
									}, s.f, 8, 2, func() vrand.Answers { return &draws{f: pat, bits: bits, nb: 2} })
								})
							}
						}
					}
				}
			}
		}
	}
}

func noVerbose(o *boo.Options) *boo.Options {
	r := *o
	r.Verbose = false
	return &r
}

// ---- C28 ----

// flipped changes every exported field of the struct p points to.
func flipped(p any) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		flip(v.Field(i))
	}
}

func flip(f reflect.Value) {
	if !f.CanSet() {
		return
	}
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.Int:
		f.SetInt(f.Int() + 17)
	case reflect.Float64:
		f.SetFloat(f.Float() + 17)
	case reflect.String:
		f.SetString(f.String() + "x")
	case reflect.Array:
		for i := 0; i < f.Len(); i++ {
			flip(f.Index(i))
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			flip(f.Index(i))
		}
		f.Set(reflect.MakeSlice(f.Type(), 3, 3))
	case reflect.Interface, reflect.Pointer:
		f.SetZero()
	}
}

func checkC28(c *ctx) {
	c.family("default options are fresh")
	makers := []struct {
		name string
		f    func() any
	}{
		{"DefaultXOptions", func() any { return boo.DefaultXOptions() }},
		{"DefaultGOptions", func() any { return boo.DefaultGOptions() }},
		{"DefaultOptions", func() any { return boo.DefaultOptions() }},
		{"DefaultXTreeOptions", func() any { return boo.DefaultXTreeOptions() }},
		{"DefaultGTreeOptions", func() any { return boo.DefaultGTreeOptions() }},
		{"DefaultXGridOptions", func() any { return cv.DefaultXGridOptions() }},
		{"DefaultGGridOptions", func() any { return cv.DefaultGGridOptions() }},
		{"DefaultGridOptions", func() any { return cv.DefaultGridOptions() }},
	}
	show := func(p any) string { return fmt.Sprintf("%+v", reflect.ValueOf(p).Elem().Interface()) }
	same := func(a, b any) bool { return reflect.DeepEqual(a, b) }
	for i := range makers {
		for j := range makers {
			for k := range makers {
				c.run(func() string { return fmt.Sprint(makers[i].name, ", ", makers[j].name, ", ", makers[k].name) }, func() error {
					first, ref := makers[i].f(), makers[k].f()
					flipped(first)
					second := makers[j].f()
					flipped(second)
					if again := makers[k].f(); !same(again, ref) {
						return fmt.Errorf("%s gives %s, before options got from %s and %s were changed it gave %s", makers[k].name, show(again), makers[i].name, makers[j].name, show(ref))
					}
					c.state(1)
					c.nontrivial(fmt.Sprint(i, j, k))
					return nil
				})
			}
		}
	}
	c.family("the plain defaults are those of xgboost")
	c.run(func() string { return "DefaultOptions, DefaultGridOptions" }, func() error {
		if a, b := boo.DefaultOptions(), boo.DefaultXOptions(); !same(a, b) {
			return fmt.Errorf("DefaultOptions is %s, DefaultXOptions %s", show(a), show(b))
		}
		if a, b := cv.DefaultGridOptions(), cv.DefaultXGridOptions(); !same(a, b) {
			return fmt.Errorf("DefaultGridOptions is %s, DefaultXGridOptions %s", show(a), show(b))
		}
		if !boo.DefaultXOptions().XGB || boo.DefaultGOptions().XGB || !cv.DefaultXGridOptions().XGB || cv.DefaultGGridOptions().XGB || !boo.DefaultXTreeOptions().XGB || boo.DefaultGTreeOptions().XGB {
			return fmt.Errorf("a default has the wrong kind of boosting")
		}
		if err := boo.DefaultXOptions().Check(); err != nil {
			return fmt.Errorf("the defaults are not valid: %v", err)
		}
		c.state(1)
		return nil
	})
	c.family("training without options")
	N := len(colPats)
	for _, n := range []int{1, 2, 5, 6, 9, 14, 25, 60} {
		for p := 0; p < N; p++ {
			for K := 1; K <= 4; K++ {
				for seed := uint64(0); seed < 4; seed++ {
					l := make([]int, n)
					for i := range l {
						l[i] = labelNames[(i+i/3)%K]
					}
					X := transpose(col(p, n), col((p+3)%N, n))
					c.run(func() string { return fmt.Sprintf("%s n=%d classes=%d stream %d", colPats[p].name, n, K, seed) }, func() error {
						var texts []string
						for _, opts := range [][]*boo.Options{{boo.DefaultXOptions()}, {}, {nil}, {boo.DefaultOptions()}} {
							vrand.Provider = &stream{seed * 104729}
							m := boo.NewMultiClass(bunch(X, l), opts...)
							vrand.Provider = nil
							t, err := modelText(m)
							if err != nil {
								return err
							}
							texts = append(texts, t)
							if t != texts[0] {
								return fmt.Errorf("without options (way %d) the model is\n%s\nwith the default ones\n%s", len(texts)-1, cut(t, 1500), cut(texts[0], 1500))
							}
						}
						c.state(1)
						c.trace()
						c.nontrivial(texts[0])
						return nil
					})
				}
			}
		}
	}
	c.family("folds not given")
	for n := 0; n <= 40; n++ {
		for _, nfold := range []int{0, -1, -5, math.MinInt} {
			for _, copies := range []bool{false, true} {
				for seed := uint64(0); seed < 3; seed++ {
					c.run(func() string { return fmt.Sprintf("n=%d nfold=%d copies=%v stream %d", n, nfold, copies, seed) }, func() error {
						var seen []string
						for _, nf := range []int{5, nfold} {
							vrand.Provider = &stream{seed * 31337}
							k, next, err := utils.CrossValidationSamples(idData(n), nf, copies)
							s := fmt.Sprint(k, err != nil)
							for i := 0; next != nil && i <= k; i++ {
								tr, te := next()
								s += fmt.Sprintf(" | %v %v", tr, te)
								if tr != nil {
									s += fmt.Sprint(tr.Data, tr.Labels, te.Data, te.Labels)
								}
							}
							vrand.Provider = nil
							seen = append(seen, s)
						}
						c.state(1)
						if seen[0] != seen[1] {
							return fmt.Errorf("%d folds requested gives %s, 5 gives %s", nfold, cut(seen[1], 800), cut(seen[0], 800))
						}
						if !copies && n > 3 {
							c.nontrivial(seen[0])
						}
						return nil
					})
				}
			}
		}
	}
	c.family("cross-validation without options")
	for _, n := range []int{3, 4, 7, 10, 23} {
		for _, nfold := range []int{0, 2, 3, 5} {
			for pat := 0; pat < 3; pat++ {
				for seed := uint64(1); seed <= 4; seed++ {
					for conc := 0; conc < 2; conc++ {
						c.run(func() string {
							return fmt.Sprintf("n=%d nfold=%d data %d stream %d channels=%v", n, nfold, pat, seed, conc == 1)
						}, func() error {
							var seen []string
							for _, o := range []*boo.Options{boo.DefaultXOptions(), nil} {
								vrand.Provider = perThread{seed}
								var acc float64
								var err error
								e := one(c, func() {
									x := &cv.Options{O: o}
									if conc == 0 {
										acc, err = cv.MultiClassCrossValidation(cvData(n, pat), nfold, x)
										return
									}
									x.Conc, x.Acc, x.Err, x.Ochan = true, make(chan float64, 1), make(chan error, 1), make(chan *boo.Options, 1)
									cv.MultiClassCrossValidation(cvData(n, pat), nfold, x)
									err, acc = vsched.Recv(x.Err), vsched.Recv(x.Acc)
								})
								vrand.Provider = nil
								if e != nil {
									return e
								}
								seen = append(seen, fmt.Sprint(acc, err != nil))
							}
							c.trace()
							c.nontrivial(fmt.Sprint(n, nfold, pat, seed))
							if seen[0] != seen[1] {
								return fmt.Errorf("without options the accuracy and error are %s, with the default ones %s", seen[1], seen[0])
							}
							return nil
						})
					}
				}
			}
		}
	}
	c.family("searches without options")
	for si, search := range []searchFunc{cv.Grid, cv.GradientGrid, cv.HybridGradientGrid} {
		for _, nfold := range []int{2, 0} {
			for _, cutAt := range []int{1, 2, 30, 700} {
				for _, score := range []uint64{1, 2, 3} {
					c.run(func() string {
						return fmt.Sprintf("search %d, nfold %d, first %d evaluations, scores %d", si, nfold, cutAt, score)
					}, func() error {
						var seen []string
						for _, opts := range [][]*cv.GridOptions{{cv.DefaultXGridOptions()}, {}, {nil}, {cv.DefaultGridOptions()}} {
							s, err := firstEvaluations(c, search, opts, nfold, cutAt, score)
							if err != nil {
								return err
							}
							seen = append(seen, s)
							if s != seen[0] {
								return fmt.Errorf("way %d to leave out the options gives\n%s\nthe default options\n%s", len(seen)-1, cut(s, 1500), cut(seen[0], 1500))
							}
						}
						c.nontrivial(seen[0])
						return nil
					})
				}
			}
		}
	}
	c.family("reading and writing without settings")
	dir, err := os.MkdirTemp("", "verif-def")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	vals := []string{"0", "1", "-2", "3.5", "1e3"}
	for rows := 0; rows <= 3; rows++ {
		for cols := 1; cols <= 3; cols++ {
			for mode := 0; mode < 8; mode++ { // header, labels, final newline
				for off := 0; off < len(vals); off++ {
					c.run(func() string { return fmt.Sprintf("%d x %d, mode %d, values from %d", rows, cols, mode, off) }, func() error {
						var csv, svm []string
						if mode&1 == 1 {
							h, s := []string{}, []string{"0"}
							if mode&2 == 2 {
								h = append(h, "label")
							}
							for j := 0; j < cols; j++ {
								h = append(h, fmt.Sprintf("f%d", j))
								s = append(s, fmt.Sprintf("%d:f%d", j+1, j))
							}
							csv, svm = append(csv, strings.Join(h, ",")), append(svm, strings.Join(s, " "))
						}
						for i := 0; i < rows; i++ {
							h, s := []string{}, []string{strconv.Itoa(i * 3)}
							if mode&2 == 2 {
								h = append(h, strconv.Itoa(i*3))
							}
							for j := 0; j < cols; j++ {
								v := vals[(i*3+j+off)%len(vals)]
								h = append(h, v)
								s = append(s, fmt.Sprintf("%d:%s", j+1, v))
							}
							csv, svm = append(csv, strings.Join(h, ",")), append(svm, strings.Join(s, " "))
						}
						end := ""
						if mode&4 == 4 {
							end = "\n"
						}
						f := filepath.Join(dir, fmt.Sprintf("d%d", c.idx))
						defer os.Remove(f)
						if err := os.WriteFile(f, []byte(strings.Join(csv, "\n")+end), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
						a, ea := utils.DataBunchFromCSVFile(f, mode&1 == 1, mode&2 == 2)
						b, eb := utils.DataBunchFromCSVFile(f, mode&1 == 1, mode&2 == 2, ',')
						if (ea == nil) != (eb == nil) || ea == nil && !sameDB(a, b) {
							return fmt.Errorf("CSV read without a separator: %v %v, with a comma: %v %v", a, ea, b, eb)
						}
						if ea == nil && len(a.Data) != rows {
							return fmt.Errorf("%d of %d rows read", len(a.Data), rows)
						}
						if ea == nil {
							if x, y := a.CSV(), a.CSV(","); x != y {
								return fmt.Errorf("CSV written without a separator: %q, with a comma: %q", x, y)
							}
						}
						if err := os.WriteFile(f, []byte(strings.Join(svm, "\n")+end), 0o600); err != nil {
							panic("harness: " + err.Error())
						}
						a, ea = utils.DataBunchFromLibSVMFile(f)
						b, eb = utils.DataBunchFromLibSVMFile(f, false)
						if (ea == nil) != (eb == nil) || ea == nil && !sameDB(a, b) {
							return fmt.Errorf("libSVM read without saying whether there is a header: %v %v, without a header: %v %v", a, ea, b, eb)
						}
						if mode&1 == 0 && (ea != nil || len(a.Data) != rows) {
							return fmt.Errorf("libSVM text without header: %v %v", a, ea)
						}
						c.state(1)
						c.nontrivial(fmt.Sprint(csv, end))
						return nil
					})
				}
			}
		}
	}
}

const enough = "harness: enough evaluations"

// firstEvaluations gives the first evaluations of a search (its options and sizes), and the result if it ends before.
func firstEvaluations(c *ctx, search searchFunc, opts []*cv.GridOptions, nfold, n int, score uint64) (string, error) {
	D := cvData(10, 0)
	var seen []string
	rec := &recorder{env: func(o *boo.Options) float64 {
		seen = append(seen, okey(o))
		if len(seen) >= n {
			panic(enough)
		}
		return float64((hash(okey(o))*score)%100000) / 1000
	}}
	rec.install()
	defer rec.remove()
	vrand.Provider = perThread{score}
	defer func() { vrand.Provider = nil }()
	var result string
	stopped := false
	var err error
	e := &vsched.Explorer{Body: func() {
		acc, accs, o, err := search(D, nfold, opts...)
		result = fmt.Sprint(acc, accs, okey(o), err != nil)
	}, MaxExecs: 1, MaxSteps: 2000000, MaxDev: -1, Preempt: -1}
	e.Explore(func(r *vsched.Result) bool {
		err = clean(r)
		stopped = err != nil && strings.Contains(err.Error(), enough)
		return false
	})
	c.state(1)
	c.trace()
	c.transition(e.Transitions)
	if stopped {
		err = nil
	}
	return fmt.Sprintf("%v %s", seen, result), err
}

func init() {
	checks["C27"] = checkC27
	checks["C28"] = checkC28
}

package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"
	"strings"

	"github.com/rmera/boo"
	"gonum.org/v1/gonum/mat"
)

// chunkReader delivers s in pieces of at most n bytes and then fails with err; with tail the error
// comes together with the last piece.
type chunkReader struct {
	s    string
	n    int
	err  error
	tail bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	k := min(len(p), r.n, len(r.s))
	copy(p, r.s[:k])
	r.s = r.s[k:]
	if len(r.s) == 0 && r.tail {
		return k, r.err
	}
	return k, nil
}

type failWriter struct {
	b    strings.Builder
	fail int
	n    int
}

var errInjected = errors.New("injected fault")

func (w *failWriter) WriteString(s string) (int, error) {
	w.n++
	if w.n == w.fail {
		return 0, errInjected
	}
	return w.b.WriteString(s)
}

type persisted struct {
	name string
	make func() (*boo.MultiClass, *model, error)
	rows [][]float64
}

func chain(depth int, s float64) *node {
	n := lf(0.5)
	for d := 0; d < depth; d++ {
		if d%2 == 0 {
			n = sp(d%2, float64(d), s*(1+float64(d)/8), n, lf(-float64(d)))
		} else {
			n = sp(d%2, -float64(d), s*(1+float64(d)/8), lf(float64(d)/3), n)
		}
	}
	return n
}

// full is a complete tree with 2^depth leaves.
func full(depth int, s float64, at int) *node {
	if depth == 0 {
		return lf(float64(at%17)/8 - 1)
	}
	return sp(depth%2, float64(at%9)/2-2, s*(1+float64(at%5)/8), full(depth-1, s, 2*at), full(depth-1, s, 2*at+1))
}

func sameTree(a, b *node) error {
	if (a == nil) != (b == nil) {
		return fmt.Errorf("%v and %v", a, b)
	}
	if a == nil {
		return nil
	}
	if a.leaf != b.leaf || a.ns != b.ns || a.branches != b.branches || a.val != b.val || !a.leaf && (a.feat != b.feat || a.thr != b.thr || a.score != b.score) {
		x, y := *a, *b
		x.l, x.r, y.l, y.r = nil, nil, nil, nil
		return fmt.Errorf("nodes %+v and %+v", x, y)
	}
	if err := sameTree(a.l, b.l); err != nil {
		return err
	}
	return sameTree(a.r, b.r)
}

// describes checks a saved text against the description of the model.
func describes(d *model, text string) error {
	g, err := parseModel(text)
	if err != nil {
		return err
	}
	if !slices.Equal(g.meta.ClassLabels, d.meta.ClassLabels) || g.meta.LearningRate != d.meta.LearningRate || g.meta.BaseScore != d.meta.BaseScore || g.meta.XGB != d.meta.XGB {
		return fmt.Errorf("metadata %+v, should be %+v", g.meta, d.meta)
	}
	if len(g.rounds) != len(d.rounds) {
		return fmt.Errorf("%d rounds, should be %d", len(g.rounds), len(d.rounds))
	}
	for i := range g.rounds {
		if len(g.rounds[i]) != len(d.rounds[i]) {
			return fmt.Errorf("%d trees in round %d, should be %d", len(g.rounds[i]), i, len(d.rounds[i]))
		}
		for k := range g.rounds[i] {
			if err := sameTree(g.rounds[i][k], d.rounds[i][k]); err != nil {
				return fmt.Errorf("round %d class %d: %v", i, k, err)
			}
		}
	}
	return nil
}

func enumPersist(c *ctx, f func(*persisted)) {
	c.family("crafted models")
	enumCrafted(c, func(x *crafted) {
		f(&persisted{x.String(), func() (*boo.MultiClass, *model, error) {
			return craft(x.labels, x.lr, x.base, x.xgb, x.rounds)
		}, gridRows})
	})
	c.family("special values")
	vals := []float64{0.1 + 0.2, 5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, math.Copysign(0, -1), 1e21, 123456789.123456789, -1.0 / 3}
	for i, v := range vals {
		for _, xgb := range []bool{true, false} {
			v, w := v, vals[(i+4)%len(vals)]
			s := 1.0
			if !xgb {
				s = -1
			}
			for _, g := range []float64{5e-324, 1.0 / 3, 1e300} {
				f(&persisted{fmt.Sprintf("special %v %v xgb=%v gain=%v", v, w, xgb, g), func() (*boo.MultiClass, *model, error) {
					return craft([]int{-7, math.MaxInt32, 0}, 1.0/3, w, xgb, [][]*node{
						{sp(0, v, s*g, lf(w), lf(v)), lf(v), lf(-v)},
						{lf(0.1), sp(1, w, s*g, lf(0.7), sp(0, v, s*0.1, lf(v), lf(w))), lf(w)}})
				}, [][]float64{{v, w}, {w, v}, {0, 0}, {math.Nextafter(v, math.Inf(1)), w}, {-v, -w}}})
			}
		}
	}
	c.family("deep and wide")
	for _, depth := range []int{5, 40, 300} {
		for _, xgb := range []bool{true, false} {
			s := 1.0
			if !xgb {
				s = -1
			}
			f(&persisted{fmt.Sprintf("chain of depth %d", depth), func() (*boo.MultiClass, *model, error) {
				return craft([]int{1, 2}, 0.01, 0.5, xgb, [][]*node{{chain(depth, s), chain(depth/2, s)}, {chain(3, s), lf(1)}})
			}, gridRows})
		}
	}
	for _, depth := range []int{8, 11} {
		for _, xgb := range []bool{true, false} {
			s := 1.0
			if !xgb {
				s = -1
			}
			f(&persisted{fmt.Sprintf("full trees of depth %d", depth), func() (*boo.MultiClass, *model, error) {
				return craft([]int{1 << 40, -1 << 50, 1 << 31}, 0.01, 0.5, xgb, [][]*node{{full(depth, s, 1), full(depth-1, s, 3), lf(1)}})
			}, gridRows})
		}
	}
	c.family("large numbers")
	for _, xgb := range []bool{true, false} {
		s := 1.0
		if !xgb {
			s = -1
		}
		for li, ls := range [][]int{{1<<53 + 1, -(1<<53 + 1), 1<<53 - 1}, {math.MaxInt64, math.MinInt64, 0}, {math.MaxInt64 - 1, math.MaxInt64, 1 << 60}, {1 << 16, 1<<16 + 1, 1 << 32}, {1<<32 + 1, 1, -1}} {
			f(&persisted{fmt.Sprintf("large labels %d xgb=%v", li, xgb), func() (*boo.MultiClass, *model, error) {
				return craft(ls, 0.3, 0.5, xgb, [][]*node{{chain(3, s), lf(1), sp(1, 0.5, s, lf(2), lf(-1))}, {lf(-1), chain(2, s), lf(0.25)}})
			}, gridRows})
		}
		for _, feat := range []int{127, 128, 255, 256, 32768, 65535, 65536, 70001, 140000} {
			var rows [][]float64
			for i := 0; i < 3; i++ {
				r := make([]float64, feat+1)
				r[feat] = float64(i)
				r[feat%256], r[feat%65536] = r[feat%256]+1.5, r[feat%65536]+1.5
				rows = append(rows, r)
			}
			f(&persisted{fmt.Sprintf("column %d xgb=%v", feat, xgb), func() (*boo.MultiClass, *model, error) {
				return craft([]int{4, 2}, 0.3, 0.5, xgb, [][]*node{{sp(feat, 0.5, s, lf(2), sp(feat, 2, s/2, lf(7), lf(-1))), lf(1)}, {lf(0.25), sp(feat-1, 0, s/4, lf(1), lf(2))}})
			}, rows})
		}
	}
	c.family("deep and wide")
	for _, K := range []int{300, 20000} {
		f(&persisted{fmt.Sprintf("%d classes", K), func() (*boo.MultiClass, *model, error) {
			l := make([]int, K)
			r := make([]*node, K)
			for i := range l {
				l[i] = i*7 - 1000
				r[i] = lf(float64(i%13) / 8)
			}
			return craft(l, 0.3, 0.5, true, [][]*node{r})
		}, gridRows[:2]})
	}
	for _, R := range []int{12, 120} {
		f(&persisted{fmt.Sprintf("%d rounds", R), func() (*boo.MultiClass, *model, error) {
			lib := treeLib(true)
			var rs [][]*node
			for i := 0; i < R; i++ {
				rs = append(rs, []*node{lib[i%len(lib)], lib[(i+2)%len(lib)], lib[(i*5+1)%len(lib)]})
			}
			return craft([]int{3, 1, 2}, 0.3, 0.5, true, rs)
		}, gridRows})
	}
	enumBig(c, func(x *crafted, rows [][]float64) {
		if len(rows) > 100 || len(x.rounds) > 300 || len(x.labels) > 130 {
			return
		}
		f(&persisted{x.desc, func() (*boo.MultiClass, *model, error) {
			return craft(x.labels, x.lr, x.base, x.xgb, x.rounds)
		}, rows})
	})
	both := func(f func(t *trainCase)) {
		enumTrain(c, f)
		enumLong(c, func(t *trainCase) {
			if t.O.Rounds < 60 {
				f(t)
			}
		})
	}
	both(func(t *trainCase) {
		f(&persisted{t.String(), func() (*boo.MultiClass, *model, error) {
			m := t.train()
			o, err := observeModel(m)
			return m, o, err
		}, t.D.Data})
	})
}

func importance(m *boo.MultiClass) string {
	f, err := m.FeatureImportance()
	if err != nil {
		return "error: " + err.Error()
	}
	return f.String()
}

func sameModel(a, b *boo.MultiClass, rows [][]float64) error {
	if fmt.Sprint(a.ClassLabels()) != fmt.Sprint(b.ClassLabels()) {
		return fmt.Errorf("class labels %v and %v", a.ClassLabels(), b.ClassLabels())
	}
	if a.Classes() != b.Classes() {
		return fmt.Errorf("%d and %d classes", a.Classes(), b.Classes())
	}
	for k := -1; k <= min(a.Classes(), 8); k++ {
		if a.Rounds(k) != b.Rounds(k) {
			return fmt.Errorf("%d and %d rounds for class %d", a.Rounds(k), b.Rounds(k), k)
		}
	}
	for _, r := range rows {
		p, q := a.PredictSingle(r), b.PredictSingle(r)
		if !eqBits(p, q) {
			return fmt.Errorf("row %v: probabilities %v and %v", r, cut(fmt.Sprint(p), 200), cut(fmt.Sprint(q), 200))
		}
	}
	if x, y := importance(a), importance(b); x != y {
		return fmt.Errorf("importance reports\n%s\nand\n%s", x, y)
	}
	return nil
}

func checkC09(c *ctx) {
	enumPersist(c, func(p *persisted) {
		c.run(func() string { return p.name }, func() error {
			m, d, err := p.make()
			if err != nil {
				return err
			}
			if m.Rounds(0) < 0 {
				return fmt.Errorf("the model has no class 0")
			}
			// what was described is what is there
			want := 0
			for _, r := range d.rounds {
				if r[0].ns > 0 {
					want++
				}
			}
			if m.Rounds(0) != want {
				return fmt.Errorf("%d rounds in the text, the model has %d", want, m.Rounds(0))
			}
			t1, err := modelText(m)
			if err != nil {
				return fmt.Errorf("saving: %v", err)
			}
			if err := describes(d, t1); err != nil {
				return fmt.Errorf("the saved text is not the model: %v\n%s", err, cut(t1, 1500))
			}
			for _, r := range p.rows {
				want := d.probs(r)
				got := m.PredictSingle(r)
				for k := range want {
					if len(got) != len(want) || !near(got[k], want[k], 1e-11) && !math.IsNaN(want[k]) {
						return fmt.Errorf("row %v: probabilities %v, the trees give %v", r, cut(fmt.Sprint(got), 300), cut(fmt.Sprint(want), 300))
					}
				}
			}
			c.state(1)
			c.trace()
			if len(d.rounds) > 0 {
				c.nontrivial(t1)
			}
			sizes := []int{1, 13, 1 << 20}
			if len(t1) > 200000 {
				sizes = []int{4096}
			}
			for _, n := range sizes {
				for _, tail := range []bool{false, true} {
					c.transition(1)
					r := bufio.NewReaderSize(&chunkReader{t1, n, io.EOF, tail}, 16)
					l, err := boo.UnJSONMultiClass(r)
					if err != nil {
						return fmt.Errorf("loading in pieces of %d bytes: %v", n, err)
					}
					if err := sameModel(m, l, p.rows); err != nil {
						return fmt.Errorf("saved and loaded models differ (pieces of %d bytes): %v\n%s", n, err, cut(t1, 3000))
					}
					t2, err := modelText(l)
					if err != nil {
						return fmt.Errorf("saving the loaded model: %v", err)
					}
					if t1 != t2 {
						return fmt.Errorf("saved text\n%s\nsaved again after loading\n%s", cut(t1, 1500), cut(t2, 1500))
					}
				}
			}
			c.outcome(t1)
			return nil
		})
	})
	registeredActivations(c)
}

// registeredActivations: a function the caller has registered under a name is the one used by models stored with that name.
func registeredActivations(c *ctx) {
	c.family("registered activations")
	funcs := []func(s []float64) []float64{
		func(s []float64) []float64 { return slices.Clone(s) },
		func(s []float64) []float64 {
			r := slices.Clone(s)
			for i := range r {
				r[i] = 1 / (1 + math.Exp(-r[i]))
			}
			return r
		},
		func(s []float64) []float64 {
			r := slices.Clone(s)
			slices.Reverse(r)
			return r
		},
	}
	names := []string{"sigmoid", "SOFTMAX", "softmax2", "a b", "\"q\"", "ROUND", "CLASS 0", "l\nm", "é", "{}"}
	for K := 1; K <= 3; K++ {
		for ni, name := range names {
			for fi, f := range funcs {
				for _, xgb := range []bool{true, false} {
					c.run(func() string { return fmt.Sprintf("%d classes, %q, function %d, xgb=%v", K, name, fi, xgb) }, func() error {
						lib := treeLib(xgb)
						var r1, r2 []*node
						var labels []int
						for k := 0; k < K; k++ {
							labels = append(labels, 5-k*3)
							r1 = append(r1, lib[(k+ni)%len(lib)])
							r2 = append(r2, lib[(k*2+fi+1)%len(lib)])
						}
						m, d, err := craft(labels, 0.25, 0.5, xgb, [][]*node{r1, r2})
						if err != nil {
							return err
						}
						var b, soft, soft2 strings.Builder
						if fi%2 == 0 { // the same model under two names, in either order
							if err := boo.JSONMultiClass(m, "softmax", &soft); err != nil {
								return err
							}
						}
						if err := boo.JSONMultiClass(m, name, &b); err != nil {
							return fmt.Errorf("saving with the name %q: %v", name, err)
						}
						used := 0
						boo.ProbTransformMap[name] = func(O, D *mat.Dense) *mat.Dense {
							used++
							rows, cols := O.Dims()
							if D == nil {
								D = mat.NewDense(rows, cols, nil)
							}
							for i := 0; i < rows; i++ {
								D.SetRow(i, f(O.RawRowView(i)))
							}
							return D
						}
						defer delete(boo.ProbTransformMap, name)
						l, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(b.String())))
						if err != nil {
							return fmt.Errorf("loading with the registered name %q: %v", name, err)
						}
						for _, row := range gridRows {
							want := f(d.scores(row))
							got := l.PredictSingle(row)
							for k := range want {
								if len(got) != len(want) || !near(got[k], want[k], 1e-11) {
									return fmt.Errorf("row %v: %v, the function %q of the scores is %v", row, got, name, want)
								}
							}
							if p, q := m.PredictSingle(row), d.probs(row); !near(p[0], q[0], 1e-11) {
								return fmt.Errorf("row %v: the saved model changed: %v, was %v", row, p, q)
							}
						}
						if err := boo.JSONMultiClass(m, "softmax", &soft2); err != nil || fi%2 == 0 && soft.String() != soft2.String() {
							return fmt.Errorf("the same model is saved as\n%s\nthen as\n%s (%v)", cut(soft.String(), 1000), cut(soft2.String(), 1000), err)
						}
						l2, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(soft2.String())))
						if err != nil {
							return fmt.Errorf("loading with softmax: %v", err)
						}
						for _, row := range gridRows {
							if p, q := l2.PredictSingle(row), d.probs(row); !near(p[0], q[0], 1e-11) {
								return fmt.Errorf("row %v: the model saved with softmax predicts %v, should be %v", row, p, q)
							}
						}
						var b2 strings.Builder
						if err := boo.JSONMultiClass(l, name, &b2); err != nil || b2.String() != b.String() {
							return fmt.Errorf("saved again as\n%s\nwas\n%s (%v)", cut(b2.String(), 1000), cut(b.String(), 1000), err)
						}
						c.state(1)
						c.trace()
						c.nontrivial(b.String() + name)
						return nil
					})
				}
			}
		}
	}
}

func checkC10(c *ctx) {
	unsaveable(c)
	k := 0
	var texts []string
	byName := map[string]bool{}
	enumPersistSmall(c, func(p *persisted) {
		k++
		fam := c.fam
		defer c.family(fam)
		m, _, err := p.make()
		if err != nil {
			c.run(func() string { return p.name }, func() error { return err })
			return
		}
		t, err := modelText(m)
		if err != nil {
			c.run(func() string { return p.name }, func() error { return err })
			return
		}
		if byName[t] || len(t) > 400000 {
			return
		}
		// every byte of small texts, the surroundings of every line end of larger ones
		near := make([]bool, len(t)+1)
		for b := range near {
			near[b] = len(t) <= 9000 || b == len(t)
		}
		if len(t) > 9000 {
			lines := strings.Count(t, "\n")
			for b, n := 0, 0; b < len(t); b++ {
				if t[b] == '\n' {
					n++
					if n < 4 || n > lines-3 || n%(lines/40+1) == 0 {
						for d := -2; d <= 3; d++ {
							near[min(max(0, b+d), len(t))] = true
						}
					}
				}
			}
		}
		byName[t] = true
		texts = append(texts, t)
		complete := func(what string, l *boo.MultiClass, err error) error {
			if err != nil {
				if l != nil {
					return fmt.Errorf("%s: error %v, but also a model", what, err)
				}
				c.outcome("error")
				return nil
			}
			if l == nil {
				return fmt.Errorf("%s: neither a model nor an error", what)
			}
			if err := sameModel(m, l, p.rows); err != nil {
				return fmt.Errorf("%s: no error, but not the same model: %v", what, err)
			}
			t2, err := modelText(l)
			if err != nil || t2 != t {
				return fmt.Errorf("%s: no error, but the model is\n%s\ninstead of\n%s (%v)", what, t2, t, err)
			}
			c.outcome("complete")
			return nil
		}
		c.family("truncations")
		c.run(func() string { return "every cut of " + p.name }, func() error {
			c.nontrivial(t)
			for b := 0; b <= len(t); b++ {
				if !near[b] {
					continue
				}
				c.state(1)
				c.transition(1)
				c.trace()
				l, err := boo.UnJSONMultiClass(bufio.NewReaderSize(&chunkReader{t[:b], []int{1 << 20, 17}[b%2], io.EOF, b%3 == 0}, 16+b%64))
				if e := complete(fmt.Sprintf("text of %d bytes cut at byte %d (...%q)", len(t), b, t[max(0, b-30):b]), l, err); e != nil {
					return e
				}
				if b == len(t) && err != nil {
					return fmt.Errorf("the complete text does not load: %v", err)
				}
			}
			return nil
		})
		c.family("lines missing, doubled or damaged")
		c.run(func() string { return "every line of " + p.name }, func() error {
			ls := strings.SplitAfter(t, "\n")
			if ls[len(ls)-1] == "" {
				ls = ls[:len(ls)-1]
			}
			for i, old := range ls {
				if i > 20 && i < len(ls)-10 && i%(len(ls)/10+1) != 0 {
					continue
				}
				text := strings.TrimSuffix(old, "\n")
				for _, r := range []string{"", old + old, text + "x\n", "x" + old, "%%\n", "\n", "{\n", "[]\n", "null x\n", "\x00\n", text[len(text)/2:] + "\n", text[:len(text)-1] + "\n", strings.Replace(old, ":", "", 1), strings.Replace(old, ":", ":\"", 1)} {
					if r == old || i == 0 && r == old+old || (strings.Contains(old, "ROUND") || strings.Contains(old, "CLASS")) && strings.ContainsAny(r, "ACDLNORSU") && r != old+old {
						continue // still a line of the format, or half a marker
					}
					c.state(1)
					c.transition(1)
					u := strings.Join(ls[:i], "") + r + strings.Join(ls[i+1:], "")
					l, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(u)))
					if e := complete(fmt.Sprintf("line %d, %q, became %q", i, cut(old, 200), cut(r, 400)), l, err); e != nil {
						return e
					}
				}
			}
			return nil
		})
		c.family("read faults")
		c.run(func() string { return "a read fault at every byte of " + p.name }, func() error {
			for b := 0; b <= len(t); b++ {
				if !near[b] {
					continue
				}
				for _, e := range []error{errInjected, io.ErrUnexpectedEOF} {
					c.state(1)
					c.transition(1)
					l, err := boo.UnJSONMultiClass(bufio.NewReaderSize(&chunkReader{t[:b], []int{1 << 20, 17}[b%2], e, b%3 == 0}, 16+b%64))
					if err == nil && b < len(t) {
						return fmt.Errorf("reading failed at byte %d of %d, loading reports no error", b, len(t))
					}
					if e := complete(fmt.Sprintf("read fault at byte %d of %d", b, len(t)), l, err); e != nil {
						return e
					}
				}
			}
			return nil
		})
		if old := oldFormat(t); old != "" && len(t) < 5000 {
			c.family("read faults, files without the number of rounds")
			c.run(func() string { return "a read fault at every byte of the old format of " + p.name }, func() error {
				for b := 0; b <= len(old); b++ {
					for _, e := range []error{errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe} {
						c.state(1)
						c.transition(1)
						l, err := boo.UnJSONMultiClass(bufio.NewReaderSize(&chunkReader{old[:b], []int{1 << 20, 17}[b%2], e, b%3 == 0}, 16+b%64))
						if err == nil && b < len(old) {
							return fmt.Errorf("reading failed (%v) at byte %d of %d, loading reports no error", e, b, len(old))
						}
						if e := complete(fmt.Sprintf("read fault at byte %d of %d", b, len(old)), l, err); e != nil {
							return e
						}
					}
				}
				l, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(old)))
				if err != nil {
					return fmt.Errorf("a complete file without the number of rounds does not load: %v", err)
				}
				return complete("file without the number of rounds", l, err)
			})
		}
		c.family("write faults")
		c.run(func() string { return "a write fault at every write of " + p.name }, func() error {
			w := &failWriter{fail: -1}
			if err := boo.JSONMultiClass(m, "softmax", w); err != nil {
				return err
			}
			for i := 1; i <= w.n; i++ {
				if i > 40 && i < w.n-10 && i%7 != 0 {
					continue
				}
				c.state(1)
				c.transition(1)
				x := &failWriter{fail: i}
				if err := boo.JSONMultiClass(m, "softmax", x); err == nil {
					return fmt.Errorf("write %d of %d failed, saving reports no error", i, w.n)
				}
			}
			return nil
		})
		c.family("unknown activation")
		for _, name := range []string{"", "Softmax", "softmax ", "relu", "normalization"} {
			c.run(func() string { return fmt.Sprintf("activation %q in %s", name, p.name) }, func() error {
				c.state(1)
				var b strings.Builder
				u := strings.Replace(t, `"softmax"`, `"`+name+`"`, 1)
				l, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(u)))
				if err == nil || l != nil {
					return fmt.Errorf("activation %q: model %v, error %v", name, l != nil, err)
				}
				if err := boo.JSONMultiClass(m, name, &b); err == nil {
					if l, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(b.String()))); err == nil || l != nil {
						return fmt.Errorf("a model saved with activation %q loads", name)
					}
				}
				return nil
			})
		}
	})
}

// oldFormat is a saved model as older versions wrote it, without the number of rounds ("" if there is no such text).
func oldFormat(t string) string {
	i := strings.IndexByte(t, '\n')
	if i < 0 {
		return ""
	}
	m := map[string]json.RawMessage{}
	if json.Unmarshal([]byte(t[:i]), &m) != nil {
		return ""
	}
	delete(m, "Rounds")
	b, err := json.Marshal(m)
	if err != nil {
		return ""
	}
	return string(b) + t[i:]
}

// unsaveable: models with numbers that the format cannot hold; saving must say so.
func unsaveable(c *ctx) {
	c.family("numbers that cannot be written")
	inf, nan := math.Inf(1), math.NaN()
	N := len(colPats)
	for mode := 0; mode < 4; mode++ {
		for p := 0; p < N; p++ {
			for v := 0; v < 8; v++ {
				o := hypers[2].set(mkopts(mode&1 == 0, mode>>1))
				o.Gamma = 0
				n := 6
				X := transpose(col(p, n), col((p+6)%N, n))
				l := []int{5, 0, 5, 0, 0, 5}
				switch v {
				case 0, 1, 2:
					o.BaseScore = []float64{inf, -inf, nan}[v]
				case 3, 4:
					o.LearningRate = []float64{inf, nan}[v-3]
				case 5, 6:
					X[2][0], X[5][1] = -inf, -inf
				case 7:
					X[0][0] = inf
				}
				t := &trainCase{name: fmt.Sprintf("unsaveable %d", v), D: bunch(X, l), O: o}
				c.run(t.String, func() error {
					c.state(1)
					c.transition(1)
					m := trainOrNil(t)
					if m == nil { // training such numbers is not what is checked here
						c.outcome("no model")
						return nil
					}
					s, err := modelText(m)
					if err != nil {
						c.outcome("refused")
						return nil
					}
					q, err := loadModel(s)
					if err != nil {
						return fmt.Errorf("saving reports no error, but the text cannot be loaded: %v\n%s", err, cut(s, 600))
					}
					c.outcome("saved")
					return sameModel(m, q, X)
				})
			}
		}
	}
}

func trainOrNil(t *trainCase) (m *boo.MultiClass) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()
	return t.train()
}

// enumPersistSmall: models whose every byte is cut.
func enumPersistSmall(c *ctx, f func(*persisted)) {
	i := 0
	gap := 23
	if c.thorough() {
		gap = 3
	}
	enumPersist(c, func(p *persisted) {
		i++
		switch c.fam {
		case "small exhaustive labelings":
			if i%(gap*41) != 0 {
				return
			}
		case "patterns":
			if i%(gap*13) != 0 {
				return
			}
		case "crafted models":
			if i > 40 && i%(gap*7) != 0 {
				return
			}
		case "special values", "large numbers":
			if c.quick && i%4 != 0 {
				return
			}
		case "deep and wide":
			if i%5 != 0 {
				return
			}
		case "many classes", "many rounds", "many rows", "deep trees", "many columns":
			if i%43 != 0 {
				return
			}
		}
		f(p)
	})
}

func init() {
	checks["C09"] = checkC09
	checks["C10"] = checkC10
}

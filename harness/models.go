package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"gonum.org/v1/gonum/mat"
)

// ---- crafted models ----

func lf(v float64) *node { return &node{leaf: true, val: v, ns: 3} }
func sp(f int, thr, gain float64, l, r *node) *node {
	return &node{feat: f, thr: thr, score: gain, l: l, r: r, ns: l.ns + r.ns, val: 0.125}
}

// craft builds the model with these trees, through its stored form.
func craft(labels []int, lr, base float64, xgb bool, rounds [][]*node) (*boo.MultiClass, *model, error) {
	m := &model{rounds: rounds}
	m.meta = metaData{LearningRate: lr, ClassLabels: labels, ProbTransformName: "softmax", BaseScore: base, XGB: xgb, Rounds: len(rounds)}
	var b strings.Builder
	j, err := json.Marshal(&m.meta)
	if err != nil {
		return nil, nil, err
	}
	b.Write(j)
	b.WriteByte('\n')
	for i, r := range rounds {
		fmt.Fprintf(&b, "ROUND %d\n", i)
		for k, t := range r {
			fmt.Fprintf(&b, "CLASS %d, label: %d \n", k, labels[k])
			id := uint(0)
			var lines []*utils.JSONNode
			var rec func(n *node) uint
			rec = func(n *node) uint {
				id++
				n.branches = n.count()
				n.xgb = xgb
				j := &utils.JSONNode{Id: id, Nsamples: n.ns, Leaf: n.leaf, Threshold: n.thr, XGB: xgb, Branches: n.branches, BestScoreSoFar: n.score, SplitFeatureIndex: n.feat, Value: n.val}
				if n.leaf && !xgb {
					j.BestScoreSoFar = 0.1189998819991197253
				}
				me := id
				lines = append(lines, j)
				if n.l != nil {
					j.Leftid = rec(n.l)
				}
				if n.r != nil {
					j.Rightid = rec(n.r)
				}
				return me
			}
			rec(t)
			for _, l := range lines {
				s, err := json.Marshal(l)
				if err != nil {
					return nil, nil, err
				}
				b.Write(s)
				b.WriteByte('\n')
			}
		}
	}
	m.text = b.String()
	mc, err := loadModel(m.text)
	return mc, m, err
}

// treeLib is a small library of trees over two features.
func treeLib(xgb bool) []*node {
	s := 1.0
	if !xgb {
		s = -1
	}
	return []*node{
		sp(0, 0.5, s*2, lf(-1), lf(0.75)),
		lf(0.25),
		sp(1, -0.25, s*0.5, lf(2), sp(0, 1.5, s*0.125, lf(-0.5), lf(1))),
		sp(1, 1, s*3, sp(0, 0, s*1.5, sp(1, 0, s*0.25, lf(0.3), lf(-2)), lf(0.1)), lf(-0.75)),
		lf(-1.5),
		sp(0, -1, s*0.75, lf(5), lf(-5)),
	}
}

var gridRows = func() [][]float64 {
	var r [][]float64
	for _, a := range []float64{-2, -1, 0, 0.5, 0.75, 2} {
		for _, b := range []float64{-0.25, 0, 1, math.Nextafter(1, 2)} {
			r = append(r, []float64{a, b})
		}
	}
	return r
}()

type crafted struct {
	labels   []int
	lr, base float64
	xgb      bool
	rounds   [][]*node
	desc     string
}

func (x *crafted) String() string {
	return fmt.Sprintf("crafted model labels=%v lr=%v base=%v xgb=%v trees=%v", x.labels, x.lr, x.base, x.xgb, x.rounds)
}

func placeholder() *node { return &node{leaf: true} }

// enumCrafted calls f with every crafted model of the space.
func enumCrafted(c *ctx, f func(*crafted)) {
	for _, xgb := range []bool{true, false} {
		lib := treeLib(xgb)
		for K := 1; K <= 6; K++ {
			for R := 0; R <= 3; R++ {
				mk := func(pick func(r, k int) *node, lr, base float64) {
					x := &crafted{labels: labelNames[:K], lr: lr, base: base, xgb: xgb}
					for r := 0; r < R; r++ {
						var row []*node
						for k := 0; k < K; k++ {
							row = append(row, pick(r, k))
						}
						x.rounds = append(x.rounds, row)
					}
					f(x)
				}
				if K*R <= 4 {
					tuples(K*R, len(lib), func(a []int) {
						b := slices.Clone(a)
						s := 0
						for _, v := range b {
							s += v
						}
						mk(func(r, k int) *node { return lib[b[r*K+k]] }, []float64{0.3, 1, 0.125}[s%3], []float64{0.5, 0, -2}[(s+K)%3])
					})
				} else {
					for off := 0; off < 36; off++ {
						mk(func(r, k int) *node { return lib[(r*5+k*(1+off/6)+off)%len(lib)] }, []float64{0.3, 1, 0.05}[off%3], []float64{0.5, 0, 3}[(off/3)%3])
					}
				}
				// classes that stopped after s rounds
				if R >= 1 && K >= 2 {
					tuples(min(K, 4), R+1, func(a []int) {
						b := slices.Clone(a)
						mk(func(r, k int) *node {
							if k < len(b) && r >= b[k] {
								return placeholder()
							}
							return lib[(r*2+k)%len(lib)]
						}, 0.3, 0.5)
					})
				}
			}
		}
	}
}

// enumBig calls f with larger models: many classes, many rounds, deep trees, many features, unusual labels
// and values, long datasets.
func enumBig(c *ctx, f func(x *crafted, rows [][]float64)) {
	seqs := [][]int{
		{3, -3, 0}, {0, 1, 2}, {2, 1, 0}, {-1, 1}, {7}, {1 << 40, -1 << 40, 256, 0}, {1, 257, 513}, {10, 2, 33, 4, 1},
	}
	for _, xgb := range []bool{true, false} {
		lib := treeLib(xgb)
		s := 1.0
		if !xgb {
			s = -1
		}
		lib = append(lib, chain(12, s), chain(40, s), lf(50), lf(-1000), lf(1e-9), sp(0, 0.5, s*1e-12, lf(700), lf(-700)))
		one := func(desc string, labels []int, R int, lr, base float64, rows [][]float64, off int) {
			x := &crafted{labels: labels, lr: lr, base: base, xgb: xgb, desc: fmt.Sprintf("%s: labels=%v rounds=%d lr=%v base=%v xgb=%v off=%d", desc, labels[:min(12, len(labels))], R, lr, base, xgb, off)}
			for r := 0; r < R; r++ {
				var row []*node
				for k := range labels {
					t := lib[(r*5+k*(1+off%7)+off+r*k/3)%len(lib)]
					if off%5 == 4 && r > R-1-k%3 {
						t = placeholder()
					}
					row = append(row, t)
				}
				x.rounds = append(x.rounds, row)
			}
			f(x, rows)
		}
		for _, l := range seqs {
			for off := 0; off < 24; off++ {
				one("labels", l, 1+off%3, []float64{0.3, 1, 2.5}[off%3], []float64{0.5, 0, -40, 1e3}[off%4], gridRows, off)
			}
		}
		for _, K := range []int{7, 8, 9, 10, 11, 12, 13, 16, 17, 26, 33, 65, 100, 129, 257} {
			for off := 0; off < 6; off++ {
				one("classes", labelNames[:K], 2, 0.3, 0.5, gridRows[:12], off)
			}
		}
		for _, R := range []int{4, 5, 8, 9, 10, 11, 16, 17, 20, 21, 33, 50, 51, 65, 100, 101, 129, 257, 1001} {
			for off := 0; off < 6; off++ {
				one("rounds", labelNames[:1+off%4], R, 0.01, 0.5, gridRows[:12], off)
			}
		}
		for _, n := range []int{65, 101, 129, 201, 257, 513, 1001, 1025, 5000} {
			var rows [][]float64
			for i := 0; i < n; i++ {
				rows = append(rows, []float64{float64(i*7%23)/4 - 2, float64(i*5%19)/8 - 1})
			}
			for off := 0; off < 2; off++ {
				one("rows", labelNames[:3+off], 2, 0.3, 0.5, rows, off)
			}
		}
	}
}

// checkPredict checks every observable of C05 on a model against its description.
func checkPredict(c *ctx, mc *boo.MultiClass, m *model, rows [][]float64) error {
	K := len(m.meta.ClassLabels)
	if mc.Classes() != K {
		return fmt.Errorf("Classes() is %d, there are %d", mc.Classes(), K)
	}
	if !slices.Equal(mc.ClassLabels(), m.meta.ClassLabels) {
		return fmt.Errorf("ClassLabels() is %v, should be %v", mc.ClassLabels(), m.meta.ClassLabels)
	}
	for k := -1; k <= K+1; k++ {
		want := -1
		if k < K {
			want = 0
			for _, r := range m.rounds {
				if r[max(k, 0)].ns > 0 {
					want++
				}
			}
		}
		if k >= 0 {
			if got := mc.Rounds(k); got != want {
				return fmt.Errorf("Rounds(%d) is %d, should be %d", k, got, want)
			}
		}
		if k == 0 {
			if got := mc.Rounds(); got != want {
				return fmt.Errorf("Rounds() is %d, should be %d", got, want)
			}
		}
	}
	labels := make([]int, len(rows))
	right := 0
	classes := make([]int, len(rows))
	for i, row := range rows {
		c.transition(1)
		want := m.probs(row)
		var got []float64
		for _, st := range [][]float64{nil, make([]float64, K), make([]float64, K+3), make([]float64, max(0, K-1)), {}} {
			for j := range st {
				st[j] = 77
			}
			in := slices.Clone(row)
			var g []float64
			if st == nil {
				g = mc.PredictSingle(row)
			} else {
				g = mc.PredictSingle(row, st)
			}
			if !eqBits(in, row) {
				return fmt.Errorf("predicting changed the row %v to %v", in, row)
			}
			if len(g) != K {
				return fmt.Errorf("row %v: %d probabilities for %d classes (storage of %d)", row, len(g), K, len(st))
			}
			for j := range g {
				if !near(g[j], want[j], 1e-11) {
					return fmt.Errorf("row %v: probabilities %v, should be %v (storage of %d)", row, g, want, len(st))
				}
			}
			if got != nil && !eqBits(got, g) {
				return fmt.Errorf("row %v: probabilities %v, and %v with storage of %d", row, got, g, len(st))
			}
			if len(st) >= K && !eqBits(st[:K], g) {
				return fmt.Errorf("row %v: storage holds %v, returned %v", row, st, g)
			}
			got = slices.Clone(g)
		}
		best := argmaxes(got)
		for _, st := range [][]float64{nil, make([]float64, K), make([]float64, K+2), {1}} {
			var p int
			if st == nil {
				p = mc.PredictSingleClass(row)
			} else {
				for j := range st {
					st[j] = 1e9
				}
				p = mc.PredictSingleClass(row, st)
			}
			if !best[p] {
				return fmt.Errorf("row %v: predicted class %d, probabilities %v", row, p, got)
			}
			classes[i] = p
		}
		labels[i] = m.meta.ClassLabels[(i*3+1)%K]
		if i%4 == 3 { // not a label of the model
			labels[i] = []int{999, -m.meta.ClassLabels[classes[i]], m.meta.ClassLabels[classes[i]] + 1, classes[i], -1, m.meta.ClassLabels[classes[i]] + 256}[i/4%6]
		}
		if i%4 == 1 {
			labels[i] = m.meta.ClassLabels[classes[i]]
		}
		if labels[i] == m.meta.ClassLabels[classes[i]] {
			right++
		}
	}
	for _, sub := range [][2]int{{0, len(rows)}, {0, 1}, {1, 2}, {len(rows) / 2, len(rows)}} {
		d := &utils.DataBunch{Data: rows[sub[0]:sub[1]], Labels: labels[sub[0]:sub[1]]}
		n := 0
		for i := sub[0]; i < sub[1]; i++ {
			if labels[i] == m.meta.ClassLabels[classes[i]] {
				n++
			}
		}
		want := 100 * float64(n) / float64(sub[1]-sub[0])
		for _, arg := range [][]int{nil, {K}, {K + 2}, {1}, {0}} {
			before := copyDB(d)
			if got := mc.Accuracy(d, arg...); !near(got, want, 1e-9) {
				return fmt.Errorf("accuracy %v of rows %v (argument %v), should be %v", got, sub, arg, want)
			}
			if !sameDB(before, d) {
				return fmt.Errorf("computing the accuracy changed the data")
			}
		}
	}
	return nil
}

func checkC05(c *ctx) {
	c.family("crafted models")
	enumCrafted(c, func(x *crafted) {
		c.run(x.String, func() error {
			mc, m, err := craft(x.labels, x.lr, x.base, x.xgb, x.rounds)
			if err != nil {
				return fmt.Errorf("the model does not load: %v", err)
			}
			c.trace()
			c.state(len(gridRows))
			if len(x.rounds) > 0 {
				c.nontrivial(m.text)
			}
			if err := checkPredict(c, mc, m, gridRows); err != nil {
				return err
			}
			c.outcome(fmt.Sprint(mc.PredictSingle(gridRows[3])))
			return nil
		})
	})
	c.family("large crafted models")
	enumBig(c, func(x *crafted, rows [][]float64) {
		c.run(func() string { return fmt.Sprintf("%s, %d rows", x.desc, len(rows)) }, func() error {
			mc, m, err := craft(x.labels, x.lr, x.base, x.xgb, x.rounds)
			if err != nil {
				return fmt.Errorf("the model does not load: %v", err)
			}
			c.trace()
			c.state(len(rows))
			c.nontrivial(m.text)
			return checkPredict(c, mc, m, rows)
		})
	})
	both := func(f func(t *trainCase)) {
		enumTrain(c, f)
		enumLong(c, f)
	}
	both(func(t *trainCase) {
		c.run(t.String, func() error {
			mc := t.train()
			m, err := observeModel(mc)
			if err != nil {
				return err
			}
			if m.meta.LearningRate != t.O.LearningRate || m.meta.BaseScore != t.O.BaseScore {
				return fmt.Errorf("learning rate %v, base score %v", m.meta.LearningRate, m.meta.BaseScore)
			}
			c.trace()
			c.state(len(t.D.Data))
			rows := t.D.Data
			if len(rows) < 2 {
				rows = append(copyM(rows), rows[0])
			}
			c.nontrivial(m.text)
			return checkPredict(c, mc, m, rows)
		})
	})
}

// ---- C06 ----

func checkSoftmax(in, out []float64) error {
	if len(out) != len(in) {
		return fmt.Errorf("softmax of %v has %d elements", in, len(out))
	}
	if err := distribution(out); err != nil {
		return fmt.Errorf("softmax of %v: %v", in, err)
	}
	want := softmax(in)
	top := slices.Max(in)
	for i := range in {
		if !near(out[i], want[i], 1e-12) {
			return fmt.Errorf("softmax of %v is %v, should be %v", in, out, want)
		}
		for j := range in {
			if in[i] > in[j] && out[i] < out[j] || in[i] == in[j] && out[i] != out[j] {
				return fmt.Errorf("softmax of %v is %v: order lost", in, out)
			}
			if in[i] > in[j]+1e-6 && in[j] > top-30 && !(out[i] > out[j]) {
				return fmt.Errorf("softmax of %v is %v: order lost", in, out)
			}
		}
	}
	return nil
}

func checkC06(c *ctx) {
	c.family("softmax")
	vals := []float64{0, 1, -1, 36, -700, 709, 710, 745, -746, 1e4, -1e4, math.MaxFloat64, -math.MaxFloat64, 1e-320, 0.1}
	maxlen := 4
	if c.thorough() {
		maxlen = 5
	}
	one := func(n int, in []float64) {
		c.run(func() string { return fmt.Sprintf("softmax %v", in) }, func() error {
			c.state(1)
			c.transition(1)
			c.nontrivial(fmt.Sprint(in))
			keep := slices.Clone(in)
			o := utils.SoftMax(in, nil)
			if !eqBits(in, keep) {
				return fmt.Errorf("softmax changed its input %v to %v", keep, in)
			}
			if err := checkSoftmax(keep, o); err != nil {
				return err
			}
			st := make([]float64, n)
			for i := range st {
				st[i] = math.Inf(1)
			}
			if r := utils.SoftMax(in, st); !eqBits(r, o) || !eqBits(st, o) {
				return fmt.Errorf("softmax of %v with storage: %v (storage %v), without: %v", keep, r, st, o)
			}
			al := slices.Clone(in)
			if r := utils.SoftMax(al, al); !eqBits(r, o) {
				return fmt.Errorf("softmax of %v in place: %v, otherwise %v", keep, r, o)
			}
			// as rows of a matrix
			rev := slices.Clone(in)
			slices.Reverse(rev)
			O := mat.NewDense(2, n, append(slices.Clone(in), rev...))
			D := utils.SoftMaxDense(O, nil)
			if err := checkSoftmax(keep, D.RawRowView(0)); err != nil {
				return err
			}
			if err := checkSoftmax(rev, D.RawRowView(1)); err != nil {
				return err
			}
			D2 := mat.NewDense(2, n, nil)
			D2.Set(1, n-1, 4)
			D3 := utils.SoftMaxDense(O, D2)
			if !mat.Equal(D3, D) || !mat.Equal(D2, D) {
				return fmt.Errorf("softmax of the matrix %v with storage: %v, without %v", O, D3, D)
			}
			D4 := utils.SoftMaxDense(O, O)
			if !mat.Equal(D4, D) {
				return fmt.Errorf("softmax of a matrix in place: %v, otherwise %v", D4, D)
			}
			return nil
		})
	}
	for n := 1; n <= maxlen; n++ {
		tuples(n, len(vals), func(a []int) {
			in := make([]float64, n)
			for i := range a {
				in[i] = vals[a[i]]
			}
			one(n, in)
		})
	}
	for _, n := range []int{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 257, 1025} {
		for a := range vals {
			if n > 64 && a%4 != 0 {
				continue
			}
			for b := range vals {
				in := make([]float64, n)
				for i := range in {
					in[i] = float64(i*7%13)/4 + vals[a]/16
				}
				in[(a*5+b)%n] = vals[b]
				in[n-1-(a+b*3)%n] = -vals[b] / 3
				one(n, in)
			}
		}
	}
	c.family("large trainings")
	enumLong(c, func(u *trainCase) {
		for _, lr := range []float64{u.O.LearningRate, 1} {
			v := *u
			o := *u.O
			o.LearningRate = lr
			v.O = &o
			c.run(v.String, func() error {
				m := v.train()
				c.trace()
				for i, r := range v.D.Data {
					if i > 40 {
						break
					}
					c.state(1)
					c.transition(o.Rounds)
					if err := distribution(m.PredictSingle(r)); err != nil {
						return fmt.Errorf("row %v: %v", r, err)
					}
				}
				c.nontrivial(fmt.Sprint(c.idx))
				return nil
			})
		}
	})
	c.family("long trainings")
	N := len(colPats)
	ns := []int{2, 3, 5, 9}
	rounds := []int{15, 120}
	if c.thorough() {
		ns = append(ns, 4, 20)
		rounds = append(rounds, 400)
	}
	for _, n := range ns {
		for K := 1; K <= 3 && K <= n; K++ {
			for p := 0; p < N; p++ {
				for mode := 0; mode < 4; mode++ {
					for _, lr := range []float64{0.3, 1, 5, 60} {
						for _, lam := range []float64{0, 1e-12, 1} {
							if lam > 0 && mode&1 == 1 {
								continue
							}
							for ri, nr := range rounds {
								for _, bs := range []float64{0.5, 1e5} {
									if bs == 1e5 && ri > 0 {
										continue
									}
									l := make([]int, n)
									for i := range l {
										l[i] = labelNames[(i*i+i/2)%K]
									}
									o := mkopts(mode&1 == 0, mode>>1)
									o.Rounds, o.LearningRate, o.Lambda, o.Gamma, o.MaxDepth, o.MinChildWeight, o.BaseScore = nr, lr, lam, 0, 3, 1, bs
									t := &trainCase{name: "long " + colPats[p].name, D: bunch(transpose(col(p, n), col((p+6)%N, n)), l), O: o}
									c.run(t.String, func() error {
										m := t.train()
										c.trace()
										rows := append(copyM(t.D.Data), []float64{-1e300, 1e300}, []float64{0.5, 0.5}, []float64{math.MaxFloat64, -math.MaxFloat64})
										for _, r := range rows {
											c.state(1)
											c.transition(nr)
											p := m.PredictSingle(r)
											if len(p) != K {
												return fmt.Errorf("%d probabilities for %d classes", len(p), K)
											}
											if err := distribution(p); err != nil {
												return fmt.Errorf("row %v: %v", r, err)
											}
											c.outcome(fmt.Sprint(p))
										}
										if n > 1 {
											c.nontrivial(fmt.Sprint(c.idx))
										}
										return nil
									})
								}
							}
						}
					}
				}
			}
		}
	}
}

// ---- C08 ----

func deepTreeOpts(o *boo.TreeOptions) *boo.TreeOptions {
	r := *o
	r.AllowedColumns = slices.Clone(o.AllowedColumns)
	r.Gradients = slices.Clone(o.Gradients)
	r.Hessian = slices.Clone(o.Hessian)
	r.Y = slices.Clone(o.Y)
	r.Indexes = slices.Clone(o.Indexes)
	return &r
}

func treeClean(c *ctx, t *treeCase) {
	c.run(t.String, func() error {
		o := t.options()
		keep := deepTreeOpts(o)
		X := copyM(t.X)
		a := boo.NewTree(t.X, o)
		if !sameM(X, t.X) {
			return fmt.Errorf("growing a tree changed the data")
		}
		if !reflect.DeepEqual(keep, o) {
			return fmt.Errorf("growing a tree changed its options from %+v to %+v", keep, o)
		}
		sa := observe(a).String()
		b := boo.NewTree(t.X, o)
		if !sameM(X, t.X) || !reflect.DeepEqual(keep, o) {
			return fmt.Errorf("growing a second tree changed the data or options")
		}
		f := boo.NewTree(X, keep)
		if s := observe(b).String(); s != sa {
			return fmt.Errorf("growing again with the same options gives %v, at first %v", s, sa)
		}
		if s := observe(f).String(); s != sa {
			return fmt.Errorf("growing with fresh copies gives %v, otherwise %v", s, sa)
		}
		// other data with the same options object
		X2 := append(copyM(t.X), copyM(t.X)...)
		o2 := *o
		o2.Y = append(slices.Clone(o.Y), o.Y...)
		o2.Gradients = append(slices.Clone(o.Gradients), o.Gradients...)
		o2.Hessian = append(slices.Clone(o.Hessian), o.Hessian...)
		if !t.xgb {
			o2.Gradients, o2.Hessian = nil, nil
		}
		z := observe(boo.NewTree(X2, &o2))
		if t.rows == nil && z.ns != len(X2) {
			return fmt.Errorf("options used again with %d rows: tree of %d samples", len(X2), z.ns)
		}
		c.state(3)
		c.transition(4)
		c.trace()
		if observe(a).l != nil {
			c.nontrivial(fmt.Sprint(c.idx))
		}
		for _, r := range t.X {
			if v := a.PredictSingle(r); math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Errorf("tree predicts %v for %v", v, r)
			}
		}
		return nil
	})
}

func trainClean(c *ctx, what string, mk func() *trainCase) {
	t := mk()
	c.run(func() string { return fmt.Sprint(what, " ", t) }, func() error {
		o := t.O
		n, K := len(t.D.Data), len(distinct(t.D.Labels))
		keepO := *o
		keepD := copyDB(t.D)
		m := t.train()
		if !sameDB(keepD, t.D) {
			return fmt.Errorf("training changed the dataset: %v to %v", keepD, t.D)
		}
		if !reflect.DeepEqual(keepO, *o) {
			return fmt.Errorf("training changed the options from %+v to %+v", keepO, *o)
		}
		ta, err := modelText(m)
		if err != nil {
			return err
		}
		tb, _ := modelText(mk().train())
		u := mk()
		fresh := keepO
		u.O = &fresh
		u.D = keepD
		tf, _ := modelText(u.train())
		if ta != tb || ta != tf {
			return fmt.Errorf("training again with the same objects and draws gives another model:\n%s\n%s\nwith fresh copies\n%s", ta, tb, tf)
		}
		c.state(3)
		c.transition(3 * o.Rounds)
		c.trace()
		c.outcome(ta)
		if n > 1 {
			c.nontrivial(fmt.Sprint(c.idx))
		}
		for _, r := range t.D.Data {
			if err := distribution(m.PredictSingle(r)); err != nil {
				return err
			}
			if k := m.PredictSingleClass(r); k < 0 || k >= K {
				return fmt.Errorf("class %d of %d", k, K)
			}
		}
		m.Accuracy(t.D)
		if _, err := m.FeatureImportance(); err != nil {
			return err
		}
		return nil
	})
}

func checkC08(c *ctx) {
	N := len(colPats)
	// trees
	c.family("trees")
	ns := []int{1, 2, 3, 5, 13}
	for _, n := range ns {
		for p := 0; p < N; p++ {
			for q := 0; q < N; q++ {
				for y := 0; y < len(tgtPats); y += 2 {
					for _, depth := range []int{0, 1, 3, 40} {
						for _, mcw := range []float64{0, 1, 2.5, 100} {
							for _, xgb := range []bool{false, true} {
								t := &treeCase{name: fmt.Sprintf("%s,%s->%s", colPats[p].name, colPats[q].name, tgtPats[y].name)}
								t.X, t.depth, t.mcw, t.xgb = transpose(col(p, n), col(q, n)), depth, mcw, xgb
								t.lambda, t.gamma = []float64{0, 1}[p%2], []float64{0, 0.5}[q%2]
								t.target(tgt(y, n), (p+y)%2)
								treeClean(c, t)
							}
						}
					}
				}
			}
		}
	}
	// ensembles
	c.family("ensembles")
	bits := [][]int{nil, {0}, {1}, {0, 1}, {1, 0}, {0, 0, 1}, {1, 1, 0}, {0, 1, 1, 0, 1}}
	for _, n := range []int{1, 2, 3, 4, 7, 13} {
		for K := 1; K <= 3 && K <= n; K++ {
			for p := 0; p < N; p++ {
				for hi, h := range hypers {
					for mode := 0; mode < 4; mode++ {
						for bi, b := range bits {
							if b != nil && mode&1 == 1 {
								continue
							}
							l := make([]int, n)
							for i := range l {
								l[i] = labelNames[(i*i+i/2)%K]
							}
							o := h.set(mkopts(mode&1 == 0, mode>>1))
							o.EarlyStop = (p + bi) % 3
							o.Verbose = (p+hi)%5 == 0
							o.MinSample = (p + hi) % 3
							if v := (p + 2*hi + bi + mode) % 7; v < 4 {
								o.MinChildWeight = []float64{0, 0.5, -1, 1e-9}[v]
							}
							if b != nil {
								o.SubSample, o.ColSubSample = []float64{0.5, 1, 0.9}[bi%3], []float64{0.5, 0.7}[bi%2]
							}
							X := transpose(col(p, n), col((p+6)%N, n))
							if p%4 == 3 {
								X = transpose(col(p, n))
							}
							mk := func() *trainCase {
								k := 0
								return &trainCase{name: "ensemble " + colPats[p].name, D: &utils.DataBunch{Data: X, Labels: l, Keys: []string{"a", "b"}}, O: o, rnd: &answers{f: func() float64 {
									if len(b) == 0 {
										return 0.5
									}
									v := b[k%len(b)]
									k++
									if v == 0 {
										return 0
									}
									return almostOne
								}, in: func(int) int { return 0 }}}
							}
							trainClean(c, fmt.Sprintf("draws %v", b), mk)
						}
					}
				}
			}
		}
	}
	c.family("large trees, row and column sets")
	ti := 0
	enumTrees(c, func(u *treeCase) {
		ti++
		if u.name == "small" || (u.rows == nil && u.cols == nil || len(u.rows) < 3) && ti%7 != 0 {
			return
		}
		treeClean(c, u)
	})
	c.family("large ensembles")
	enumLong(c, func(u *trainCase) {
		if u.O.Rounds > 70 && len(u.D.Data) > 9 {
			return
		}
		for _, sub := range []bool{false, true} {
			if sub && !u.O.XGB {
				continue
			}
			trainClean(c, fmt.Sprint("large, sub-sampled ", sub), func() *trainCase {
				v := *u
				o := *u.O
				v.O = &o
				v.D = copyDB(u.D)
				if sub {
					o.SubSample, o.ColSubSample, o.MinSample = 0.7, 0.6, 2
				}
				v.rnd = &stream{uint64(len(u.D.Data))}
				return &v
			})
		}
	})
	c.family("default options")
	for n := 1; n <= 12; n++ {
		for v := 0; v < 4; v++ {
			for seed := 0; seed < 4; seed++ {
				n, v := n, v
				c.run(func() string { return fmt.Sprintf("default options %d, n=%d, stream %d", v, n, seed) }, func() error {
					vrand.Provider = &stream{uint64(seed)}
					defer func() { vrand.Provider = nil }()
					l := make([]int, n)
					for i := range l {
						l[i] = i % 3
					}
					D := bunch(transpose(col(6, n), col(4, n)), l)
					keep := copyDB(D)
					var m *boo.MultiClass
					switch v {
					case 0:
						m = boo.NewMultiClass(D)
					case 1:
						m = boo.NewMultiClass(D, nil)
					case 2:
						m = boo.NewMultiClass(D, boo.DefaultOptions())
					case 3:
						m = boo.NewMultiClass(D, boo.DefaultGOptions())
					}
					if !sameDB(keep, D) {
						return fmt.Errorf("training changed the data")
					}
					for _, r := range D.Data {
						if err := distribution(m.PredictSingle(r)); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
}

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C08"] = checkC08
}

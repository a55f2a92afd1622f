package main

import (
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// treeCase is one tree to grow.
type treeCase struct {
	grow
	name string
}

func (t *treeCase) String() string {
	if len(t.X) > 16 {
		return fmt.Sprintf("%s n=%d xgb=%v depth=%d mcw=%v lambda=%v gamma=%v cols=%v", t.name, len(t.X), t.xgb, t.depth, t.mcw, t.lambda, t.gamma, t.cols)
	}
	return fmt.Sprintf("%s X=%v y=%v g=%v h=%v xgb=%v depth=%d mcw=%v lambda=%v gamma=%v cols=%v rows=%v", t.name, t.X, t.y, t.g, t.h, t.xgb, t.depth, t.mcw, t.lambda, t.gamma, t.cols, t.rows)
}

func (t *treeCase) options() *boo.TreeOptions {
	var o *boo.TreeOptions
	if t.xgb {
		o = boo.DefaultXTreeOptions()
	} else {
		o = boo.DefaultGTreeOptions()
	}
	o.MinChildWeight = t.mcw
	o.MaxDepth = t.depth
	o.Lambda = t.lambda
	o.Gamma = t.gamma
	o.Gradients = t.g
	o.Hessian = t.h
	o.Y = t.y
	o.AllowedColumns = t.cols
	o.Indexes = t.rows
	return o
}

// ---- columns and targets as functions of the row number ----

var colPats = []struct {
	name string
	f    func(i, n int) float64
}{
	{"up", func(i, n int) float64 { return float64(i) }},
	{"down", func(i, n int) float64 { return float64(n - i) }},
	{"const", func(i, n int) float64 { return 1 }},
	{"alt", func(i, n int) float64 { return float64(i % 2) }},
	{"mod3", func(i, n int) float64 { return float64(i%3) - 1 }},
	{"pairs", func(i, n int) float64 { return float64(i / 2) }},
	{"scramble", func(i, n int) float64 { return float64((i*7 + 3) % n) }},
	{"adjacent", func(i, n int) float64 { return math.Float64frombits(math.Float64bits(1) + uint64((i*5)%n)) }},
	{"huge", func(i, n int) float64 { return []float64{1.1e308, 1.7e308, -1.6e308, -1.2e308, 0}[i%5] }},
	{"opposite", func(i, n int) float64 { return []float64{-1.7e308, 1.7e308, 1.75e308}[(i*2)%3] }},
	{"tiny", func(i, n int) float64 { return math.Float64frombits(uint64((i * 3) % n)) }},
	{"half", func(i, n int) float64 {
		if i < n/2 {
			return -2.5
		}
		return 4
	}},
	{"zigzag", func(i, n int) float64 {
		if i < n/2 {
			return float64(2 * i)
		}
		return float64(2*(n-i) + 1)
	}},
	{"squares", func(i, n int) float64 { return float64((i * i) % 11) }},
	{"bitrev", func(i, n int) float64 { return float64(bits.Reverse8(uint8(i))) / 7 }},
	{"close", func(i, n int) float64 { return 1e16 + float64(2*((i*3)%n)) }},
	{"minus", func(i, n int) float64 { return -0.375*float64((i*5)%n) - 0.125 }},
}

var tgtPats = []struct {
	name string
	f    func(i, n int) float64
}{
	{"alt", func(i, n int) float64 { return float64(i%2) - 0.5 }},
	{"half", func(i, n int) float64 {
		if i < n/2 {
			return 1
		}
		return -0.25
	}},
	{"up", func(i, n int) float64 { return float64(i) / 4 }},
	{"mod7", func(i, n int) float64 { return float64((i*5)%7) - 3 }},
	{"same", func(i, n int) float64 { return 0.5 }},
	{"outlier", func(i, n int) float64 {
		if i == n/3 {
			return 40
		}
		return float64(i%2) * 0.125
	}},
	{"thirds", func(i, n int) float64 { return []float64{-1, 2, 0.5}[(3*i/n)%3] }},
	{"xor", func(i, n int) float64 { return float64((i%2)^((i/2)%2)) - 0.25 }},
	{"micro", func(i, n int) float64 { return 1e-9 * (float64((i*3)%5) - 1.75) }},
	{"mega", func(i, n int) float64 { return 1e9 * (float64((i*4)%7) - 2.5) }},
}

func col(p, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = colPats[p].f(i, n)
	}
	return r
}
func tgt(p, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = tgtPats[p].f(i, n)
	}
	return r
}
func hessPat(p, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		switch p {
		case 0:
			r[i] = 1
		case 1:
			r[i] = []float64{0.25, 0.09, 0.16}[i%3]
		case 2:
			r[i] = []float64{1e-4, 3e-5, 0.2}[i%3]
		}
	}
	return r
}
func transpose(cols ...[]float64) [][]float64 {
	n := len(cols[0])
	r := make([][]float64, n)
	for i := range r {
		r[i] = make([]float64, len(cols))
		for j := range cols {
			r[i][j] = cols[j][i]
		}
	}
	return r
}

func (t *treeCase) target(v []float64, hp int) {
	if t.xgb {
		t.g, t.h, t.y = v, hessPat(hp, len(v)), nil
		t.vrule = vXGB
	} else {
		t.g, t.h, t.y = nil, nil, v
		t.vrule = vMean
	}
}

// enumTrees calls f for every tree of the space.
func enumTrees(c *ctx, f func(*treeCase)) {
	type reg struct{ lambda, gamma float64 }
	regs := []reg{{1, 0}, {0, 0}, {0.5, 0.75}, {1, 6}, {12, 0.01}, {0.01, 0.2}}
	// A: all small matrices over a three-letter alphabet, all targets
	c.family("small exhaustive")
	type shape struct{ n, f, k int }
	shapes := []shape{{1, 1, 2}, {2, 1, 3}, {2, 2, 3}, {3, 1, 3}, {3, 2, 2}, {4, 1, 3}, {5, 1, 2}}
	if c.thorough() {
		shapes = append(shapes, shape{3, 2, 3}, shape{4, 2, 2}, shape{5, 1, 3}, shape{6, 1, 3})
	}
	xs := []float64{0, 1, 2.5}
	ys := []float64{-1, 0.5, 2}
	for _, s := range shapes {
		ky := 3
		if s.n >= 5 {
			ky = 2
		}
		tuples(s.n*s.f, s.k, func(a []int) {
			X := make([][]float64, s.n)
			for i := range X {
				X[i] = make([]float64, s.f)
				for j := range X[i] {
					X[i][j] = xs[a[i*s.f+j]]
				}
			}
			tuples(s.n, ky, func(b []int) {
				y := make([]float64, s.n)
				for i := range y {
					y[i] = ys[b[i]]
				}
				for _, depth := range []int{0, 1, 3} {
					for _, mcw := range []float64{1, 2} {
						t := &treeCase{name: "small"}
						t.X, t.depth, t.mcw = X, depth, mcw
						t.target(y, 0)
						f(t)
						for ri, r := range regs[:4] {
							t := &treeCase{name: "small"}
							t.X, t.depth, t.mcw, t.xgb, t.lambda, t.gamma = X, depth, mcw, true, r.lambda, r.gamma
							t.target(y, ri%2)
							f(t)
						}
					}
				}
			})
		})
	}
	// hessians that vanish on one side, with and without regularisation
	c.family("no hessian")
	for _, n := range []int{3, 4} {
		for _, xc := range [][]float64{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 0, 1, 2}, {2, 0, 3, 1}} {
			for m := 0; m < 1<<n; m++ {
				tuples(n, 3, func(b []int) {
					for k, r := range []reg{{0, 0}, {0, 1}, {1, 0}} {
						t := &treeCase{name: "no hessian"}
						x := xc[:n]
						t.X = transpose(x)
						if (m+b[0])%3 == 0 {
							t.X = transpose(x, []float64{x[1], x[0], x[2], x[n-1]}[:n])
						}
						t.depth, t.mcw, t.xgb, t.lambda, t.gamma, t.exact = 1+2*(k%2), float64(1+b[n-1]%2), true, r.lambda, r.gamma, true
						y := make([]float64, n)
						for i := range y {
							y[i] = []float64{-1, 0, 2}[b[i]]
						}
						t.target(y, 0)
						for i := range t.h {
							t.h[i] = float64(m >> i & 1)
						}
						f(t)
					}
				})
			}
		}
	}
	// B: pattern columns, sizes around the sorting algorithms' thresholds, deep trees
	c.family("pattern columns")
	sizes := []int{7, 12, 13, 21, 50}
	depths := []int{1, 2, 4, 9}
	if c.thorough() {
		sizes = append(sizes, 9, 33, 64, 100)
		depths = append(depths, 3, 30)
	}
	for _, n := range sizes {
		for p := range colPats {
			for q := range colPats {
				for y := range tgtPats {
					for di, depth := range depths {
						mcw := []float64{1, 2, 2.9, 3, float64(n / 2), 5}[(p+q+y+di)%6]
						X := transpose(col(p, n), col(q, n))
						for _, xgb := range []bool{false, true} {
							t := &treeCase{name: fmt.Sprintf("%s,%s->%s", colPats[p].name, colPats[q].name, tgtPats[y].name)}
							t.X, t.depth, t.mcw, t.xgb = X, depth, mcw, xgb
							r := regs[(p+q+di)%len(regs)]
							t.lambda, t.gamma = r.lambda, r.gamma
							t.target(tgt(y, n), (p+y)%3)
							f(t)
						}
					}
				}
			}
		}
	}
	// trees as deep as they can get: every split takes one sample off
	c.family("deep")
	for _, n := range []int{18, 45, 70} {
		for p := range colPats {
			for _, depth := range []int{5, 6, 7, 8, 10, 11, 12, 13, 14, 16, 17, 20, 31, 32, 33, 44, 64, 100, 128, 129, 200, 256, 257, 400, 1 << 16, 1<<31 - 1, 1 << 40} {
				for tp := 0; tp < 3; tp++ {
					for _, xgb := range []bool{false, true} {
						y := make([]float64, n)
						for i := range y {
							switch tp {
							case 0:
								y[i] = math.Pow(1.7, float64(i))
							case 1:
								y[i] = -math.Pow(1.7, float64(n-i))
							case 2:
								y[i] = math.Pow(-1.6, float64(i))
							}
						}
						t := &treeCase{name: fmt.Sprintf("deep %s/%d", colPats[p].name, tp)}
						t.X, t.depth, t.mcw, t.xgb, t.lambda = transpose(col(p, n)), depth, 1, xgb, float64(tp)/2
						t.target(y, tp)
						f(t)
					}
				}
			}
		}
	}
	c.family("very large")
	for ni, n := range []int{520, 1030, 2060, 4100} {
		for p := range colPats {
			for y := range tgtPats {
				if (p+y+ni)%4 != 0 {
					continue
				}
				X := transpose(col((p+5)%len(colPats), n), col(p, n))
				for _, xgb := range []bool{false, true} {
					t := &treeCase{name: fmt.Sprintf("very large %s->%s", colPats[p].name, tgtPats[y].name)}
					t.X, t.depth, t.mcw, t.xgb, t.lambda = X, 4, float64(1+(p+y)%4*20), xgb, 1
					t.target(tgt(y, n), p%2)
					f(t)
				}
			}
		}
	}
	c.family("large")
	for _, n := range []int{130, 257, 300} {
		for p := range colPats {
			for y := range tgtPats {
				for _, depth := range []int{3, 8} {
					X := transpose(col(p, n), col((p+6)%len(colPats), n), col((p+11)%len(colPats), n))
					for _, xgb := range []bool{false, true} {
						t := &treeCase{name: fmt.Sprintf("%s+2->%s", colPats[p].name, tgtPats[y].name)}
						t.X, t.depth, t.mcw, t.xgb, t.lambda = X, depth, float64(1+(p+y)%4), xgb, 1
						t.target(tgt(y, n), p%2)
						f(t)
					}
				}
			}
		}
	}
	// C: every set of allowed columns, in both orders, on several depths
	c.family("allowed columns")
	for _, n := range []int{4, 6, 11} {
		for _, cols := range [][]int{{0}, {1}, {2}, {3}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {3, 1}, {0, 3}, {2, 3}, {0, 1, 2}, {3, 1, 0}, {2, 0, 1}, {1, 1}, {3, 0, 3}, {2, 2, 1, 0}, {1, 2, 3}, {0, 1, 2, 3}, {}} {
			for p := range colPats {
				for y := range tgtPats {
					for _, depth := range []int{1, 2, 3, 6} {
						for _, xgb := range []bool{false, true} {
							t := &treeCase{name: "cols " + colPats[p].name + "->" + tgtPats[y].name}
							N := len(colPats)
							t.X = transpose(col(p, n), col((p+3)%N, n), col((p+5)%N, n), tgt(y, n))
							t.depth, t.mcw, t.xgb, t.lambda, t.cols = depth, 1, xgb, 0.5, cols
							t.target(tgt(y, n), p%2)
							f(t)
						}
					}
				}
			}
		}
	}
	c.family("many columns")
	for _, n := range []int{8, 17} {
		for _, nf := range []int{9, 23, 70, 140, 260} {
			for y := range tgtPats {
				for rot := 0; rot < len(colPats); rot++ {
					var cs [][]float64
					for k := 0; k < nf; k++ {
						cs = append(cs, col((k*3+rot)%len(colPats), n))
					}
					if nf > 23 && (rot+y)%5 != 0 {
						continue
					}
					if nf > 23 { // only the last columns say something
						for k := 0; k < nf-3; k++ {
							cs[k] = col(2, n)
						}
					}
					var odd, most []int
					for k := 0; k < nf; k++ {
						if k%2 == 1 {
							odd = append(odd, k)
						}
						if k != nf-2 {
							most = append(most, k)
						}
					}
					for _, cols := range [][]int{nil, {nf - 1}, {4, nf - 2, nf - 1}, odd, most} {
						for _, xgb := range []bool{false, true} {
							t := &treeCase{name: fmt.Sprintf("%d columns ->%s", nf, tgtPats[y].name)}
							t.X, t.depth, t.mcw, t.xgb, t.lambda, t.cols = transpose(cs...), 5, 1, xgb, 1, cols
							t.target(tgt(y, n), rot%2)
							f(t)
						}
					}
				}
			}
		}
	}
	// D: every subset of the rows, in several orders
	c.family("row subsets")
	for _, n := range []int{3, 5} {
		for m := 1; m < 1<<n; m++ {
			var rows []int
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					rows = append(rows, i)
				}
			}
			for ord := 0; ord < 2; ord++ {
				if ord == 1 {
					rows = slices.Clone(rows)
					slices.Reverse(rows)
				}
				for p := range colPats {
					for y := range tgtPats {
						for _, xgb := range []bool{false, true} {
							for _, depth := range []int{1, 3} {
								t := &treeCase{name: "rows " + colPats[p].name + "->" + tgtPats[y].name}
								t.X = transpose(col(p, n), col((p+6)%len(colPats), n))
								t.depth, t.mcw, t.xgb, t.lambda, t.rows = depth, float64(1+(p+y)%2), xgb, 1, rows
								t.target(tgt(y, n), p%2)
								f(t)
							}
						}
					}
				}
			}
		}
	}
}

func treeCheck(aspects int) func(c *ctx) {
	return func(c *ctx) {
		enumTrees(c, func(t *treeCase) {
			c.run(t.String, func() error {
				t.aspects = aspects
				tree := boo.NewTree(t.X, t.options())
				n := observe(tree)
				err := t.check(n)
				c.state(t.nodes)
				c.transition(t.splits)
				c.trace()
				if t.splits > 0 {
					c.nontrivial(fmt.Sprint(c.idx))
				}
				c.outcome(n.String())
				if err != nil {
					return err
				}
				if aspects&aLimit != 0 && tree.Branches() != n.count() {
					return fmt.Errorf("Branches() is %d for a tree of %d nodes", tree.Branches(), n.count())
				}
				if aspects&aLimit != 0 {
					err := leafFlags(tree)
					if err != nil {
						return err
					}
				}
				if aspects&aGain != 0 && !n.leaf {
					want := map[int]float64{}
					addGains(n, want)
					f, err := tree.FeatureImportance(t.xgb)
					if err != nil {
						return err
					}
					return checkFeats(f, want, t.xgb, true)
				}
				if aspects&aValue != 0 {
					return checkPredictions(c, tree, n, t)
				}
				return nil
			})
		})
	}
}

func leafFlags(t *boo.Tree) error {
	l := t.Leftf(nil)
	if t.Leaf() != (l == nil) {
		return fmt.Errorf("Leaf() is %v for a node with children %v", t.Leaf(), l != nil)
	}
	if l != nil {
		if err := leafFlags(l.(*boo.Tree)); err != nil {
			return err
		}
		return leafFlags(t.Rightf(nil).(*boo.Tree))
	}
	return nil
}

// checkPredictions: training rows, rows exactly at and next to every threshold, and unseen values.
func checkPredictions(c *ctx, tree *boo.Tree, n *node, t *treeCase) error {
	rows := copyM(t.X)
	f := len(t.X[0])
	n.walk(func(m *node, d int) {
		if m.leaf {
			return
		}
		for k, v := range []float64{m.thr, math.Nextafter(m.thr, math.Inf(1)), math.Nextafter(m.thr, math.Inf(-1)), math.Inf(1), math.Inf(-1)} {
			r := slices.Clone(t.X[(k+d)%len(t.X)])
			r[m.feat] = v
			rows = append(rows, r)
		}
	}, 0)
	if len(t.X) <= 4 && f <= 2 {
		vals := []float64{-1, 0, 0.5, 1, 1.75, 2.5, 7}
		tuples(f, len(vals), func(a []int) {
			r := make([]float64, f)
			for i := range r {
				r[i] = vals[a[i]]
			}
			rows = append(rows, r)
		})
	}
	before := copyM(rows)
	given := make([]float64, len(rows))
	for i := range given {
		given[i] = 1234.5
	}
	bulk := tree.Predict(rows, nil)
	bulk2 := tree.Predict(rows, given)
	if len(bulk) != len(rows) || len(bulk2) < len(rows) {
		return fmt.Errorf("%d predictions for %d rows", len(bulk), len(rows))
	}
	for i, r := range rows {
		want := n.leafFor(r).val
		got := tree.PredictSingle(r)
		c.transition(1)
		if got != want || bulk[i] != want || bulk2[i] != want || given[i] != want {
			return fmt.Errorf("row %v: predicted %v, in bulk %v, with storage %v (%v), the leaf it belongs to has %v", r, got, bulk[i], bulk2[i], given[i], want)
		}
	}
	if !sameM(rows, before) {
		return fmt.Errorf("predicting changed the rows")
	}
	// the same row several times, also the very same slice, and storage longer than needed
	var again [][]float64
	for i, r := range rows {
		again = append(again, r, r)
		if i%3 == 0 {
			again = append(again, slices.Clone(r), rows[0])
		}
		if len(again) > 40 {
			break
		}
	}
	long := make([]float64, len(again)+3)
	for i := range long {
		long[i] = -77.25
	}
	out := tree.Predict(again, long)
	if len(out) < len(again) {
		return fmt.Errorf("%d predictions for %d rows", len(out), len(again))
	}
	for i, r := range again {
		want := n.leafFor(r).val
		if out[i] != want || long[i] != want {
			return fmt.Errorf("repeated rows, longer storage: row %d %v got %v (%v in the storage given), the leaf it belongs to has %v", i, r, out[i], long[i], want)
		}
	}
	return nil
}

func init() {
	checks["C01"] = treeCheck(aSplit)
	checks["C02"] = treeCheck(aLimit)
	checks["C03"] = treeCheck(aValue)
	_ = utils.SampleSlice
}

package main

import (
	"fmt"
	"maps"
	"math"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
	"gonum.org/v1/gonum/mat"
)

// ---- C18 ----

// pickModel predicts the to[x]-th class for x = 0, 1, 2, ...
func pickModel(labels []int, to []int) *boo.MultiClass {
	var round []*node
	for k := range labels {
		t := lf(0)
		if to[len(to)-1] == k {
			t = lf(2)
		}
		for x := len(to) - 2; x >= 0; x-- {
			l := lf(0)
			if to[x] == k {
				l = lf(2)
			}
			t = sp(0, float64(x)+0.5, 1, l, t)
		}
		round = append(round, t)
	}
	m, _, err := craft(labels, 0.5, 0.5, true, [][]*node{round})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return m
}

var countRe = regexp.MustCompile(`(\S+):(\d+)`)

// checkTop checks a top-N list of one label against its row of the matrix.
func checkTop(ix, cnt []int, N int, row []int) error {
	want := min(N, len(row))
	if len(ix) != want || len(cnt) != want {
		return fmt.Errorf("top %d of %v: %v with counts %v", N, row, ix, cnt)
	}
	s := slices.Clone(row)
	sort.Sort(sort.Reverse(sort.IntSlice(s)))
	seen := map[int]bool{}
	for i := range ix {
		if ix[i] < 0 || ix[i] >= len(row) || seen[ix[i]] || row[ix[i]] != cnt[i] || cnt[i] != s[i] {
			return fmt.Errorf("top %d of %v: %v with counts %v", N, row, ix, cnt)
		}
		seen[ix[i]] = true
	}
	return nil
}

type confuRef struct {
	labels []int
	m      [][]int
}

func refConfu(labels []int, actual, pred []int) *confuRef {
	r := &confuRef{labels: labels}
	for range labels {
		r.m = append(r.m, make([]int, len(labels)))
	}
	for i := range actual {
		if a := slices.Index(labels, actual[i]); a >= 0 {
			r.m[a][slices.Index(labels, pred[i])]++
		}
	}
	return r
}

func (r *confuRef) checkMatrix(m [][]int) error {
	if len(m) != len(r.m) {
		return fmt.Errorf("matrix %v, should be %v", m, r.m)
	}
	for i := range m {
		if !slices.Equal(m[i], r.m[i]) {
			return fmt.Errorf("matrix %v, should be %v", m, r.m)
		}
	}
	return nil
}

func (r *confuRef) checkPrint(s string, N int, names map[int]string) error {
	byLabel := map[string][]string{}
	for _, l := range strings.Split(s, "\n") {
		i := strings.Index(l, "Label ")
		if i < 0 {
			if countRe.MatchString(l) {
				return fmt.Errorf("counts outside of a label's line in %q", s)
			}
			continue
		}
		fs := strings.Fields(l[i+6:])
		if len(fs) == 0 {
			return fmt.Errorf("report %q", s)
		}
		name := strings.TrimSuffix(fs[0], ":")
		if _, ok := byLabel[name]; ok {
			return fmt.Errorf("label %s twice in %q", name, s)
		}
		byLabel[name] = fs[1:]
	}
	for i, l := range r.labels {
		sorted := slices.Clone(r.m[i])
		sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
		var want []int
		for _, v := range sorted[:min(N, len(sorted))] {
			if v > 0 {
				want = append(want, v)
			}
		}
		if _, listed := byLabel[names[l]]; listed != (len(want) > 0) {
			return fmt.Errorf("label %s, with counts %v, is listed: %v in %q", names[l], want, listed, s)
		}
		var got []int
		seen := map[string]bool{}
		for _, t := range byLabel[names[l]] {
			x := countRe.FindStringSubmatch(t)
			if x == nil {
				return fmt.Errorf("token %q in %q", t, s)
			}
			n, _ := strconv.Atoi(x[2])
			ok := false
			for j, l2 := range r.labels {
				if names[l2] == x[1] && r.m[i][j] == n {
					ok = true
				}
			}
			if !ok || seen[x[1]] || n == 0 {
				return fmt.Errorf("%q for label %s in %q, the matrix is %v for labels %v", t, names[l], s, r.m, r.labels)
			}
			seen[x[1]] = true
			got = append(got, n)
		}
		if !slices.Equal(got, want) {
			return fmt.Errorf("counts %v for label %s in %q, should be %v", got, names[l], s, want)
		}
	}
	return nil
}

type confuOp struct {
	kind, n, label int // 0 matrix, 1 top of label, 2 top per label, 3 print, 4 top of label with a copy
}

func checkConfu(c *ctx, m *boo.MultiClass, labels []int, D *utils.DataBunch, pred []int, ops []confuOp) error {
	keep := copyDB(D)
	ref := refConfu(labels, D.Labels, pred)
	C := confu.MCConfusions(m, D)
	if !slices.Equal(C.Labels, labels) || !slices.Equal(C.Actual, D.Labels) || !slices.Equal(C.Predicted, pred) {
		return fmt.Errorf("labels %v, actual %v, predicted %v; should be %v, %v, %v", C.Labels, C.Actual, C.Predicted, labels, D.Labels, pred)
	}
	names := map[int]string{}
	for _, l := range labels {
		names[l] = fmt.Sprintf("n%dx", l+100)
	}
	if (len(D.Data)+len(ops))%2 == 1 { // the labels themselves as names
		simple := map[int]string{}
		for _, l := range labels {
			simple[l] = strconv.Itoa(l)
		}
		if names = confu.MakeSimpleNameMap(labels); !maps.Equal(names, simple) {
			return fmt.Errorf("the simple names of %v are %v", labels, names)
		}
	}
	var later []func() error
	for _, op := range ops {
		c.transition(1)
		switch op.kind {
		case 0:
			if err := ref.checkMatrix(C.Matrix()); err != nil {
				return err
			}
		case 1, 4:
			var ix, cnt []int
			if op.kind == 1 {
				ix, cnt = C.TopNForLabelM(op.n, op.label)
			} else {
				ix, cnt = C.TopNForLabelM(op.n, op.label, true)
			}
			k := slices.Index(labels, op.label)
			if k < 0 {
				if len(ix) != 0 || len(cnt) != 0 {
					return fmt.Errorf("top %d of the unknown label %d: %v %v", op.n, op.label, ix, cnt)
				}
				continue
			}
			chk := func() error {
				if err := checkTop(ix, cnt, op.n, ref.m[k]); err != nil {
					return fmt.Errorf("label %d: %v", op.label, err)
				}
				return nil
			}
			if err := chk(); err != nil {
				return err
			}
			if op.kind == 4 {
				later = append(later, chk)
			}
		case 2:
			ixs, cnts := C.TopNPerLabel(op.n)
			chk := func() error {
				if len(ixs) != len(labels) || len(cnts) != len(labels) {
					return fmt.Errorf("top %d per label: %v %v", op.n, ixs, cnts)
				}
				for k := range labels {
					if err := checkTop(ixs[k], cnts[k], op.n, ref.m[k]); err != nil {
						return fmt.Errorf("label %d: %v", labels[k], err)
					}
				}
				return nil
			}
			if err := chk(); err != nil {
				return err
			}
			later = append(later, chk)
		case 3:
			if err := ref.checkPrint(C.PrintTopN(op.n, names), op.n, names); err != nil {
				return err
			}
		}
	}
	for _, f := range later {
		if err := f(); err != nil {
			return fmt.Errorf("after later reports: %v", err)
		}
	}
	if err := ref.checkMatrix(C.Matrix()); err != nil {
		return fmt.Errorf("in the end: %v", err)
	}
	if !sameDB(D, keep) {
		return fmt.Errorf("the dataset changed")
	}
	c.outcome(fmt.Sprint(ref.m))
	c.trace()
	return nil
}

func checkC18(c *ctx) {
	c.family("every prediction and dataset, every report")
	labsets := [][]int{{5}, {3, -2}, {7, 0, 4}, {2, 9, -1, 6}}
	allOps := func(labels []int) []confuOp {
		var r []confuOp
		r = append(r, confuOp{0, 0, 0})
		for n := 0; n <= len(labels)+2; n++ {
			for _, l := range append(slices.Clone(labels), 1234) {
				r = append(r, confuOp{1, n, l}, confuOp{4, n, l})
			}
			r = append(r, confuOp{2, n, 0}, confuOp{3, n, 0})
		}
		return r
	}
	for _, labels := range labsets {
		K := len(labels)
		// row x is predicted to[x]; rows are (x, actual), actual may be unknown
		tos := [][]int{}
		if K <= 3 {
			tuples(K, K, func(t []int) { tos = append(tos, slices.Clone(t)) })
		} else {
			tos = append(tos, []int{0, 1, 2, 3}, []int{3, 1, 0, 2}, []int{1, 1, 2, 0})
		}
		for _, to := range tos {
			maxn := 3
			if K == 2 {
				maxn = 5
			}
			if c.thorough() && K <= 3 {
				maxn++
			}
			for n := 0; n <= maxn; n++ {
				if K > 3 && n > 2 && c.quick {
					continue
				}
				tuples(n, K*(K+1), func(cells []int) {
					if K == 3 && c.quick && n == 3 && (cells[0]*7+cells[1]*3+cells[2])%4 != 0 {
						return
					}
					cells = slices.Clone(cells)
					c.run(func() string { return fmt.Sprintf("labels %v, predictions %v, samples %v", labels, to, cells) }, func() error {
						m := pickModel(labels, to)
						D := &utils.DataBunch{Data: [][]float64{}, Labels: []int{}}
						pred := []int{}
						for _, v := range cells {
							x, a := v%K, v/K
							D.Data = append(D.Data, []float64{float64(x), 9})
							l := -77
							if a < K {
								l = labels[a]
							}
							D.Labels = append(D.Labels, l)
							pred = append(pred, labels[to[x]])
						}
						for _, op := range allOps(labels) {
							if err := checkConfu(c, m, labels, D, pred, []confuOp{op}); err != nil {
								return fmt.Errorf("%+v: %v", op, err)
							}
						}
						c.state(1)
						c.nontrivial(fmt.Sprint(labels, to, cells))
						return nil
					})
				})
			}
		}
	}
	c.family("sequences of reports")
	depth := 3
	if c.thorough() {
		depth = 4
	}
	for _, labels := range labsets[1:] {
		K := len(labels)
		var ops []confuOp
		for _, o := range allOps(labels) {
			if o.n == 0 && o.kind != 0 || o.n > K+1 || K == 4 && o.n != 2 && o.n != 4 && o.kind != 0 {
				continue
			}
			if K == 3 && o.n == 2 && o.kind == 1 {
				continue
			}
			ops = append(ops, o)
		}
		for d := 2; d <= depth; d++ {
			if d > 2 && len(ops) > 16 {
				ops = slices.DeleteFunc(ops, func(o confuOp) bool { return o.n == 1 || o.n > K || o.label == 1234 })
			}
			tuples(d, len(ops), func(ix []int) {
				var seq []confuOp
				for _, i := range ix {
					seq = append(seq, ops[i])
				}
				c.run(func() string { return fmt.Sprintf("labels %v, reports %+v", labels, seq) }, func() error {
					to := []int{1, 0, 2, 3, 1}[:K]
					if K == 2 {
						to = []int{1, 0}
					}
					m := pickModel(labels, to)
					D := &utils.DataBunch{}
					pred := []int{}
					for i := 0; i < 3*K+2; i++ {
						x := (i*i + i/2) % K
						D.Data = append(D.Data, []float64{float64(x), 1})
						D.Labels = append(D.Labels, labels[(i*2+i/3)%K])
						pred = append(pred, labels[to[x]])
					}
					c.state(1)
					return checkConfu(c, m, labels, D, pred, seq)
				})
			})
		}
	}
	c.family("many classes and samples")
	for _, K := range []int{5, 8, 9, 12, 17, 33, 66, 130} {
		for _, n := range []int{1, 10, 70, 300, 1500} {
			for v := 0; v < 7; v++ {
				if v > 3 && K*n > 5000 {
					continue
				}
				c.run(func() string { return fmt.Sprintf("%d classes, %d samples, %d", K, n, v) }, func() error {
					labels := make([]int, K)
					to := make([]int, K)
					for i := range labels {
						labels[i] = []int{i, 1000 - 3*i, i*i - 40, i * 100003, i<<32 + i%3, -i<<34 - 5, i<<16 + i<<40}[v]
						to[i] = []int{i, (i + 1) % K, i / 2, K - 1 - i/3}[v%4]
					}
					m := pickModel(labels, to)
					D := &utils.DataBunch{}
					pred := []int{}
					for i := 0; i < n; i++ {
						x := []int{i % K, i * i % K, i / 3 % K, 0}[(i/7+v)%4]
						D.Data = append(D.Data, []float64{float64(x), 1})
						l := labels[[]int{i % K, (i*2 + i/3) % K, K - 1, i / 5 % K}[v%4]]
						if i%50 == 49 {
							l = -12345
						}
						D.Labels = append(D.Labels, l)
						pred = append(pred, labels[to[x]])
					}
					c.state(1)
					for _, N := range []int{1, 3, 10, 11, K - 1, K, K + 1, 1000} {
						if err := checkConfu(c, m, labels, D, pred, []confuOp{{2, N, 0}, {3, N, 0}, {1, N, labels[K-1]}, {4, N, labels[K/2]}, {0, 0, 0}}); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	c.family("trained models, many samples")
	for seed := 0; seed < 40; seed++ {
		c.run(func() string { return fmt.Sprintf("dataset %d", seed) }, func() error {
			s := &stream{uint64(seed)}
			K := 2 + seed%6
			D := &utils.DataBunch{}
			for i := 0; i < 30+seed; i++ {
				D.Data = append(D.Data, []float64{s.Float64(), s.Float64()})
				D.Labels = append(D.Labels, (i%K)*3-4)
			}
			o := boo.DefaultXOptions()
			o.Rounds, o.MinSample, o.EarlyStop = 2, 1, 0
			vrand.Provider = s
			defer func() { vrand.Provider = nil }()
			m := boo.NewMultiClass(D, o)
			labels := m.ClassLabels()
			var pred []int
			for _, r := range D.Data {
				p := m.PredictSingle(r)
				k := 0
				for i := range p {
					if p[i] > p[k] {
						k = i
					}
				}
				pred = append(pred, labels[k])
				if !argmaxes(p)[slices.Index(labels, labels[m.PredictSingleClass(r)])] {
					return fmt.Errorf("class prediction of %v", r)
				}
			}
			for n := 0; n <= K+1; n++ {
				if err := checkConfu(c, m, labels, D, pred, []confuOp{{2, n, 0}, {3, n, 0}, {1, n, labels[K-1]}, {0, 0, 0}}); err != nil {
					return err
				}
			}
			c.state(1)
			return nil
		})
	}
}

// ---- C19 ----

var featRe = regexp.MustCompile(`(?m)^\s*(\d+)\s+Feature\s+(-?\d+)\s+with score:\s+(\S+)\s*$`)

type featLine struct {
	feat int
	gain float64
}

func parseFeats(s string) ([]featLine, error) {
	lines := strings.Split(strings.TrimRight(s, "\n"), "\n")
	var r []featLine
	for i, l := range lines[1:] {
		x := featRe.FindStringSubmatch(l)
		if x == nil {
			return nil, fmt.Errorf("line %q of the report", l)
		}
		if x[1] != strconv.Itoa(i+1) {
			return nil, fmt.Errorf("line %q is number %d of the report", l, i+1)
		}
		f, _ := strconv.Atoi(x[2])
		g, err := strconv.ParseFloat(x[3], 64)
		if err != nil {
			return nil, err
		}
		r = append(r, featLine{f, g})
	}
	return r, nil
}

// checkFeats checks a report against the sums per feature.
func checkFeats(f *boo.Feats, want map[int]float64, xgb, ordered bool) error {
	ls, err := parseFeats(f.String())
	if err != nil {
		return fmt.Errorf("%v: %s", err, f.String())
	}
	if f.Len() != len(want) || len(ls) != len(want) {
		return fmt.Errorf("report %v, should be %v", ls, want)
	}
	seen := map[int]bool{}
	for i, l := range ls {
		w, ok := want[l.feat]
		if !ok || seen[l.feat] || !(math.Abs(w-l.gain) <= 0.0005001+1e-9*math.Abs(w)) {
			return fmt.Errorf("report %v, should be %v", ls, want)
		}
		seen[l.feat] = true
		if i > 0 && ordered {
			a, b := want[ls[i-1].feat], w
			if !xgb {
				a, b = -a, -b
			}
			if a < b-1e-11*(math.Abs(a)+math.Abs(b)) {
				return fmt.Errorf("report %v is not ordered (xgboost: %v)", ls, xgb)
			}
		}
	}
	if f.XGB() != xgb {
		return fmt.Errorf("the report is for xgboost: %v, should be %v", f.XGB(), xgb)
	}
	return nil
}

func addGains(n *node, m map[int]float64) {
	if n.leaf {
		return
	}
	m[n.feat] += n.score
	addGains(n.l, m)
	addGains(n.r, m)
}

func checkC19(c *ctx) {
	race := vsched.RaceEnabled
	if !race {
		treeCheck(aGain)(c)
		gains := func(t *trainCase) {
			c.run(t.String, func() error { return replayCase(c, t, tGain) })
		}
		enumTrain(c, gains)
		enumLong(c, gains)
		c.family("crafted models")
		enumCrafted(c, func(x *crafted) {
			c.run(func() string { return x.String() }, func() error {
				mc, m, err := craft(x.labels, x.lr, x.base, x.xgb, x.rounds)
				if err != nil {
					return err
				}
				return modelImportance(c, mc, m, x.xgb)
			})
		})
		c.family("crafted trees over many features")
		for _, xgb := range []bool{true, false} {
			tuples(5, 4, func(ix []int) {
				for sc := 0; sc < 5; sc++ {
					ix = slices.Clone(ix)
					c.run(func() string { return fmt.Sprintf("features %v, gains %d, xgb %v", ix, sc, xgb) }, func() error {
						g := func(i int) float64 {
							switch sc {
							case 0:
								return float64(i+1) / 8
							case 1:
								return float64(40-i*i) / 4
							case 3: // differences far smaller than the gains
								return 1<<24 + float64((i*3)%5)/64
							case 4:
								return 1<<20 + float64((i*2)%5)/1024
							}
							return 1.5
						}
						if !xgb {
							h := g
							g = func(i int) float64 { return -h(i) }
						}
						mk := func() *node {
							return sp(ix[0]*11, 0, g(0), sp(ix[1]*11, 0, g(1), lf(1), sp(ix[2]*11, 1, g(2), lf(2), lf(3))), sp(ix[3]*11, 0, g(3), sp(ix[4]*11, 0, g(4), lf(1), lf(0)), lf(4)))
						}
						mc, m, err := craft([]int{4, 2}, 0.5, 0.5, xgb, [][]*node{{mk(), lf(1)}, {sp(ix[2]*11, 0, g(4), lf(1), lf(2)), placeholder()}})
						if err != nil {
							return err
						}
						return modelImportance(c, mc, m, xgb)
					})
				}
			})
		}
		c.family("many features, classes and rounds")
		for _, nf := range []int{3, 8, 17, 33, 70, 130, 300} {
			for _, K := range []int{2, 5, 11, 21, 40} {
				for _, R := range []int{1, 4, 12, 30} {
					if K*R > 160 {
						continue
					}
					for m := 0; m < 6; m++ {
						xgb := m%2 == 0
						c.run(func() string { return fmt.Sprintf("%d features, %d classes, %d rounds, %d", nf, K, R, m) }, func() error {
							s := &stream{uint64(nf*1000 + K*50 + R*7 + m)}
							at := 0
							feat := func() int {
								if m < 2 {
									at++
									return (at * 5) % nf
								}
								return s.IntN(nf)
							}
							g := func() float64 {
								v := float64(1+s.IntN(4000)) / 8
								if !xgb {
									v = -v
								}
								return v
							}
							var rs [][]*node
							var labels []int
							for k := 0; k < K; k++ {
								labels = append(labels, k*2)
							}
							for r := 0; r < R; r++ {
								var row []*node
								for k := 0; k < K; k++ {
									switch (r + k + m) % 4 {
									case 0:
										row = append(row, sp(feat(), 0, g(), lf(1), lf(2)))
									case 1:
										row = append(row, sp(feat(), 0, g(), sp(feat(), 0, g(), lf(1), lf(2)), sp(feat(), 1, g(), lf(0), sp(feat(), 1, g(), lf(1), lf(3)))))
									case 2:
										t := lf(1)
										for d := 0; d < 3+s.IntN(14); d++ {
											if s.IntN(2) == 0 {
												t = sp(feat(), float64(d), g(), t, lf(2))
											} else {
												t = sp(feat(), float64(d), g(), lf(2), t)
											}
										}
										row = append(row, t)
									default:
										row = append(row, lf(1))
									}
								}
								rs = append(rs, row)
							}
							mc, mm, err := craft(labels, 0.5, 0.5, xgb, rs)
							if err != nil {
								return err
							}
							return modelImportance(c, mc, mm, xgb)
						})
					}
				}
			}
		}
		for _, n := range []int{5, 16, 17, 40, 100, 300} {
			for m := 0; m < 12; m++ {
				c.run(func() string { return fmt.Sprintf("%d additions, merges, %d", n, m) }, func() error {
					s := &stream{uint64(n*100 + m)}
					xgb := m%2 == 0
					fs := []*boo.Feats{boo.NewFeats(xgb), boo.NewFeats(xgb), boo.NewFeats(xgb)}
					want := []map[int]float64{{}, {}, {}}
					for i := 0; i < n; i++ {
						k, x := s.IntN(3), 0
						switch m / 2 % 3 {
						case 0:
							x = i
						case 1:
							x = s.IntN(n)
						case 2:
							x = (i * 7) % 23
						}
						v := float64(s.IntN(500)-100) / 4
						fs[k].Add(x, v)
						want[k][x] += v
						if m > 5 && i%20 == 19 {
							a, b := s.IntN(3), s.IntN(2)
							b = (a + 1 + b) % 3
							fs[a].Merge(fs[b])
							for k, v := range want[b] {
								want[a][k] += v
							}
						}
					}
					for k := range fs {
						if err := checkFeats(fs[k], want[k], xgb, false); err != nil {
							return err
						}
						sort.Sort(fs[k])
						if err := checkFeats(fs[k], want[k], xgb, true); err != nil {
							return err
						}
					}
					c.state(1)
					c.transition(n)
					return nil
				})
			}
		}
		c.family("trained models and trees")
		for seed := 0; seed < 60; seed++ {
			c.run(func() string { return fmt.Sprintf("dataset %d", seed) }, func() error {
				s := &stream{uint64(seed)}
				D := &utils.DataBunch{}
				K := 2 + seed%3
				for i := 0; i < 12+seed%9; i++ {
					D.Data = append(D.Data, []float64{s.Float64(), s.Float64(), float64(i % 4), s.Float64() * 3})
					D.Labels = append(D.Labels, i%K)
				}
				o := boo.DefaultXOptions()
				if seed%2 == 1 {
					o = boo.DefaultGOptions()
				}
				o.Rounds, o.MinSample, o.MinChildWeight = 3, 1, 1
				o.Gamma = 0
				vrand.Provider = s
				defer func() { vrand.Provider = nil }()
				mc := boo.NewMultiClass(D, o)
				m, err := observeModel(mc)
				if err != nil {
					return err
				}
				if err := modelImportance(c, mc, m, o.XGB); err != nil {
					return err
				}
				to := boo.DefaultXTreeOptions()
				if seed%2 == 1 {
					to = boo.DefaultGTreeOptions()
				}
				to.MinChildWeight, to.MaxDepth, to.Gamma = 1, 3, 0
				y := make([]float64, len(D.Data))
				for i := range y {
					y[i] = s.Float64() - 0.5
				}
				to.Y = y
				if to.XGB = seed%2 == 0; to.XGB {
					to.Gradients = slices.Clone(y)
					to.Hessian = make([]float64, len(y))
					for i := range to.Hessian {
						to.Hessian[i] = 1
					}
				}
				t := boo.NewTree(D.Data, to)
				n := observe(t)
				want := map[int]float64{}
				addGains(n, want)
				f, err := t.FeatureImportance(to.XGB)
				if n.leaf {
					return nil
				}
				if err != nil {
					return err
				}
				return checkFeats(f, want, to.XGB, true)
			})
		}
		c.family("sequences of additions and merges")
		depth := 5
		if c.thorough() {
			depth = 7
		}
		for d := 0; d <= depth; d++ {
			tuples(d, 5, func(ix []int) {
				ix = slices.Clone(ix)
				for _, xgb := range []bool{true, false} {
					c.run(func() string { return fmt.Sprintf("additions %v, xgb %v", ix, xgb) }, func() error {
						f := boo.NewFeats(xgb)
						g := boo.NewFeats(xgb)
						want, wg := map[int]float64{}, map[int]float64{}
						for i, k := range ix {
							v := float64(i+1) / 8
							switch k {
							case 0, 1, 2:
								f.Add(k*5, v)
								want[k*5] += v
							case 3:
								g.Add(5+5*(i%2), v)
								wg[5+5*(i%2)] += v
							case 4:
								f.Merge(g)
								for k, v := range wg {
									want[k] += v
								}
							}
							c.transition(1)
						}
						c.state(1)
						if err := checkFeats(f, want, xgb, false); err != nil {
							return err
						}
						if err := checkFeats(g, wg, xgb, false); err != nil {
							return fmt.Errorf("merged report: %v", err)
						}
						sort.Sort(f)
						return checkFeats(f, want, xgb, true)
					})
				}
			})
		}
	}
	c.family("concurrent additions, all interleavings")
	type act struct {
		feat  int
		merge bool
	}
	// each goroutine does a sequence over: add feature 0, add feature 1, merge a report with both
	maxExec := 4000
	if c.thorough() {
		maxExec = 100000
	}
	progs := [][]int{{0}, {1}, {2}, {0, 0}, {0, 1}, {1, 0}, {0, 2}, {2, 1}, {2, 2}}
	if !c.thorough() {
		progs = progs[:8]
	}
	for k := 2; k <= 3; k++ {
		for pre := 0; pre < 2; pre++ {
			tuplesOf(slices.Repeat([]int{len(progs)}, k), func(ix []int) {
				total := 0
				for _, p := range ix {
					for _, a := range progs[p] {
						total += 1 + b2i(a == 2)
					}
				}
				if k == 3 && total > 5+b2i(c.thorough()) || !slices.IsSorted(ix) {
					return
				}
				ix = slices.Clone(ix)
				c.run(func() string {
					return fmt.Sprintf("goroutines doing %v (of %v), features present before: %d", ix, progs, pre)
				}, func() error {
					var f *boo.Feats
					want := map[int]float64{}
					if pre == 1 {
						want[1] = 64
					}
					v := 0.125
					for _, p := range ix {
						for _, a := range progs[p] {
							if a < 2 {
								want[a] += v
							} else {
								want[0] += v
								want[1] += v * 2
							}
							v *= 2
						}
					}
					return underSched(c, maxExec, func() {
						f = boo.NewFeats(true)
						if pre == 1 {
							f.Add(1, 64)
						}
						var done []chan bool
						v := 0.125
						for _, p := range ix {
							d := make(chan bool, 1)
							done = append(done, d)
							v0 := v
							v *= math.Pow(2, float64(len(progs[p])))
							vsched.Go(func() {
								x := v0
								for _, a := range progs[p] {
									if a < 2 {
										f.Add(a, x)
									} else {
										g := boo.NewFeats(true)
										g.Add(0, x)
										g.Add(1, 2*x)
										f.Merge(g)
									}
									x *= 2
								}
								vsched.SendTo(d)(true)
							})
						}
						for _, d := range done {
							vsched.Recv(d)
						}
						if err := checkFeats(f, want, true, false); err != nil {
							panic(err.Error())
						}
						c.trace()
						c.nontrivial(fmt.Sprint(ix, pre))
					}, clean)
				})
			})
		}
	}
}

func modelImportance(c *ctx, mc *boo.MultiClass, m *model, xgb bool) error {
	want := map[int]float64{}
	for _, r := range m.rounds {
		for _, t := range r {
			addGains(t, want)
		}
	}
	for i := 0; i < 2; i++ {
		f, err := mc.FeatureImportance()
		if err != nil {
			return err
		}
		if err := checkFeats(f, want, xgb, true); err != nil {
			return fmt.Errorf("report number %d: %v", i+1, err)
		}
		c.outcome(f.String())
	}
	c.state(1)
	c.trace()
	c.nontrivial(fmt.Sprint(c.idx))
	return nil
}

// ---- C20 ----

// setField gives field f one of two values.
func setField(f reflect.Value, i int, second bool) {
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(second)
	case reflect.Int, reflect.Int64:
		if second {
			f.SetInt(int64(i + 3))
		} else {
			f.SetInt(int64(i%2) * 9)
		}
	case reflect.Float64:
		if second {
			f.SetFloat(0.125 + float64(i))
		} else {
			f.SetFloat(float64(i%2) * 0.75)
		}
	case reflect.String:
		if second {
			f.SetString("other")
		} else {
			f.SetString("exact")
		}
	case reflect.Array, reflect.Slice:
		for j := 0; j < f.Len(); j++ {
			setField(f.Index(j), i*3+j*2, second)
		}
	case reflect.Interface:
		if second {
			f.Set(reflect.ValueOf(lossB))
		} else {
			f.Set(reflect.ValueOf(lossA))
		}
	}
}

var lossA, lossB utils.LossFunc = &utils.SQErrLoss{}, &utils.MSELoss{}

// losses of the caller that are called like those of the library
type namesake struct{ utils.MSELoss }
type namesake2 struct{ utils.SQErrLoss }

func masks(n int, quick bool, f func(m uint)) {
	if n <= 18 {
		for m := uint(0); m < 1<<n; m++ {
			f(m)
		}
		return
	}
	for i := 0; i < n; i++ {
		f(1 << i)
		for j := 0; j < i; j++ {
			f(1<<i | 1<<j)
		}
	}
	f(0)
	f(1<<n - 1)
}

func checkC20(c *ctx) {
	c.family("every subset of settings, training options")
	n := reflect.TypeOf(boo.Options{}).NumField()
	mk := func(m uint) *boo.Options {
		o := &boo.Options{}
		v := reflect.ValueOf(o).Elem()
		for i := 0; i < n; i++ {
			if v.Field(i).CanSet() {
				setField(v.Field(i), i, m>>i&1 == 1)
			}
		}
		return o
	}
	for i, l := range []utils.LossFunc{&namesake{}, &namesake2{}} {
		c.run(func() string { return fmt.Sprintf("another loss of the same name, %d", i) }, func() error {
			a, b := boo.DefaultXOptions(), boo.DefaultXOptions()
			for _, x := range []utils.LossFunc{lossA, lossB} {
				a.Loss, b.Loss = x, l
				if a.Equal(b) || b.Equal(a) {
					return fmt.Errorf("options with loss %T equal those with loss %T", x, l)
				}
				if k := b.Clone(); k.Loss != l || !k.Equal(b) {
					return fmt.Errorf("the clone has loss %T, should be %T", k.Loss, l)
				}
			}
			c.state(1)
			return nil
		})
	}
	chunk := func(name string, n int, f func(m uint) error) {
		var part []uint
		flush := func() {
			if len(part) == 0 {
				return
			}
			p := part
			part = nil
			c.run(func() string {
				return fmt.Sprintf("%s: settings that differ (bits) %b ... %b", name, p[0], p[len(p)-1])
			}, func() error {
				for _, m := range p {
					c.state(1)
					c.transition(1)
					if err := f(m); err != nil {
						return fmt.Errorf("settings %b: %v", m, err)
					}
				}
				c.nontrivial(fmt.Sprint(name, p[0]))
				return nil
			})
		}
		masks(n, c.quick, func(m uint) {
			part = append(part, m)
			if len(part) == 256 {
				flush()
			}
		})
		flush()
	}
	chunk("options", n, func(m uint) error {
		a := mk(m)
		b := a.Clone()
		if b == a {
			return fmt.Errorf("the clone is the original")
		}
		if !reflect.DeepEqual(a, b) {
			return fmt.Errorf("clone %+v of %+v", *b, *a)
		}
		if !a.Equal(b) || !b.Equal(a) || !a.Equal(a) {
			return fmt.Errorf("a clone does not compare equal: %+v", *a)
		}
		z := mk(0)
		if a.Equal(z) != (m == 0) || z.Equal(a) != (m == 0) {
			return fmt.Errorf("%+v and %+v compare equal: %v, %v", *a, *z, a.Equal(z), z.Equal(a))
		}
		// changes do not show in the other one
		v := reflect.ValueOf(b).Elem()
		for i := 0; i < n; i++ {
			if v.Field(i).CanSet() {
				setField(v.Field(i), i, m>>i&1 == 0)
			}
		}
		if !reflect.DeepEqual(a, mk(m)) {
			return fmt.Errorf("changing the clone changed the original")
		}
		b2 := a.Clone()
		v = reflect.ValueOf(a).Elem()
		for i := 0; i < n; i++ {
			if v.Field(i).CanSet() {
				setField(v.Field(i), i, m>>i&1 == 0)
			}
		}
		if !reflect.DeepEqual(b2, mk(m)) {
			return fmt.Errorf("changing the original changed the clone")
		}
		return nil
	})
	c.family("every subset of settings, grid options")
	gn := reflect.TypeOf(cv.GridOptions{}).NumField()
	gmk := func(m uint) *cv.GridOptions {
		o := &cv.GridOptions{}
		v := reflect.ValueOf(o).Elem()
		for i := 0; i < gn; i++ {
			if v.Field(i).CanSet() {
				setField(v.Field(i), i, m>>i&1 == 1)
			}
		}
		return o
	}
	chunk("grid options", gn, func(m uint) error {
		a := gmk(m)
		b := a.Clone()
		if b == a {
			return fmt.Errorf("the clone is the original")
		}
		if !reflect.DeepEqual(a, b) {
			return fmt.Errorf("clone %+v of %+v", *b, *a)
		}
		v := reflect.ValueOf(b).Elem()
		for i := 0; i < gn; i++ {
			if v.Field(i).CanSet() {
				setField(v.Field(i), i, m>>i&1 == 0)
			}
		}
		if !reflect.DeepEqual(a, gmk(m)) {
			return fmt.Errorf("changing the clone changed the original")
		}
		return nil
	})
	c.family("close values")
	for i := 0; i < n; i++ {
		c.run(func() string { return reflect.TypeOf(boo.Options{}).Field(i).Name }, func() error {
			a, b := boo.DefaultXOptions(), boo.DefaultXOptions()
			b.Loss = a.Loss
			if !a.Equal(b) {
				return fmt.Errorf("default options are different from themselves")
			}
			f := reflect.ValueOf(b).Elem().Field(i)
			if !f.CanSet() {
				return nil
			}
			for k := 0; k < 3; k++ {
				g := reflect.ValueOf(a).Elem().Field(i)
				switch f.Kind() {
				case reflect.Float64:
					f.SetFloat([]float64{math.Nextafter(g.Float(), 9), math.Nextafter(g.Float(), -9), -g.Float() - 1}[k])
				case reflect.Int:
					f.SetInt(g.Int() + []int64{1, -1, 1 << 33}[k])
				case reflect.String:
					f.SetString([]string{g.String() + " ", "", strings.ToUpper(g.String())}[k])
				case reflect.Bool:
					f.SetBool(!g.Bool())
				default:
					return nil
				}
				if a.Equal(b) || b.Equal(a) {
					return fmt.Errorf("%+v and %+v compare equal", *a, *b)
				}
				if d := b.Clone(); !reflect.DeepEqual(d, b) {
					return fmt.Errorf("clone %+v of %+v", *d, *b)
				}
				c.transition(1)
			}
			return nil
		})
	}
	c.family("unusual values")
	ints := []int64{math.MinInt64, -1 << 31, -1000, -2, -1, 0, 1, 2, 3, 31, 33, 64, 65, 100, 129, 1000, 5000, 70000, 1 << 31, 1 << 40, math.MaxInt64}
	flts := []float64{-math.MaxFloat64, -1e10, -1, -0.5, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1e-300, 1e-12, 0.001, 0.3, 0.99999, 1, 1.00001, 2, 10, 99, 101, 1e4, 1e9, 1e17, math.MaxFloat64, math.Inf(1), math.Inf(-1)}
	strs := []string{"", "exact", "hist", "Exact", "exact ", "approx", strings.Repeat("x", 300)}
	each := func(ft reflect.Type, f func(set func(v reflect.Value)) error) error {
		switch ft.Kind() {
		case reflect.Int, reflect.Int64:
			for _, x := range ints {
				if err := f(func(v reflect.Value) { v.SetInt(x) }); err != nil {
					return err
				}
			}
		case reflect.Float64:
			for _, x := range flts {
				if err := f(func(v reflect.Value) { v.SetFloat(x) }); err != nil {
					return err
				}
			}
		case reflect.String:
			for _, x := range strs {
				if err := f(func(v reflect.Value) { v.SetString(x) }); err != nil {
					return err
				}
			}
		case reflect.Bool:
			for _, x := range []bool{false, true} {
				if err := f(func(v reflect.Value) { v.SetBool(x) }); err != nil {
					return err
				}
			}
		case reflect.Array:
			if ft.Len() != 3 {
				return nil
			}
			for k := 0; k < 3; k++ {
				if ft.Elem().Kind() == reflect.Int {
					for _, x := range ints {
						if err := f(func(v reflect.Value) { v.Index(k).SetInt(x) }); err != nil {
							return err
						}
					}
				} else if ft.Elem().Kind() == reflect.Float64 {
					for _, x := range flts {
						if err := f(func(v reflect.Value) { v.Index(k).SetFloat(x) }); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			ti, tj := reflect.TypeOf(boo.Options{}).Field(i), reflect.TypeOf(boo.Options{}).Field(j)
			if !ti.IsExported() || !tj.IsExported() {
				continue
			}
			for base := 0; base < 2; base++ {
				c.run(func() string { return fmt.Sprintf("options %d with unusual %s and %s", base, ti.Name, tj.Name) }, func() error {
					mk := boo.DefaultXOptions
					if base == 1 {
						mk = boo.DefaultGOptions
					}
					return each(ti.Type, func(si func(reflect.Value)) error {
						return each(tj.Type, func(sj func(reflect.Value)) error {
							a, b := mk(), mk()
							b.Loss = a.Loss
							si(reflect.ValueOf(a).Elem().Field(i))
							sj(reflect.ValueOf(a).Elem().Field(j))
							if d := a.Clone(); !reflect.DeepEqual(d, a) || !d.Equal(a) {
								return fmt.Errorf("clone %+v of %+v", *d, *a)
							}
							if i == j {
								ti := ti
								if err := each(ti.Type, func(sk func(reflect.Value)) error {
									sk(reflect.ValueOf(b).Elem().Field(i))
									if eq := reflect.DeepEqual(a, b); a.Equal(b) != eq || b.Equal(a) != eq {
										return fmt.Errorf("%+v and %+v compare equal: %v, %v", *a, *b, a.Equal(b), b.Equal(a))
									}
									c.transition(1)
									return nil
								}); err != nil {
									return err
								}
							} else {
								si(reflect.ValueOf(b).Elem().Field(i))
								if eq := reflect.DeepEqual(a, b); a.Equal(b) != eq || b.Equal(a) != eq {
									return fmt.Errorf("%+v and %+v compare equal: %v, %v", *a, *b, a.Equal(b), b.Equal(a))
								}
							}
							valid := a.Rounds > 0 && a.LearningRate > 0 && a.SubSample > 0 && a.SubSample <= 1 && a.ColSubSample > 0 && a.ColSubSample <= 1 && a.Lambda >= 0 && a.Gamma >= 0 && a.MinChildWeight >= 1 && a.MaxDepth >= 2 && a.MinSample >= 1
							k := *a
							if err := a.Check(); (err == nil) != valid {
								return fmt.Errorf("%+v: %v", *a, err)
							}
							if !reflect.DeepEqual(k, *a) {
								return fmt.Errorf("checking changed %+v to %+v", k, *a)
							}
							c.transition(3)
							return nil
						})
					})
				})
			}
		}
	}
	for i := 0; i < gn; i++ {
		ti := reflect.TypeOf(cv.GridOptions{}).Field(i)
		if !ti.IsExported() {
			continue
		}
		c.run(func() string { return "grid options with unusual " + ti.Name }, func() error {
			return each(ti.Type, func(si func(reflect.Value)) error {
				for _, mk := range []func() *cv.GridOptions{cv.DefaultXGridOptions, cv.DefaultGGridOptions, func() *cv.GridOptions { return &cv.GridOptions{} }} {
					a := mk()
					si(reflect.ValueOf(a).Elem().Field(i))
					keep := *a
					if d := a.Clone(); !reflect.DeepEqual(d, a) || *a != keep {
						return fmt.Errorf("clone %+v of %+v", *d, *a)
					}
					c.transition(1)
				}
				return nil
			})
		})
	}
	c.family("validity, every combination of boundary values")
	tiny := math.SmallestNonzeroFloat64
	rounds := []int{-1, 0, 1, 50}
	lr := []float64{-0.1, 0, tiny, 1, 7}
	ss := []float64{-0.5, 0, tiny, 0.5, 1, math.Nextafter(1, 2)}
	lam := []float64{-tiny, 0, 3}
	mcw := []float64{0, math.Nextafter(1, 0), 1, 5}
	md := []int{0, 1, 2, 9}
	ms := []int{-1, 0, 1, 5}
	for _, r := range rounds {
		for _, l := range lr {
			for _, s := range ss {
				for _, cs := range ss {
					c.run(func() string { return fmt.Sprintf("rounds %v, learning rate %v, sub-sampling %v %v", r, l, s, cs) }, func() error {
						for _, la := range lam {
							for _, ga := range lam {
								for _, w := range mcw {
									for _, d := range md {
										for _, m := range ms {
											o := &boo.Options{XGB: (d+m)%2 == 0, Rounds: r, LearningRate: l, SubSample: s, ColSubSample: cs, Lambda: la, Gamma: ga, MinChildWeight: w, MaxDepth: d, MinSample: m, EarlyStop: m - 2, BaseScore: l - 1, Loss: lossA}
											valid := r > 0 && l > 0 && s > 0 && s <= 1 && cs > 0 && cs <= 1 && la >= 0 && ga >= 0 && w >= 1 && d >= 2 && m >= 1
											k := *o
											if err := o.Check(); (err == nil) != valid {
												return fmt.Errorf("%+v: %v", *o, err)
											}
											if !reflect.DeepEqual(k, *o) {
												return fmt.Errorf("checking changed %+v to %+v", k, *o)
											}
											c.transition(1)
										}
									}
								}
							}
						}
						c.state(1)
						return nil
					})
				}
			}
		}
	}
}

// ---- C21 ----

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func dense(r, c int, f func(i, j int) float64) *mat.Dense {
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, f(i, j))
		}
	}
	return d
}

func sameDense(d *mat.Dense, r, c int, f func(i, j int) float64, tol float64) error {
	a, b := d.Dims()
	if a != r || b != c {
		return fmt.Errorf("%d x %d matrix, should be %d x %d", a, b, r, c)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			x, y := d.At(i, j), f(i, j)
			if x != y && !near(x, y, tol) && !(x != x && y != y) {
				return fmt.Errorf("element %d,%d is %v, should be %v", i, j, x, y)
			}
		}
	}
	return nil
}

func checkC21(c *ctx) {
	c.family("one-hot encoding")
	maxn := 6
	if c.thorough() {
		maxn = 8
	}
	for n := 1; n <= maxn; n++ {
		tuples(n, 4, func(ix []int) {
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprint(ix) }, func() error {
				vals := []int{3, -1, 0, 40}
				d := &utils.DataBunch{}
				for _, i := range ix {
					d.Labels = append(d.Labels, vals[i])
					d.Keys = append(d.Keys, fmt.Sprintf("k%d", vals[i]))
				}
				keep := copyDB(d)
				m, ls := d.OHELabels()
				w := distinct(d.Labels)
				if !slices.Equal(ls, w) {
					return fmt.Errorf("labels in order %v, should be %v", ls, w)
				}
				if err := sameDense(m, n, len(w), func(i, j int) float64 { return float64(b2i(w[j] == d.Labels[i])) }, 0); err != nil {
					return err
				}
				m, ks := d.OHEKeys()
				if len(ks) != len(w) {
					return fmt.Errorf("keys in order %v, should be %v", ks, w)
				}
				for i := range w {
					if ks[i] != fmt.Sprintf("k%d", w[i]) {
						return fmt.Errorf("keys in order %v, should be %v", ks, w)
					}
				}
				if err := sameDense(m, n, len(w), func(i, j int) float64 { return float64(b2i(w[j] == d.Labels[i])) }, 0); err != nil {
					return err
				}
				if !sameDB(d, keep) {
					return fmt.Errorf("the dataset changed")
				}
				c.state(1)
				c.transition(2)
				c.nontrivial(fmt.Sprint(ix))
				return nil
			})
		})
	}
	c.family("sorting")
	sv := []float64{0, -1.5, 2, 1e300, 2.0000000001}
	for n := 0; n <= 6; n++ {
		k := len(sv)
		if n > 5 && c.quick {
			k = 3
		}
		tuples(n, k, func(ix []int) {
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprint(ix) }, func() error {
				a := make([]float64, n)
				for i := range a {
					a[i] = sv[ix[i]]
				}
				keep := slices.Clone(a)
				chk := func(p []int, v []float64) error {
					if len(p) != n || len(v) != n {
						return fmt.Errorf("%v %v of %v", p, v, keep)
					}
					seen := make([]bool, n)
					for i := range p {
						if p[i] < 0 || p[i] >= n || seen[p[i]] || v[i] != keep[p[i]] || i > 0 && v[i] < v[i-1] {
							return fmt.Errorf("%v sorts as %v with indexes %v", keep, v, p)
						}
						seen[p[i]] = true
					}
					return nil
				}
				p, v := utils.ArgSort(a)
				if err := chk(p, v); err != nil {
					return err
				}
				if !slices.Equal(a, keep) {
					return fmt.Errorf("sorting changed the values to %v", a)
				}
				ti, tv := make([]int, n), make([]float64, n)
				for i := range ti {
					ti[i], tv[i] = 77, -5
				}
				for rep := 0; rep < 2; rep++ {
					p, v := utils.MemArgSort(a, ti, tv)
					if err := chk(p, v); err != nil {
						return fmt.Errorf("in given memory: %v", err)
					}
					if !slices.Equal(a, keep) {
						return fmt.Errorf("sorting changed the values to %v", a)
					}
				}
				s := utils.NewSlice(slices.Clone(a))
				sort.Sort(s)
				if err := chk(s.Idx, s.Float64Slice); err != nil {
					return fmt.Errorf("Slice: %v", err)
				}
				c.state(1)
				c.transition(4)
				c.nontrivial(fmt.Sprint(ix))
				return nil
			})
		})
	}
	for n := 7; n <= 60; n += 7 {
		for s := 0; s < 6; s++ {
			c.run(func() string { return fmt.Sprintf("%d values, %d", n, s) }, func() error {
				st := &stream{uint64(s*100 + n)}
				a := make([]float64, n)
				for i := range a {
					a[i] = float64(st.IntN(3 + s*5))
				}
				keep := slices.Clone(a)
				p, v := utils.ArgSort(a)
				for i := range p {
					if keep[p[i]] != v[i] || i > 0 && v[i] < v[i-1] {
						return fmt.Errorf("%v sorts as %v with indexes %v", keep, v, p)
					}
				}
				q := slices.Clone(p)
				slices.Sort(q)
				for i := range q {
					if q[i] != i {
						return fmt.Errorf("indexes %v", p)
					}
				}
				return nil
			})
		}
	}
	c.family("sampling and transposing")
	elem := func(i, j int) float64 { return float64(10*i+j) + 0.5 }
	for r := 1; r <= 3; r++ {
		for k := 1; k <= 4; k++ {
			for nr := 0; nr <= r; nr++ {
				for nk := 0; nk <= k; nk++ {
					if nr+nk > 6 && c.quick {
						continue
					}
					tuples(nr, r, func(ri []int) {
						tuples(nk, k, func(ki []int) {
							ri, ki := slices.Clone(ri), slices.Clone(ki)
							c.run(func() string { return fmt.Sprintf("rows %v and columns %v of %d x %d", ri, ki, r, k) }, func() error {
								var m [][]float64
								for i := 0; i < r; i++ {
									row := make([]float64, k)
									for j := range row {
										row[j] = elem(i, j)
									}
									m = append(m, row)
								}
								keep := copyM(m)
								s := utils.SampleMatrix(m, ri, ki)
								if len(s) != nr {
									return fmt.Errorf("%v", s)
								}
								for a := range s {
									if len(s[a]) != nk {
										return fmt.Errorf("%v", s)
									}
									for b := range s[a] {
										if s[a][b] != elem(ri[a], ki[b]) {
											return fmt.Errorf("%v", s)
										}
									}
								}
								if nr > 0 {
									x := utils.SampleSlice(m[ri[0]], ki)
									if len(x) != nk {
										return fmt.Errorf("%v", x)
									}
									for b := range x {
										if x[b] != elem(ri[0], ki[b]) {
											return fmt.Errorf("%v", x)
										}
									}
								}
								for p := 0; p < nk; p++ {
									bad := slices.Clone(ki)
									bad[p] = k
									if !panics(func() { utils.SampleSlice(m[0], bad) }) {
										return fmt.Errorf("column %d of %d was sampled", k, k)
									}
								}
								t := utils.TransposeFloats(m)
								if len(t) != k {
									return fmt.Errorf("transposed: %v", t)
								}
								for j := range t {
									if len(t[j]) != r {
										return fmt.Errorf("transposed: %v", t)
									}
									for i := range t[j] {
										if t[j][i] != elem(i, j) {
											return fmt.Errorf("transposed: %v", t)
										}
									}
								}
								if !sameM(m, keep) {
									return fmt.Errorf("the matrix changed")
								}
								c.state(1)
								c.transition(3)
								return nil
							})
						})
					})
				}
			}
		}
	}
	c.family("columns")
	for r := 1; r <= 4; r++ {
		for k := 1; k <= 4; k++ {
			for col := 0; col <= k+1; col++ {
				c.run(func() string { return fmt.Sprintf("column %d of %d x %d", col, r, k) }, func() error {
					d := dense(r, k, elem)
					s := make([]float64, r)
					for i := range s {
						s[i] = float64(1000 * (i + 1))
					}
					keep := slices.Clone(s)
					if col >= k {
						if !panics(func() { utils.DenseCol(d, col) }) {
							return fmt.Errorf("column %d of %d was extracted", col, k)
						}
						if !panics(func() { utils.AddToCol(d, s, col) }) {
							return fmt.Errorf("column %d of %d was changed", col, k)
						}
						return sameDense(d, r, k, elem, 0)
					}
					x := utils.DenseCol(d, col)
					if err := sameDense(x, 1, r, func(_, j int) float64 { return elem(j, col) }, 0); err != nil {
						return err
					}
					if err := sameDense(d, r, k, elem, 0); err != nil {
						return err
					}
					for _, n := range []int{0, r - 1, r + 1} {
						if !panics(func() { utils.AddToCol(d, make([]float64, n), col) }) {
							return fmt.Errorf("%d values were added to a column of %d", n, r)
						}
					}
					utils.AddToCol(d, s, col)
					if !slices.Equal(s, keep) {
						return fmt.Errorf("the values added changed")
					}
					c.transition(5)
					c.state(1)
					return sameDense(d, r, k, func(i, j int) float64 {
						if j == col {
							return elem(i, j) + s[i]
						}
						return elem(i, j)
					}, 0)
				})
			}
		}
	}
	c.family("losses")
	pv := []float64{0, 0.25, 1, 0.6}
	losses := []utils.LossFunc{&utils.SQErrLoss{}, &utils.MSELoss{}}
	for _, dim := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}} {
		r, k := dim[0], dim[1]
		cells := r * k
		tuples(cells, 4, func(ix []int) {
			if cells > 4 && (ix[0]+2*ix[1]+ix[2]*3+ix[3]+ix[4]*2+ix[5])%4 != 0 {
				return
			}
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprintf("%d x %d, probabilities %v", r, k, ix) }, func() error {
				P := func(i, j int) float64 { return pv[ix[i*k+j]] }
				Y := func(i, j int) float64 { return float64((i*2 + j + ix[0]) % 2) }
				for li, l := range losses {
					for given := 0; given < 2; given++ {
						buf := func() *mat.Dense {
							if given == 0 {
								return nil
							}
							return dense(r, k, func(i, j int) float64 { return 13 + float64(i-j) })
						}
						y, p := dense(r, k, Y), dense(r, k, P)
						mse := 0.0
						for i := 0; i < r; i++ {
							for j := 0; j < k; j++ {
								mse += (Y(i, j) - P(i, j)) * (Y(i, j) - P(i, j)) / float64(cells)
							}
						}
						if v := l.Loss(y, p, buf()); !near(v, mse, 1e-12) {
							return fmt.Errorf("%s: loss %v, should be %v", l.Name(), v, mse)
						}
						b := buf()
						g := l.Gradients(y, p, b)
						if err := sameDense(g, r, k, func(i, j int) float64 { return P(i, j) - Y(i, j) }, 1e-15); err != nil {
							return fmt.Errorf("%s: gradients: %v", l.Name(), err)
						}
						if b != nil {
							if err := sameDense(b, r, k, func(i, j int) float64 { return P(i, j) - Y(i, j) }, 1e-15); err != nil {
								return fmt.Errorf("%s: given matrix not filled with gradients: %v", l.Name(), err)
							}
						}
						b = buf()
						g = l.NegGradients(y, p, b)
						if err := sameDense(g, r, k, func(i, j int) float64 { return Y(i, j) - P(i, j) }, 1e-15); err != nil {
							return fmt.Errorf("%s: negative gradients: %v", l.Name(), err)
						}
						if b != nil {
							if err := sameDense(b, r, k, func(i, j int) float64 { return Y(i, j) - P(i, j) }, 1e-15); err != nil {
								return fmt.Errorf("%s: given matrix not filled with negative gradients: %v", l.Name(), err)
							}
						}
						H := func(i, j int) float64 {
							if li == 0 {
								return 1
							}
							return P(i, j) * (1 - P(i, j))
						}
						b = buf()
						h := l.Hessian(p, b)
						if err := sameDense(h, r, k, H, 1e-15); err != nil {
							return fmt.Errorf("%s: hessian: %v", l.Name(), err)
						}
						if b != nil {
							if err := sameDense(b, r, k, H, 1e-15); err != nil {
								return fmt.Errorf("%s: given matrix not filled with the hessian: %v", l.Name(), err)
							}
						}
						if err := sameDense(y, r, k, Y, 0); err != nil {
							return fmt.Errorf("%s: the labels changed: %v", l.Name(), err)
						}
						if err := sameDense(p, r, k, P, 0); err != nil {
							return fmt.Errorf("%s: the probabilities changed: %v", l.Name(), err)
						}
						c.transition(4)
					}
				}
				c.state(1)
				c.nontrivial(fmt.Sprint(dim, ix))
				return nil
			})
		})
	}
	c.family("normalisation, log-odds, classes")
	nv := []float64{0.25, 1, 3, 0.1, 0}
	for _, dim := range [][2]int{{1, 1}, {1, 2}, {2, 2}, {1, 3}, {1, 4}, {3, 1}, {2, 3}} {
		r, k := dim[0], dim[1]
		cells := r * k
		use := len(nv)
		if cells > 4 {
			use = 3
		}
		tuples(cells, use, func(ix []int) {
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprintf("%d x %d, %v", r, k, ix) }, func() error {
				V := func(i, j int) float64 { return nv[ix[i*k+j]] }
				sums := make([]float64, r)
				zero := false
				for i := range sums {
					for j := 0; j < k; j++ {
						sums[i] += V(i, j)
					}
					zero = zero || sums[i] == 0
				}
				d := dense(r, k, V)
				if !zero {
					N := func(i, j int) float64 { return V(i, j) / sums[i] }
					for _, b := range []*mat.Dense{nil, dense(r, k, func(i, j int) float64 { return 99 })} {
						n := utils.NormalizationDense(d, b)
						if err := sameDense(n, r, k, N, 1e-13); err != nil {
							return fmt.Errorf("normalisation: %v", err)
						}
						if b != nil {
							if err := sameDense(b, r, k, N, 1e-13); err != nil {
								return fmt.Errorf("normalisation into a matrix: %v", err)
							}
						}
					}
					for i := 0; i < r; i++ {
						row := slices.Clone(d.RawRowView(i))
						for _, b := range [][]float64{nil, slices.Repeat([]float64{7}, k)} {
							x := utils.Normalization(row, b)
							for j := 0; j < k; j++ {
								if len(x) != k || !near(x[j], N(i, j), 1e-13) || b != nil && !near(b[j], N(i, j), 1e-13) || row[j] != V(i, j) {
									return fmt.Errorf("normalisation of %v: %v", row, x)
								}
							}
						}
					}
					ok := true
					for i := range ix {
						ok = ok && nv[ix[i]] > 0
					}
					if ok && k > 1 {
						l := boo.LogOddsFromProbs(d)
						if err := sameDense(l, r, k, func(i, j int) float64 { return math.Log(V(i, j) / (sums[i] - V(i, j))) }, 1e-9); err != nil {
							return fmt.Errorf("log-odds: %v", err)
						}
					}
				}
				cl := boo.ClassesFromProbs(d)
				a, b := cl.Dims()
				if a != r || b != 1 {
					return fmt.Errorf("classes: %d x %d", a, b)
				}
				for i := 0; i < r; i++ {
					x := int(cl.At(i, 0))
					if x < 0 || x >= k || float64(x) != cl.At(i, 0) {
						return fmt.Errorf("class %v", cl.At(i, 0))
					}
					for j := 0; j < k; j++ {
						if V(i, j) > V(i, x) {
							return fmt.Errorf("row %d: class %d of %v", i, x, d.RawRowView(i))
						}
					}
				}
				if err := sameDense(d, r, k, V, 0); err != nil {
					return fmt.Errorf("the input changed: %v", err)
				}
				c.state(1)
				c.transition(4)
				return nil
			})
		})
	}
	largeHelpers(c)
	c.family("negative scores")
	tuples(3, 5, func(ix []int) {
		ix = slices.Clone(ix)
		c.run(func() string { return fmt.Sprint(ix) }, func() error {
			v := []float64{-3, -1, -0.5, -1e-9, 0.2}
			d := dense(1, 3, func(_, j int) float64 { return v[ix[j]] })
			x := int(boo.ClassesFromProbs(d).At(0, 0))
			if x < 0 || x > 2 {
				return fmt.Errorf("class %d", x)
			}
			for j := range ix {
				if v[ix[j]] > v[ix[x]] {
					return fmt.Errorf("class %d of %v", x, d.RawRowView(0))
				}
			}
			return nil
		})
	})
}

func init() {
	checks["C18"] = checkC18
	checks["C19"] = checkC19
	checks["C20"] = checkC20
	checks["C21"] = checkC21
}

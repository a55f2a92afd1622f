package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"gonum.org/v1/gonum/mat"
)

// draw is one result of the sub-sampling function.
type draw struct {
	tot int
	ret []int
}

// trainCase is one training run.
type trainCase struct {
	name  string
	D     *utils.DataBunch
	O     *boo.Options
	rnd   vrand.Answers
	draws []draw
	// scripted losses (nil: those of the loss function)
	lossOf func(class int, y, p []float64) float64
}

func (t *trainCase) String() string {
	o := *t.O
	l := "nil"
	if o.Loss != nil {
		l = o.Loss.Name()
	}
	o.Loss = nil
	if len(t.D.Data) > 16 {
		return fmt.Sprintf("%s n=%d labels=%v loss=%s opts=%+v", t.name, len(t.D.Data), t.D.Labels, l, o)
	}
	return fmt.Sprintf("%s X=%v labels=%v loss=%s opts=%+v", t.name, t.D.Data, t.D.Labels, l, o)
}

// train runs the training with the case's environment answers.
func (t *trainCase) train() *boo.MultiClass {
	t.draws = nil
	vrand.Provider = t.rnd
	boo.VerifSubSample = func(tot int, frac float64, ret []int) {
		t.draws = append(t.draws, draw{tot, slices.Clone(ret)})
	}
	defer func() { vrand.Provider = nil; boo.VerifSubSample = nil }()
	return boo.NewMultiClass(t.D, t.O)
}

// attempt is a round as drawn.
type attempt struct{ rows, cols []int } // nil: all

// attempts gives the rounds' draws. ok is false if they cannot be told from what was observed.
func (t *trainCase) attempts() (as []attempt, ok bool, err error) {
	n, f := len(t.D.Data), len(t.D.Data[0])
	O := t.O
	as = make([]attempt, O.Rounds)
	subR := O.XGB && O.SubSample < 1
	subC := O.XGB && O.ColSubSample < 1
	var rows, cols [][]int
	for _, d := range t.draws {
		switch {
		case d.tot == n && subR:
			rows = append(rows, d.ret)
		case d.tot == f && subC:
			cols = append(cols, d.ret)
		case d.tot != n && d.tot != f:
			return nil, false, fmt.Errorf("a draw from %d elements, there are %d rows and %d columns", d.tot, n, f)
		}
	}
	if (subR || subC) && len(t.draws) == 0 {
		return nil, false, nil
	}
	if subR {
		if len(rows) != O.Rounds {
			return nil, false, nil
		}
		for i := range as {
			as[i].rows = rows[i]
			if as[i].rows == nil {
				as[i].rows = []int{}
			}
		}
	}
	if subC {
		if len(cols) == O.Rounds {
			for i := range as {
				as[i].cols = cols[i]
			}
		} else {
			k := 0
			for i := range as {
				if t.skipped(as[i]) {
					continue
				}
				if k >= len(cols) {
					return nil, false, nil
				}
				as[i].cols = cols[k]
				k++
			}
			if k != len(cols) {
				return nil, false, nil
			}
		}
	}
	return as, true, nil
}

func (t *trainCase) skipped(a attempt) bool {
	n := len(t.D.Data)
	if a.rows != nil {
		n = len(a.rows)
	}
	return n == 0 || n < t.O.MinSample
}

// aspects of a training run
const (
	tFit    = 1 << iota // trees are fitted to the right errors (C04)
	tStop               // early stopping (C07)
	tSample             // sub-sampling (C23)
	tGain               // recorded gains (C19)
)

// es is the early-stopping state of a class: the possible numbers of rounds without progress, and
// whether it may be or may not be stopped (both when the loss is numerically undecided).
type es struct {
	counts  map[int]bool
	stopped bool
	prev    float64
	trained int
}

type replayer struct {
	t       *trainCase
	m       *model
	aspects int
	raw     [][]float64
	labels  []int
	st      []es
	nodes   int
	splits  int
	vague   int
	stops   int
	skips   int
}

// check replays the training along the trees of the model.
func (r *replayer) check() error {
	t := r.t
	O := t.O
	r.labels = distinct(t.D.Labels)
	n := len(t.D.Data)
	K := len(r.labels)
	if !slices.Equal(r.m.meta.ClassLabels, r.labels) {
		return fmt.Errorf("class labels %v, should be %v", r.m.meta.ClassLabels, r.labels)
	}
	if r.m.meta.LearningRate != O.LearningRate || r.m.meta.BaseScore != O.BaseScore {
		return fmt.Errorf("learning rate %v and base score %v, should be %v and %v", r.m.meta.LearningRate, r.m.meta.BaseScore, O.LearningRate, O.BaseScore)
	}
	r.raw = make([][]float64, n)
	for i := range r.raw {
		r.raw[i] = make([]float64, K)
		for k := range r.raw[i] {
			r.raw[i][k] = O.BaseScore
		}
	}
	r.st = make([]es, K)
	for k := range r.st {
		r.st[k].counts = map[int]bool{0: true}
	}
	as, known, err := t.attempts()
	if err != nil {
		return err
	}
	if !known {
		return r.checkUnknown()
	}
	ri := 0
	for i, a := range as {
		if t.skipped(a) {
			r.skips++
			continue
		}
		if ri >= len(r.m.rounds) {
			for k := range r.st {
				if O.EarlyStop > 0 && (r.st[k].stopped || len(r.st[k].counts) == 0) {
					continue
				}
				return fmt.Errorf("the model has %d rounds; round %d (%v) is missing", len(r.m.rounds), i, a)
			}
			continue
		}
		if err := r.round(ri, a); err != nil {
			return fmt.Errorf("round %d (drawn rows %v, columns %v): %v", i, a.rows, a.cols, err)
		}
		ri++
	}
	if ri != len(r.m.rounds) {
		return fmt.Errorf("the model has %d rounds of trees, there should be %d", len(r.m.rounds), ri)
	}
	return nil
}

// checkUnknown is used when the draws were not observed: some draw must explain each round.
func (r *replayer) checkUnknown() error {
	n, f := len(r.t.D.Data), len(r.t.D.Data[0])
	if n > 6 || f > 4 || r.t.O.EarlyStop > 0 {
		return nil
	}
	for ri := range r.m.rounds {
		var last error
		ok := false
	search:
		for rm := 1<<n - 1; rm > 0; rm-- {
			for cm := 1<<f - 1; cm > 0; cm-- {
				a := attempt{}
				for i := 0; i < n; i++ {
					if rm>>i&1 == 1 {
						a.rows = append(a.rows, i)
					}
				}
				for i := 0; i < f; i++ {
					if cm>>i&1 == 1 {
						a.cols = append(a.cols, i)
					}
				}
				if r.t.skipped(a) {
					continue
				}
				save := copyM(r.raw)
				if last = r.round(ri, a); last == nil {
					ok = true
					break search
				}
				r.raw = save
			}
		}
		if !ok {
			return fmt.Errorf("no draw explains round %d: %v", ri, last)
		}
	}
	return nil
}

func (r *replayer) round(ri int, a attempt) error {
	t := r.t
	O := t.O
	n := len(t.D.Data)
	if len(r.m.rounds[ri]) != len(r.labels) {
		return fmt.Errorf("%d trees for %d classes", len(r.m.rounds[ri]), len(r.labels))
	}
	for k, tree := range r.m.rounds[ri] {
		s := &r.st[k]
		if tree.ns == 0 { // the place of a stopped class
			if O.EarlyStop <= 0 {
				return fmt.Errorf("class %d has no tree although there is no early stopping", k)
			}
			if r.aspects&tStop != 0 && !s.stopped {
				return fmt.Errorf("class %d got no tree although it has no reason to stop (losses without progress: %v, last loss %v, trained %d rounds)", k, keys(s.counts), s.prev, s.trained)
			}
			if !tree.leaf || tree.val != 0 {
				return fmt.Errorf("the place of class %d, which stopped, is taken by %v", k, tree)
			}
			s.counts = nil
			s.stopped = true
			r.stops++
			continue
		}
		if s.counts != nil && len(s.counts) == 0 || s.counts == nil {
			return fmt.Errorf("class %d got the tree %v although it had stopped (last loss %v after %d rounds)", k, tree, s.prev, s.trained)
		}
		s.stopped = false
		y, p := make([]float64, n), make([]float64, n)
		hmin := 1.0
		g := &grow{X: t.D.Data, xgb: O.XGB, lambda: O.Lambda, gamma: O.Gamma, mcw: math.Max(1, O.MinChildWeight), depth: O.MaxDepth, cols: a.cols, rows: a.rows}
		g.h = make([]float64, n)
		gr := make([]float64, n)
		for i := range y {
			p[i] = softmax(r.raw[i])[k]
			if t.D.Labels[i] == r.labels[k] {
				y[i] = 1
			}
			g.h[i] = 1
			if O.Loss.Name() == "mse" {
				g.h[i] = p[i] * (1 - p[i])
				hmin = math.Min(hmin, math.Min(p[i], 1-p[i]))
			}
			if O.XGB {
				gr[i] = p[i] - y[i]
			} else {
				gr[i] = y[i] - p[i]
			}
		}
		g.eps = 1e-9
		if hmin < 1e-4 {
			g.eps = 1e-13 / hmin
		}
		g.aspects = aSplit | aLimit | aValue
		if r.aspects&(tFit|tStop) == 0 {
			g.aspects = aSplit | aLimit
		}
		if r.aspects == tGain {
			g.aspects = aGain
		}
		if O.XGB {
			g.g, g.vrule = gr, vXGB
		} else {
			g.y, g.vrule = gr, vNewton
		}
		if g.eps > 1e-3 { // saturated: second derivatives are rounding noise
			g.aspects &^= aSplit | aValue | aGain
			r.vague++
		}
		if err := g.check(tree); err != nil {
			return fmt.Errorf("class %d: %v", k, err)
		}
		r.nodes += g.nodes
		r.splits += g.splits
		r.vague += g.vague
		unchanged := true
		for i := range r.raw {
			d := tree.leafFor(t.D.Data[i]).val * O.LearningRate
			if r.raw[i][k]+d != r.raw[i][k] {
				unchanged = false
			}
			r.raw[i][k] += d
			if math.IsNaN(r.raw[i][k]) || math.IsInf(r.raw[i][k], 0) {
				return fmt.Errorf("class %d: the raw score of row %d is %v", k, i, r.raw[i][k])
			}
		}
		if O.EarlyStop > 0 {
			r.progress(k, y, unchanged)
		}
	}
	return nil
}

// progress updates the possible early-stopping states of a class after a round.
func (r *replayer) progress(k int, y []float64, unchanged bool) {
	s := &r.st[k]
	n := len(y)
	p := make([]float64, n)
	for i := range p {
		p[i] = softmax(r.raw[i])[k]
	}
	exact := false
	var loss float64
	if r.t.lossOf != nil {
		loss = r.t.lossOf(k, y, p)
		exact = true
	} else {
		for i := range p {
			loss += (y[i] - p[i]) * (y[i] - p[i])
		}
		loss /= float64(n)
	}
	tol := 1e-13*loss + 1e-18
	if exact {
		tol = 0
	}
	mayStop, mayGo := false, false
	if loss <= 1e-6+tol {
		mayStop = true
	}
	next := map[int]bool{}
	if loss > 1e-6-tol || !exact && loss > 1e-6-1e-13 {
		if s.trained == 0 {
			next[0] = true
			mayGo = true
		} else {
			for c := range s.counts {
				if s.prev <= loss+tol { // may count as no progress
					if c+1 >= r.t.O.EarlyStop {
						mayStop = true
					} else {
						next[c+1] = true
						mayGo = true
					}
				}
				if s.prev > loss-tol && !(exact && s.prev <= loss) {
					next[0] = true
					mayGo = true
				}
			}
		}
	}
	_ = unchanged
	s.trained++
	s.prev = loss
	s.counts = next
	s.stopped = mayStop
	if !mayGo {
		s.counts = map[int]bool{}
	}
}

func keys(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	slices.Sort(r)
	return r
}

// ---- scripted losses ----

// scripted is a loss whose values (not its derivatives) are those of a script, per class and round.
type scripted struct {
	utils.MSELoss
	labels []int // distinct labels
	D      *utils.DataBunch
	script [][]float64
	count  []int
	lastP  [][]float64
	lastL  []float64
	memo   []map[string]float64
}

func newScripted(D *utils.DataBunch, script [][]float64) *scripted {
	l := distinct(D.Labels)
	s := &scripted{labels: l, D: D, script: script, count: make([]int, len(l)), lastP: make([][]float64, len(l)), lastL: make([]float64, len(l))}
	return s
}

func (s *scripted) Loss(y, pred, tmp *mat.Dense) float64 {
	k := s.class(y.RawRowView(0))
	return s.value(k, pred.RawRowView(0))
}

func (s *scripted) class(y []float64) int {
	for k, l := range s.labels {
		ok := true
		for i, v := range y {
			if (v == 1) != (s.D.Labels[i] == l) {
				ok = false
			}
		}
		if ok {
			return k
		}
	}
	panic("harness: a loss was computed for labels of no class")
}

func (s *scripted) value(k int, p []float64) float64 {
	if s.lastP[k] != nil && eqBits(s.lastP[k], p) {
		return s.lastL[k]
	}
	i := min(s.count[k], len(s.script[k])-1)
	s.count[k]++
	s.lastP[k] = slices.Clone(p)
	s.lastL[k] = s.script[k][i]
	return s.lastL[k]
}

// ---- the space ----

func bunch(X [][]float64, labels []int) *utils.DataBunch {
	return &utils.DataBunch{Data: X, Labels: labels}
}

func xopts(loss int) *boo.Options {
	o := boo.DefaultXOptions()
	o.SubSample, o.ColSubSample, o.MinSample, o.EarlyStop = 1, 1, 1, 0
	setLoss(o, loss)
	return o
}
func gopts(loss int) *boo.Options {
	o := boo.DefaultGOptions()
	o.SubSample, o.ColSubSample, o.MinSample = 1, 1, 1
	setLoss(o, loss)
	return o
}
func setLoss(o *boo.Options, l int) {
	if l == 0 {
		o.Loss = &utils.SQErrLoss{}
	} else {
		o.Loss = &utils.MSELoss{}
	}
}

type hyper struct {
	rounds, depth            int
	mcw, lr, lam, gamma, bas float64
}

var hypers = []hyper{
	{1, 2, 1, 0.3, 1, 0, 0.5},
	{2, 2, 1, 1, 0, 0, 0},
	{3, 3, 1, 0.3, 0.5, 0.1, 0.5},
	{3, 2, 2, 0.5, 1.5, 0.25, -1},
	{4, 4, 0.5, 1.7, 1, 0, 2},
	{2, 1, 2.9, 0.1, 0, 0.5, 0.5},
}

func (h hyper) set(o *boo.Options) *boo.Options {
	o.Rounds, o.MaxDepth, o.MinChildWeight, o.LearningRate, o.Lambda, o.Gamma, o.BaseScore = h.rounds, h.depth, h.mcw, h.lr, h.lam, h.gamma, h.bas
	return o
}

func mkopts(xgb bool, loss int) *boo.Options {
	if xgb {
		return xopts(loss)
	}
	return gopts(loss)
}

var labelNames = []int{5, 0, -3, 12, 2, 7}

func init() {
	for i := 0; i < 300; i++ {
		labelNames = append(labelNames, 20+(i*37)%301)
	}
}

// labelings calls f with every assignment of at most k labels to n rows, up to renaming, plus one with
// labels in another order of appearance.
func labelings(n, k int, f func([]int)) {
	var rec func(i, used int, l []int)
	rec = func(i, used int, l []int) {
		if i == n {
			f(slices.Clone(l))
			return
		}
		for v := 0; v <= used && v < k; v++ {
			u := used
			if v == used {
				u++
			}
			rec(i+1, u, append(l, labelNames[v]))
		}
	}
	rec(0, 0, nil)
}

func enumTrain(c *ctx, f func(*trainCase)) {
	N := len(colPats)
	c.family("small exhaustive labelings")
	ns := []int{1, 2, 3, 4}
	if c.thorough() {
		ns = append(ns, 5, 6)
	}
	for _, n := range ns {
		labelings(n, 4, func(l []int) {
			for p := 0; p < N; p++ {
				for _, dq := range []int{1, 5, 9} {
					X := transpose(col(p, n), col((p+dq)%N, n))
					for hi, h := range hypers {
						for mode := 0; mode < 4; mode++ {
							o := h.set(mkopts(mode&1 == 0, mode>>1))
							o.EarlyStop = []int{0, 2, 0}[(p+hi)%3]
							f(&trainCase{name: fmt.Sprintf("%s,%s", colPats[p].name, colPats[(p+dq)%N].name), D: bunch(X, l), O: o})
						}
					}
				}
			}
		})
	}
	c.family("patterns")
	sizes := []int{7, 13, 22}
	if c.thorough() {
		sizes = append(sizes, 40, 75)
	}
	for _, n := range sizes {
		for nc := 1; nc <= 6; nc++ {
			for lp := 0; lp < 4; lp++ {
				l := make([]int, n)
				for i := range l {
					switch lp {
					case 0:
						l[i] = labelNames[i%nc]
					case 1:
						l[i] = labelNames[i*nc/n]
					case 2:
						l[i] = labelNames[(i*i+i/3)%nc]
					case 3: // rare classes
						l[i] = labelNames[0]
						if i%3 == 2 && i/3+1 < nc {
							l[i] = labelNames[i/3+1]
						}
					}
				}
				for p := 0; p < N; p++ {
					X := transpose(col(p, n), col((p+4)%N, n), col((p+11)%N, n))
					for mode := 0; mode < 4; mode++ {
						for _, rounds := range []int{3, 8} {
							h := hypers[(p+mode+rounds)%len(hypers)]
							o := h.set(mkopts(mode&1 == 0, mode>>1))
							o.Rounds = rounds
							o.EarlyStop = []int{0, 1, 3}[(p+lp)%3]
							f(&trainCase{name: fmt.Sprintf("%s+2 labels%d/%d", colPats[p].name, lp, nc), D: bunch(X, l), O: o})
						}
					}
				}
			}
		}
	}
}

// enumLong: many classes, many rounds, many rows, deep trees.
func enumLong(c *ctx, f func(*trainCase)) {
	N := len(colPats)
	pats := []int{0, 6, 11, 12, 13, 15}
	add := func(name string, X [][]float64, l []int, mode int, set func(o *boo.Options)) {
		o := hypers[2].set(mkopts(mode&1 == 0, mode>>1))
		o.Gamma = 0
		set(o)
		f(&trainCase{name: name, D: bunch(X, l), O: o})
	}
	c.family("many classes")
	for _, nc := range []int{7, 8, 9, 10, 11, 12, 16, 17, 20, 26, 33, 50, 65, 101} {
		for pi, p := range pats {
			if nc > 26 && pi%3 != nc%3 {
				continue
			}
			n := 2*nc + pi
			l := make([]int, n)
			for i := range l {
				l[i] = labelNames[(i*(1+pi%2*2)+i/nc)%nc]
			}
			for mode := 0; mode < 4; mode++ {
				add(fmt.Sprintf("%d classes", nc), transpose(col(p, n), col((p+6)%N, n)), l, mode, func(o *boo.Options) {
					o.Rounds, o.LearningRate, o.MaxDepth, o.EarlyStop = 3, 0.7, 3, pi%2*3
				})
			}
		}
	}
	c.family("many rounds")
	for _, rounds := range []int{11, 21, 33, 51, 65, 101, 130, 257} {
		for pi, p := range pats {
			for nc := 2; nc <= 3; nc++ {
				n := 8 + pi
				l := make([]int, n)
				for i := range l {
					l[i] = labelNames[(i*i/2+i/3)%nc]
				}
				for mode := 0; mode < 4; mode++ {
					add(fmt.Sprintf("%d rounds", rounds), transpose(col(p, n), col(4, n)), l, mode, func(o *boo.Options) {
						o.Rounds, o.LearningRate, o.MaxDepth, o.EarlyStop = rounds, []float64{0.02, 0.1}[pi%2], 2, 0
						if pi == 3 {
							o.EarlyStop = 10
						}
					})
				}
			}
		}
	}
	c.family("many rows")
	for _, n := range []int{65, 101, 130, 257, 515, 1030} {
		for pi, p := range pats {
			for mode := 0; mode < 4; mode++ {
				l := make([]int, n)
				for i := range l {
					l[i] = labelNames[(i*7/3+pi)%3]
				}
				add(fmt.Sprintf("%d rows", n), transpose(col(p, n), col(6, n), col(12, n)), l, mode, func(o *boo.Options) {
					o.Rounds, o.LearningRate, o.MaxDepth, o.MinChildWeight, o.EarlyStop = 2, 0.5, 3, float64(1+pi*3), 0
				})
			}
		}
	}
	c.family("deep trees")
	for _, n := range []int{20, 48} {
		for _, depth := range []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 30, 33, 47, 60} {
			for lp := 0; lp < 3; lp++ {
				for mode := 0; mode < 4; mode++ {
					l := make([]int, n)
					for i := range l {
						l[i] = labelNames[[]int{i % 2, (i + 1) / 2 % 2, i * i / 3 % 3}[lp]]
					}
					add(fmt.Sprintf("depth %d", depth), transpose(col(0, n)), l, mode, func(o *boo.Options) {
						o.Rounds, o.LearningRate, o.MaxDepth, o.Lambda, o.EarlyStop = 2, 0.2, depth, 0, 0
					})
				}
			}
		}
	}
	c.family("many columns")
	for _, nf := range []int{9, 17, 33, 65, 129} {
		for pi, p := range pats {
			for mode := 0; mode < 4; mode++ {
				n := 14
				l := make([]int, n)
				for i := range l {
					l[i] = labelNames[(i*7/3+pi)%3]
				}
				var cs [][]float64
				for k := 0; k < nf; k++ {
					cs = append(cs, col(2, n))
				}
				cs[nf-1], cs[nf/2] = col(p, n), col(4, n)
				add(fmt.Sprintf("%d columns", nf), transpose(cs...), l, mode, func(o *boo.Options) {
					o.Rounds, o.MaxDepth, o.EarlyStop = 3, 3, 0
				})
			}
		}
	}
}

// replay trains and checks.
func replayCase(c *ctx, t *trainCase, aspects int) error {
	m := t.train()
	mo, err := observeModel(m)
	if err != nil {
		return err
	}
	r := &replayer{t: t, m: mo, aspects: aspects}
	if sc, ok := t.O.Loss.(*scripted); ok {
		again := newScripted(t.D, sc.script)
		t.lossOf = func(k int, y, p []float64) float64 { return again.next(k) }
	}
	err = r.check()
	c.state(r.nodes)
	c.transition(len(mo.rounds))
	c.trace()
	if r.vague > 0 {
		c.outcome("vague")
	}
	if r.splits > 0 || r.stops > 0 || r.skips > 0 {
		c.nontrivial(fmt.Sprint(c.idx))
	}
	c.outcome(fmt.Sprint(hash(mo.text)))
	if err != nil {
		return err
	}
	for k := range r.labels {
		cnt := 0
		for _, ts := range mo.rounds {
			if ts[k].ns > 0 {
				cnt++
			}
		}
		if m.Rounds(k) != cnt {
			return fmt.Errorf("class %d has %d trees, Rounds says %d", k, cnt, m.Rounds(k))
		}
	}
	return nil
}

// next gives the script's next value without looking at predictions.
func (s *scripted) next(k int) float64 {
	i := min(s.count[k], len(s.script[k])-1)
	s.count[k]++
	return s.script[k][i]
}

func checkC04(c *ctx) {
	enumTrain(c, func(t *trainCase) {
		c.run(t.String, func() error { return replayCase(c, t, tFit) })
	})
	enumLong(c, func(t *trainCase) {
		c.run(t.String, func() error { return replayCase(c, t, tFit) })
	})
	subsampled(c, tFit)
}

func checkC07(c *ctx) {
	// scripted losses: every sequence of loss values of one class
	c.family("scripted losses")
	vals := []float64{0.5, 0.25, 0.75, 1e-6, math.Nextafter(1e-6, 1)}
	length := 5
	if c.thorough() {
		length = 6
	}
	others := [][]float64{
		{0.9, 0.8, 0.7, 0.6, 0.55, 0.5, 0.45},
		{0.5},
		{1e-7},
		{0.5, 0.5, 0.25, 0.25, 0.25, 0.25},
	}
	for _, K := range []int{2, 3} {
		n := 6
		l := make([]int, n)
		for i := range l {
			l[i] = labelNames[(i*i+i)/2%K]
		}
		X := transpose(col(6, n), col(4, n))
		for pos := 0; pos < K; pos++ {
			tuples(length, len(vals), func(a []int) {
				if c.quick && K == 3 && pos == 1 && a[length-1] > 1 {
					return
				}
				sc := make([]float64, length)
				for i := range a {
					sc[i] = vals[a[i]]
				}
				for N := 1; N <= 3; N++ {
					for oi := range others {
						if c.quick && (a[0]+a[1]+a[2]+oi+N)%2 == 0 && K == 3 {
							continue
						}
						t := &trainCase{name: "scripted", D: bunch(X, l)}
						h := hypers[2]
						o := h.set(mkopts((oi+N)%2 == 0, 1))
						o.Rounds = length
						o.EarlyStop = N
						o.LearningRate = 0.1
						scripts := make([][]float64, K)
						for k := range scripts {
							scripts[k] = others[(oi+k)%len(others)]
						}
						scripts[pos] = sc
						o.Loss = newScripted(t.D, scripts)
						t.O = o
						c.run(func() string { return fmt.Sprintf("losses per class %v, EarlyStop %d; %v", scripts, N, t) }, func() error {
							return replayCase(c, t, tStop)
						})
					}
				}
			})
		}
	}
	// every sequence of improvements, stalls and worsenings over more rounds
	c.family("scripted losses, many rounds")
	long := 9
	if c.thorough() {
		long = 11
	}
	for K := 2; K <= 2; K++ {
		n := 4
		l := make([]int, n)
		for i := range l {
			l[i] = labelNames[i%K]
		}
		X := transpose(col(6, n))
		tuples(long-1, 3, func(a []int) {
			if c.quick && a[0] == 2 {
				return
			}
			sc := []float64{16}
			for _, m := range a {
				sc = append(sc, sc[len(sc)-1]+float64(m-1))
			}
			for N := 1; N <= 5; N++ {
				t := &trainCase{name: "scripted", D: bunch(X, l)}
				o := hypers[2].set(mkopts((a[0]+a[1]+N)%2 == 0, 1))
				o.Rounds, o.EarlyStop, o.LearningRate, o.MaxDepth = long, N, 0.1, 1
				scripts := [][]float64{sc, others[0]}[:K]
				if (a[2]+N)%2 == 0 && K == 2 {
					scripts = [][]float64{others[0], sc}
				}
				o.Loss = newScripted(t.D, scripts)
				t.O = o
				c.run(func() string { return fmt.Sprintf("losses per class %v, EarlyStop %d; %v", scripts, N, t) }, func() error {
					return replayCase(c, t, tStop)
				})
			}
		})
	}
	// large limits: runs of q rounds without progress before and after one round with progress
	c.family("scripted losses, large limits")
	for _, N := range []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 30, 32, 33, 50} {
		for _, K := range []int{2, 4} {
			n := 4
			l := make([]int, n)
			for i := range l {
				l[i] = labelNames[i%K]
			}
			X := transpose(col(6, n))
			for d := -2; d <= 1; d++ {
				for d2 := -2; d2 <= 1; d2++ {
					for _, up := range []float64{0, 1e-12, 1} {
						for pos := 0; pos < K; pos++ {
							sc := []float64{64}
							add := func(k int, by float64) {
								for i := 0; i < k; i++ {
									sc = append(sc, sc[len(sc)-1]+by)
								}
							}
							add(N+d, up)
							add(1, -1)
							add(N+d2, up)
							add(2, -0.5)
							add(N+1, up)
							slow := []float64{64}
							for i := 0; i < 4*N+20; i++ {
								slow = append(slow, slow[i]*0.99)
							}
							scripts := make([][]float64, K)
							for k := range scripts {
								scripts[k] = slow
							}
							scripts[pos] = sc
							t := &trainCase{name: "scripted", D: bunch(X, l)}
							o := hypers[2].set(mkopts((d+d2+N+pos)%2 == 0, 1))
							o.Rounds, o.EarlyStop, o.LearningRate, o.MaxDepth = 3*N+6, N, 0.01, 1
							o.Loss = newScripted(t.D, scripts)
							t.O = o
							c.run(func() string { return fmt.Sprintf("class %d: losses %v, EarlyStop %d; %v", pos, sc, N, t) }, func() error {
								return replayCase(c, t, tStop)
							})
						}
					}
				}
			}
		}
	}
	// many classes, each with its own script
	c.family("scripted losses, many classes")
	for _, K := range []int{5, 8, 9, 12, 17, 33} {
		n := 2 * K
		l := make([]int, n)
		for i := range l {
			l[i] = labelNames[i%K]
		}
		X := transpose(col(6, n))
		for N := 1; N <= 3; N++ {
			for rot := 0; rot < 12; rot++ {
				for xgb := 0; xgb < 2; xgb++ {
					scripts := make([][]float64, K)
					for k := range scripts {
						sc := []float64{32}
						for i := 0; i < 8; i++ {
							sc = append(sc, sc[i]+float64(((k+1)*(i+2)+rot*(k%5+1)+i*i/2)%3-1))
						}
						if (k+rot)%5 == 0 {
							sc[2+(k+rot)%4] = 1e-7
						}
						scripts[k] = sc
					}
					t := &trainCase{name: fmt.Sprintf("%d classes rot %d", K, rot), D: bunch(X, l)}
					o := hypers[2].set(mkopts(xgb == 0, 1))
					o.Rounds, o.EarlyStop, o.LearningRate, o.MaxDepth = 9, N, 0.01, 1
					o.Loss = newScripted(t.D, scripts)
					t.O = o
					c.run(t.String, func() error { return replayCase(c, t, tStop) })
				}
			}
		}
	}
	// scripted losses with rounds that are skipped
	c.family("scripted losses, skipped rounds")
	{
		n := 5
		l := []int{5, 0, 5, 0, 0}
		X := transpose(col(6, n), col(4, n))
		for mask := 0; mask < 1<<6; mask++ {
			for si, sc := range [][]float64{{0.5}, {0.5, 0.5, 0.25, 0.25, 0.25}, {0.5, 0.25, 0.5, 0.25}, {0.1, 0.2, 0.1, 0.3, 0.3, 0.3}} {
				for N := 1; N <= 3; N++ {
					t := &trainCase{name: fmt.Sprintf("skip mask %06b", mask), D: bunch(X, l)}
					o := hypers[2].set(xopts(1))
					o.Rounds, o.EarlyStop, o.LearningRate, o.SubSample = 6, N, 0.1, 0.5
					o.Loss = newScripted(t.D, [][]float64{sc, others[0]})
					t.O = o
					k := 0
					t.rnd = &answers{f: func() float64 {
						round := k / n
						k++
						if mask>>(round%6)&1 == 1 {
							return almostOne
						}
						return 0
					}}
					_ = si
					c.run(t.String, func() error { return replayCase(c, t, tStop) })
				}
			}
		}
	}
	c.family("real losses")
	enumLong(c, func(t *trainCase) {
		if len(t.D.Data) > 120 {
			return
		}
		for _, N := range []int{0, 1, 10} {
			u := *t
			o := *t.O
			o.EarlyStop = N
			o.LearningRate *= 3
			u.O = &o
			c.run(u.String, func() error { return replayCase(c, &u, tStop) })
		}
	})
	enumTrain(c, func(t *trainCase) {
		for _, N := range []int{0, 1, 2} {
			if N == 0 && c.quick && t.O.Rounds < 3 {
				continue
			}
			u := *t
			o := *t.O
			o.EarlyStop = N
			o.Rounds += 5
			o.LearningRate *= 2
			u.O = &o
			c.run(u.String, func() error { return replayCase(c, &u, tStop) })
		}
	})
}

// subsampled enumerates every draw of rows and columns of two rounds (one deviation-free default).
func subsampled(c *ctx, aspects int) {
	c.family("all draws")
	type sz struct{ n, f int }
	szs := []sz{{3, 1}, {3, 2}, {4, 2}, {2, 3}}
	if c.thorough() {
		szs = append(szs, sz{4, 3}, sz{5, 2})
	}
	N := len(colPats)
	for _, s := range szs {
		for _, fr := range []struct{ r, c float64 }{{0.5, 1}, {1, 0.5}, {0.5, 0.5}, {0.999, 0.01}} {
			for _, ms := range []int{1, 2, 3} {
				for p := 0; p < 3; p++ {
					var cs [][]float64
					for k := 0; k < s.f; k++ {
						cs = append(cs, col([]int{6, 1, 4, 0, 5, 3, 10}[(p+k*2)%7]%N, s.n))
					}
					X := transpose(cs...)
					l := make([]int, s.n)
					for i := range l {
						l[i] = labelNames[(i+p/2)%2]
					}
					maxDev := -1
					if c.quick && s.n*2+s.f*2 > 10 {
						maxDev = 5
					}
					mk := func() *trainCase {
						o := hypers[2].set(xopts(p % 2))
						o.Rounds = 2
						o.Gamma = 0
						o.SubSample, o.ColSubSample, o.MinSample = fr.r, fr.c, ms
						return &trainCase{name: fmt.Sprintf("draws %v", fr), D: bunch(X, l), O: o}
					}
					enumerate(maxDev, 0, func(h *chooser) {
						t := mk()
						seq := make([]int, need(t))
						for i := range seq {
							seq[i] = h.choose(2)
						}
						k := 0
						t.rnd = &answers{f: func() float64 {
							k++
							if k > len(seq) || seq[k-1] == 0 {
								return 0
							}
							return almostOne
						}, in: func(n int) int {
							k++
							if k > len(seq) {
								return 0
							}
							return seq[k-1] * (n - 1)
						}}
						c.run(func() string { return fmt.Sprintf("draw answers %v (0: drawn); %v", seq, t) }, func() error {
							return replayCase(c, t, aspects)
						})
					})
				}
			}
		}
	}
}

// drawsUsed: what training shows of its draws must follow the answers given: no draw is left out or
// reused, whatever the size of the data, the round, or the other options.
func drawsUsed(c *ctx) {
	c.family("draws are used")
	// the rows' values say which column the root splits on
	data := func(n, f int) *utils.DataBunch {
		var cs [][]float64
		for k := 0; k < f; k++ {
			cs = append(cs, col(2, n))
		}
		for k := 0; k < min(2, f); k++ {
			cs[k] = make([]float64, n)
			for i := range cs[k] {
				cs[k][i] = float64(i%2) + float64(k)/4
			}
		}
		l := make([]int, n)
		for i := range l {
			l[i] = labelNames[i%2]
		}
		return bunch(transpose(cs...), l)
	}
	opts := func(v, rounds int) *boo.Options {
		o := hypers[2].set(xopts(v % 2))
		o.Rounds, o.Gamma, o.MinChildWeight, o.LearningRate = rounds, 0, 1, 0.1
		if rounds < 4 {
			o.EarlyStop = []int{0, 40, 41}[v%3]
		}
		o.MaxDepth = 2 + v%3
		return o
	}
	show := func(t *trainCase) ([]int, []int, error) {
		m, err := observeModel(t.train())
		if err != nil {
			return nil, nil, err
		}
		var ns, fs []int
		for _, r := range m.rounds {
			ns = append(ns, r[0].ns)
			if r[0].leaf {
				fs = append(fs, -1)
			} else {
				fs = append(fs, r[0].feat)
			}
		}
		return ns, fs, nil
	}
	for _, rounds := range []int{1, 2} {
		for v := 0; v < 6; v++ {
			for _, n := range []int{2, 3, 4} {
				c.run(func() string { return fmt.Sprintf("every draw of %d rows, %d rounds, options %d", n, rounds, v) }, func() error {
					got := map[string]bool{}
					var err error
					enumerate(-1, 0, func(h *chooser) {
						o := opts(v, rounds)
						o.SubSample = []float64{0.5, 0.1, 0.97}[v%3]
						t := &trainCase{D: data(n, 2), O: o, rnd: &answers{f: func() float64 { return float64(h.choose(2)) * almostOne }, in: func(n int) int { return h.choose(n) }}}
						ns, _, e := show(t)
						if e != nil {
							err = e
						}
						got[fmt.Sprint(ns)] = true
						c.state(1)
						c.transition(1)
					})
					c.trace()
					for a := 0; a <= n; a++ {
						for b := 0; b <= n; b++ {
							var want []int
							if a > 0 {
								want = append(want, a)
							}
							if b > 0 && rounds == 2 {
								want = append(want, b)
							}
							if !got[fmt.Sprint(want)] {
								return fmt.Errorf("no draw grows the rounds on %v of %d rows; these happen: %v", want, n, got)
							}
						}
					}
					return err
				})
			}
			c.run(func() string { return fmt.Sprintf("every draw of 2 columns, %d rounds, options %d", rounds, v) }, func() error {
				got := map[string]bool{}
				var err error
				enumerate(-1, 0, func(h *chooser) {
					o := opts(v, rounds)
					o.ColSubSample = []float64{0.5, 0.1, 0.97}[v%3]
					t := &trainCase{D: data(6, 2), O: o, rnd: &answers{f: func() float64 { return float64(h.choose(2)) * almostOne }, in: func(n int) int { return h.choose(n) }}}
					_, fs, e := show(t)
					if e != nil {
						err = e
					}
					got[fmt.Sprint(fs)] = true
					c.state(1)
					c.transition(1)
				})
				for a := 0; a < 2; a++ {
					for b := 0; b < 2; b++ {
						want := []int{a, b}[:rounds]
						if !got[fmt.Sprint(want)] {
							return fmt.Errorf("no draw makes the rounds split on columns %v; these happen: %v", want, got)
						}
					}
				}
				return err
			})
		}
	}
	for _, n := range []int{5, 7, 9, 16, 17, 33, 64, 65, 101, 130, 257, 520, 1040} {
		for _, rounds := range []int{1, 3, 12, 35, 110} {
			for v := 0; v < 6; v++ {
				if rounds*n > 4000 {
					continue
				}
				f := []int{2, 3, 6, 20, 65, 130}[(n+v)%6]
				run := func(subR, subC bool, ans func(i int) float64) ([]int, []int, error) {
					o := opts(v, rounds)
					fr := []float64{0.5, 0.8, 0.97, 0.1}[(v+n)%4]
					if subR {
						o.SubSample = fr
					}
					if subC {
						o.ColSubSample = fr
					}
					i := 0
					return show(&trainCase{D: data(n, f), O: o, rnd: &answers{f: func() float64 { i++; return ans(i - 1) }, in: func(n int) int { i++; return int(ans(i-1) * float64(n)) }}})
				}
				none := func(int) float64 { return almostOne }
				all := func(int) float64 { return 0 }
				even := func(i int) float64 { return float64(i%2) * almostOne }
				odd := func(i int) float64 { return float64(1-i%2) * almostOne }
				c.run(func() string {
					return fmt.Sprintf("draws of %d rows and %d columns, %d rounds, options %d", n, f, rounds, v)
				}, func() error {
					c.state(5)
					c.transition(5 * rounds)
					if ns, _, err := run(true, v%2 == 0, none); err != nil || len(ns) > 0 {
						return fmt.Errorf("every row left out of every round: rounds with %v rows, error %v", ns, err)
					}
					for _, a := range []func(int) float64{all, even, odd} {
						ns, _, err := run(true, false, a)
						if err != nil || len(ns) != rounds {
							return fmt.Errorf("%d rounds, error %v", len(ns), err)
						}
						for i, k := range ns {
							if p := a(0) == a(1); p && k != n || !p && (k < n/2 || k > (n+1)/2) {
								return fmt.Errorf("round %d: %d rows of %d (all drawn: %v)", i, k, n, p)
							}
						}
					}
					_, fe, err := run(false, true, even)
					_, fo, err2 := run(false, true, odd)
					if err != nil || err2 != nil || len(fe) != rounds || len(fo) != rounds {
						return fmt.Errorf("%v %v: %d and %d rounds", err, err2, len(fe), len(fo))
					}
					if f%2 == 1 { // rounds start in turns with either answer
						for i := 0; i+1 < rounds; i++ {
							if fe[i] == fe[i+1] {
								return fmt.Errorf("rounds %d and %d split on column %d although different columns are drawn", i, i+1, fe[i])
							}
						}
					}
					for i := range fe {
						if fe[i] == fo[i] {
							return fmt.Errorf("round %d: split on column %d whichever column is drawn", i, fe[i])
						}
					}
					c.nontrivial(fmt.Sprint(c.idx))
					return nil
				})
			}
		}
	}
	// every round draws anew: with more and more draws that take rows, one more round at a time has trees
	for _, n := range []int{5, 6, 9} {
		for _, rounds := range []int{3, 8, 14, 35} {
			for v := 0; v < 6; v++ {
				c.run(func() string {
					return fmt.Sprintf("growing prefixes of draws, %d rows, %d rounds, options %d", n, rounds, v)
				}, func() error {
					got := map[int]bool{}
					for x := 0; x <= n*rounds; x++ {
						o := opts(v, rounds)
						o.SubSample = []float64{0.5, 0.8, 0.97, 0.1}[(v+n)%4]
						i := 0
						ns, _, err := show(&trainCase{D: data(n, 2), O: o, rnd: &answers{f: func() float64 { i++; return float64(b2i(i > x)) * almostOne }, in: func(k int) int { i++; return b2i(i > x) * (k - 1) }}})
						if err != nil {
							return err
						}
						got[len(ns)] = true
						c.transition(1)
					}
					c.state(len(got))
					for k := 0; k <= rounds; k++ {
						if !got[k] {
							return fmt.Errorf("no draws grow trees in exactly %d of %d rounds, so rounds share draws", k, rounds)
						}
					}
					return nil
				})
			}
		}
	}
}

// need gives the number of draws of a training run.
func need(t *trainCase) int {
	k := 0
	if t.O.SubSample < 1 {
		k += len(t.D.Data)
	}
	if t.O.ColSubSample < 1 {
		k += len(t.D.Data[0])
	}
	return k * t.O.Rounds
}

func checkC23(c *ctx) {
	c.family("sub-sampling function")
	maxn := 8
	if c.thorough() {
		maxn = 12
	}
	for n := 0; n <= maxn; n++ {
		for _, fr := range []float64{1e-9, 0.1, 0.5, 0.8, 0.999999} {
			n, fr := n, fr
			c.run(func() string { return fmt.Sprintf("n=%d fraction=%v", n, fr) }, func() error {
				got := map[string]int{}
				var err error
				enumerate(-1, 0, func(h *chooser) {
					vrand.Provider = &answers{f: func() float64 {
						if h.choose(2) == 0 {
							return 0
						}
						return almostOne
					}, in: func(n int) int { return h.choose(n) }}
					r := boo.SubSample(n, fr)
					vrand.Provider = nil
					if e := increasing(r, n); e != nil && err == nil {
						err = fmt.Errorf("%v with answers %v", e, h)
					}
					got[fmt.Sprint(r)]++
					c.transition(1)
				})
				c.state(len(got))
				c.trace()
				c.nontrivial(fmt.Sprint(c.idx))
				if err != nil {
					return err
				}
				if len(got) != 1<<n {
					return fmt.Errorf("%d of the %d subsets can be drawn", len(got), 1<<n)
				}
				return nil
			})
		}
	}
	for n := 0; n <= 40; n++ {
		for k := 0; k < 64; k++ {
			n, k := n, k
			c.run(func() string { return fmt.Sprintf("n=%d fraction 1, every answer %d/64", n, k) }, func() error {
				f := float64(k) / 64
				if k == 63 {
					f = almostOne
				}
				vrand.Provider = &answers{f: func() float64 { return f }, in: func(m int) int { return int(f * float64(m)) }}
				r := boo.SubSample(n, 1)
				vrand.Provider = nil
				if e := increasing(r, n); e != nil {
					return e
				}
				if len(r) != n {
					return fmt.Errorf("fraction 1 draws %v of %d", r, n)
				}
				return nil
			})
		}
	}
	// each index is included for the requested part of the answers (a grid of 256 answers)
	for n := 1; n <= 4; n++ {
		for i := 0; i < n; i++ {
			for _, fr := range []float64{0.125, 0.25, 0.5, 0.8, 0.9} {
				for _, other := range []float64{0, almostOne} {
					n, i, fr, other := n, i, fr, other
					c.run(func() string {
						return fmt.Sprintf("n=%d fraction=%v, index %d over a grid of answers, others %v", n, fr, i, other)
					}, func() error {
						in := 0
						for g := 0; g < 256; g++ {
							k := 0
							bad := false
							vrand.Provider = &answers{f: func() float64 {
								k++
								if k-1 == i {
									return (float64(g) + 0.5) / 256
								}
								return other
							}, in: func(m int) int { bad = true; return 0 }}
							r := boo.SubSample(n, fr)
							vrand.Provider = nil
							if bad || k != n { // another way of drawing
								return nil
							}
							if slices.Contains(r, i) {
								in++
							}
							if want := map[float64]int{0: n - 1, almostOne: 0}[other]; len(r)-b2i(slices.Contains(r, i)) != want {
								return fmt.Errorf("index %d's answer changes the others: %v", i, r)
							}
						}
						if math.Abs(float64(in)-256*fr) > 1 {
							return fmt.Errorf("index %d is included for %d of 256 equally likely answers, fraction %v", i, in, fr)
						}
						return nil
					})
				}
			}
		}
	}
	// the same for small and large fractions, on a finer grid, and for later indexes
	for _, n := range []int{1, 3, 20, 70} {
		for _, i := range []int{0, n / 2, n - 1} {
			for _, fr := range []float64{0.0005, 0.002, 0.008, 0.03, 0.97, 0.992, 0.998, 0.9995} {
				c.run(func() string { return fmt.Sprintf("n=%d fraction=%v, index %d over a fine grid of answers", n, fr, i) }, func() error {
					in, bad, k := 0, false, 0
					const G = 8192
					for g := 0; g < G; g++ {
						k = 0
						vrand.Provider = &answers{f: func() float64 {
							k++
							if k-1 == i {
								return (float64(g) + 0.5) / G
							}
							return almostOne
						}, in: func(m int) int { bad = true; return 0 }}
						r := boo.SubSample(n, fr)
						vrand.Provider = nil
						if bad || k != n { // another way of drawing
							return nil
						}
						in += b2i(slices.Contains(r, i))
					}
					c.transition(G)
					if math.Abs(float64(in)-G*fr) > 1 {
						return fmt.Errorf("index %d is included for %d of %d equally likely answers, fraction %v", i, in, G, fr)
					}
					return nil
				})
			}
		}
	}
	subsampled(c, tSample)
	drawsUsed(c)
	// larger: streams of answers
	c.family("answer streams")
	N := len(colPats)
	seeds := 6
	if c.thorough() {
		seeds = 40
	}
	for _, n := range []int{7, 12, 20} {
		for seed := 0; seed < seeds; seed++ {
			for p := 0; p < N; p++ {
				for _, fr := range []struct{ r, c float64 }{{0.8, 1}, {1, 0.6}, {0.5, 0.4}, {0.9, 0.9}} {
					X := transpose(col(p, n), col((p+4)%N, n), col((p+11)%N, n), col((p+8)%N, n))
					l := make([]int, n)
					for i := range l {
						l[i] = labelNames[(i*i/2+p)%3]
					}
					o := hypers[(p+seed)%len(hypers)].set(xopts(p % 2))
					o.Rounds = 5
					o.SubSample, o.ColSubSample, o.MinSample = fr.r, fr.c, 1+(p+seed)%n
					o.EarlyStop = 0
					t := &trainCase{name: fmt.Sprintf("stream %d", seed), D: bunch(X, l), O: o, rnd: &stream{uint64(seed*1000 + p)}}
					c.run(t.String, func() error { return replayCase(c, t, tSample) })
					if fr.r == 1 || seed > 1 {
						continue
					}
					// without xgboost there is no sub-sampling
					og := hypers[(p+seed)%len(hypers)].set(gopts(p % 2))
					og.Rounds = 3
					og.SubSample, og.ColSubSample, og.MinSample = fr.r, fr.c, 1+(p+seed)%n
					tg := &trainCase{name: fmt.Sprintf("regular, stream %d", seed), D: bunch(X, l), O: og, rnd: &stream{uint64(seed*1000 + p)}}
					c.run(tg.String, func() error { return replayCase(c, tg, tSample) })
				}
			}
		}
	}
	c.family("answer streams, more rows, columns and rounds")
	for _, n := range []int{24, 45, 90, 200} {
		for seed := 0; seed < seeds/2; seed++ {
			for p := 0; p < N; p += 3 {
				for ni, nc := range []int{6, 9, 17, 40} {
					for fi, fr := range []struct{ r, c float64 }{{0.8, 1}, {1, 0.9}, {0.95, 0.97}, {0.3, 0.15}} {
						if (n/3+seed+p/3+ni+fi)%4 != 0 || n*nc > 3000 && seed > 0 {
							continue
						}
						var cols [][]float64
						for j := 0; j < nc; j++ {
							cols = append(cols, col((p+j*5)%N, n))
							if j%3 == 2 {
								slices.Reverse(cols[j])
							}
						}
						l := make([]int, n)
						for i := range l {
							l[i] = labelNames[(i*i/2+p)%4]
						}
						o := hypers[(p+seed)%len(hypers)].set(xopts(p % 2))
						o.Rounds = 9 + ni*5
						o.SubSample, o.ColSubSample, o.MinSample = fr.r, fr.c, 1+(p+seed)%(n/2)
						o.EarlyStop = 0
						t := &trainCase{name: fmt.Sprintf("stream %d", seed), D: bunch(transpose(cols...), l), O: o, rnd: &stream{uint64(seed*1000 + p)}}
						c.run(t.String, func() error { return replayCase(c, t, tSample) })
					}
				}
			}
		}
	}
	// datasets smaller than the minimum sample
	c.family("too few rows")
	for n := 1; n <= 5; n++ {
		for ms := 0; ms <= 6; ms++ {
			for mode := 0; mode < 4; mode++ {
				l := make([]int, n)
				for i := range l {
					l[i] = labelNames[i%2]
				}
				o := hypers[2].set(mkopts(mode&1 == 0, mode>>1))
				o.MinSample = ms
				t := &trainCase{name: "few", D: bunch(transpose(col(6, n), col(0, n)), l), O: o}
				c.run(t.String, func() error { return replayCase(c, t, tSample) })
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func increasing(r []int, n int) error {
	for i, v := range r {
		if v < 0 || v >= n || i > 0 && r[i-1] >= v {
			return fmt.Errorf("%v are not increasing indexes below %d", r, n)
		}
	}
	return nil
}

var _ = reflect.DeepEqual

func init() {
	checks["C04"] = checkC04
	checks["C07"] = checkC07
	checks["C23"] = checkC23
}

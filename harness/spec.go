package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// node is a tree as observed from outside.
type node struct {
	ns, feat, branches int
	leaf, xgb          bool
	thr, val, score    float64
	samples            []int // nil when not observed
	l, r               *node
}

func observe(t utils.JTree) *node {
	j := t.JNode(1, true)
	n := fromJ(j)
	n.samples = j.Samples
	if l := t.Leftf(nil); l != nil {
		n.l = observe(l)
	}
	if r := t.Rightf(nil); r != nil {
		n.r = observe(r)
	}
	return n
}

func fromJ(j *utils.JSONNode) *node {
	return &node{ns: j.Nsamples, feat: j.SplitFeatureIndex, branches: j.Branches, leaf: j.Leaf, xgb: j.XGB, thr: j.Threshold, val: j.Value, score: j.BestScoreSoFar}
}

func (n *node) count() int {
	if n == nil {
		return 0
	}
	return 1 + n.l.count() + n.r.count()
}

func (n *node) leafFor(row []float64) *node {
	for !n.leaf {
		if row[n.feat] <= n.thr {
			n = n.l
		} else {
			n = n.r
		}
	}
	return n
}

func (n *node) walk(f func(*node, int), d int) {
	if n == nil {
		return
	}
	f(n, d)
	n.l.walk(f, d+1)
	n.r.walk(f, d+1)
}

func (n *node) String() string {
	if n == nil {
		return "-"
	}
	if n.leaf {
		return fmt.Sprintf("leaf(%v n=%d)", n.val, n.ns)
	}
	return fmt.Sprintf("(x%d<=%v n=%d gain=%v %v %v)", n.feat, n.thr, n.ns, n.score, n.l, n.r)
}

// aspects of a tree, one per property
const (
	aSplit = 1 << iota // C01
	aLimit             // C02
	aValue             // C03
	aGain              // C19
)

const (
	vMean   = iota // regular tree
	vXGB           // xgboost tree
	vNewton        // regular tree whose leaves were updated with sum(target)/sum(hess)
)

// grow says how a tree is to be grown.
type grow struct {
	exact bool // gradients and hessians are small integers: all sums are exact
	X       [][]float64
	xgb     bool
	g, h, y []float64
	lambda  float64
	gamma   float64
	mcw     float64
	depth   int
	cols    []int // nil: all
	rows    []int // nil: all
	vrule   int
	aspects int
	nodes   int // visited (output)
	splits  int
	vague   int     // nodes whose gains are numerically undetermined
	eps     float64 // relative uncertainty of the inputs (0: they are exact)
}

func (o *grow) e() float64 {
	if o.eps > 0 {
		return math.Max(o.eps, 1e-9)
	}
	return 1e-12 * math.Max(1, float64(len(o.X))/256)
}

// tol is the uncertainty of a gain whose terms add up to scale.
func (o *grow) tol(scale float64) float64 {
	if o.eps > 0 {
		return o.e() * (1 + scale)
	}
	return o.e() * scale
}

func (o *grow) minChild() int {
	m := int(o.mcw)
	if m < 1 {
		m = 1
	}
	return m
}

type cand struct {
	f      int
	a, b   float64
	nl, nr int
	gain   float64
	ok     bool // numerically determined
	scale  float64
	cond   float64
}

func (o *grow) cands(rows []int) []cand {
	var out []cand
	nf := len(o.X[0])
	for f := 0; f < nf; f++ {
		if len(o.cols) > 0 && !slices.Contains(o.cols, f) {
			continue
		}
		idx := append([]int{}, rows...)
		sort.SliceStable(idx, func(i, j int) bool { return o.X[idx[i]][f] < o.X[idx[j]][f] })
		var S, SA, H, ST float64
		for _, i := range idx {
			if o.xgb {
				S += o.g[i]
				SA += math.Abs(o.g[i])
				H += o.h[i]
			} else {
				S += o.y[i]
				SA += math.Abs(o.y[i])
			}
		}
		_ = ST
		var s, h float64
		for k := 0; k+1 < len(idx); k++ {
			i := idx[k]
			if o.xgb {
				s += o.g[i]
				h += o.h[i]
			} else {
				s += o.y[i]
			}
			a, b := o.X[i][f], o.X[idx[k+1]][f]
			if a == b {
				continue
			}
			nl, nr := k+1, len(idx)-k-1
			if nl < o.minChild() || nr < o.minChild() {
				continue
			}
			c := cand{f: f, a: a, b: b, nl: nl, nr: nr, ok: true, cond: 1}
			if o.xgb {
				dl, dr, dt := h+o.lambda, H-h+o.lambda, H+o.lambda
				if o.exact && (dl == 0 || dr == 0 || dt == 0) {
					continue // the gain is not defined
				}
				if dl < 1e-6 || dr < 1e-6 || dt < 1e-6 {
					c.ok = false
				}
				c.gain = 0.5*(s*s/dl+(S-s)*(S-s)/dr-S*S/dt) - o.gamma/2
				c.cond = 1 + dt/math.Min(dl, dr)
				c.scale = SA*SA/math.Min(dl, math.Min(dr, dt)) + math.Abs(o.gamma)
			} else {
				c.gain = s*s/float64(nl) + (S-s)*(S-s)/float64(nr) - S*S/float64(len(idx))
				c.scale = SA * SA
			}
			if math.IsNaN(c.gain) || math.IsInf(c.gain, 0) || math.IsInf(c.scale, 0) {
				c.ok = false
			}
			out = append(out, c)
		}
	}
	return out
}

// check compares an observed tree with what growing must give.
func (o *grow) check(n *node) error {
	rows := o.rows
	if rows == nil {
		rows = make([]int, len(o.X))
		for i := range rows {
			rows[i] = i
		}
	}
	return o.checkNode(n, rows, 0, "root")
}

func (o *grow) checkNode(n *node, rows []int, d int, where string) error {
	if n == nil {
		return fmt.Errorf("%s: missing node", where)
	}
	o.nodes++
	errf := func(f string, a ...any) error {
		return fmt.Errorf("%s (rows %v, depth %d): %s; node %v", where, rows, d, fmt.Sprintf(f, a...), n)
	}
	lim := o.aspects&aLimit != 0
	if lim {
		if n.ns != len(rows) {
			return errf("reports %d samples, %d reach it", n.ns, len(rows))
		}
		if n.samples != nil {
			s := append([]int{}, n.samples...)
			r := append([]int{}, rows...)
			slices.Sort(s)
			slices.Sort(r)
			if !slices.Equal(s, r) {
				return errf("holds samples %v", n.samples)
			}
		}
		if n.branches != n.count() {
			return errf("reports %d branches, has %d nodes", n.branches, n.count())
		}
		if len(rows) == 0 {
			return errf("empty node")
		}
	}
	if n.leaf && (n.l != nil || n.r != nil) {
		return errf("leaf with children")
	}
	if o.aspects&aValue != 0 {
		if err := o.checkValue(n, rows); err != nil {
			return errf("%v", err)
		}
	}
	if n.leaf {
		if o.aspects&aSplit != 0 && d < o.depth {
			for _, c := range o.cands(rows) {
				if !c.ok {
					o.vague++
					return nil
				}
			}
			for _, c := range o.cands(rows) {
				if !o.xgb || c.gain > o.tol(c.scale) {
					return errf("is a leaf although x%d between %v and %v is admissible with gain %v", c.f, c.a, c.b, c.gain)
				}
			}
		}
		return nil
	}
	o.splits++
	if lim {
		if d >= o.depth {
			return errf("split beyond the depth limit %d", o.depth)
		}
		if len(o.cols) > 0 && !slices.Contains(o.cols, n.feat) {
			return errf("uses column %d, allowed are %v", n.feat, o.cols)
		}
		if n.feat < 0 || n.feat >= len(o.X[0]) {
			return errf("uses column %d", n.feat)
		}
	}
	if n.feat < 0 || n.feat >= len(o.X[0]) {
		return errf("uses column %d", n.feat)
	}
	var left, right []int
	for _, i := range rows {
		if o.X[i][n.feat] <= n.thr {
			left = append(left, i)
		} else {
			right = append(right, i)
		}
	}
	if lim && (len(left) < o.minChild() || len(right) < o.minChild()) {
		return errf("children get %d and %d samples, minimum %d", len(left), len(right), o.minChild())
	}
	if o.aspects&aSplit != 0 {
		cs := o.cands(rows)
		best, tol := math.Inf(-1), 0.0
		vague := false
		var mine *cand
		for i, c := range cs {
			if !c.ok {
				vague = true
				continue
			}
			if c.gain > best {
				best = c.gain
			}
			tol = math.Max(tol, o.tol(c.scale))
			if c.f == n.feat && c.a <= n.thr && n.thr < c.b {
				mine = &cs[i]
			}
		}
		if vague {
			o.vague++
		} else {
			if mine == nil {
				return errf("split is not between two consecutive values of the samples, or not admissible")
			}
			if mine.gain < best-tol {
				return errf("has gain %v, the best split has %v", mine.gain, best)
			}
			if o.xgb && mine.gain < -tol {
				return errf("split with non-positive gain %v", mine.gain)
			}
			m := mine.a/2 + mine.b/2
			if math.Abs(n.thr-m) > 2e-9*(mine.b/2-mine.a/2) && math.Abs(n.thr-m) > 4*ulp(m) {
				return errf("threshold is not midway between %v and %v", mine.a, mine.b)
			}
		}
	}
	if o.aspects&aGain != 0 {
		for _, c := range o.cands(rows) {
			if c.ok && c.f == n.feat && c.a <= n.thr && n.thr < c.b {
				want := c.gain
				if !o.xgb {
					want = -want
				}
				if !(math.Abs(n.score-want) <= 8*o.tol(c.scale)*c.cond) {
					return errf("the gain of the split is %v, the tree records %v", want, n.score)
				}
			}
		}
	}
	if n.l == nil || n.r == nil {
		return errf("split without two children")
	}
	if err := o.checkNode(n.l, left, d+1, where+".l"); err != nil {
		return err
	}
	return o.checkNode(n.r, right, d+1, where+".r")
}

func ulp(x float64) float64 {
	x = math.Abs(x)
	return math.Nextafter(x, math.Inf(1)) - x
}

func (o *grow) checkValue(n *node, rows []int) error {
	var want, scale float64
	switch {
	case o.vrule == vXGB:
		var g, h, ga float64
		for _, i := range rows {
			g += o.g[i]
			ga += math.Abs(o.g[i])
			h += o.h[i]
		}
		if h+o.lambda == 0 {
			if math.IsNaN(n.val) || math.IsInf(n.val, 0) {
				return fmt.Errorf("value is %v", n.val)
			}
			return nil
		}
		want = -g / (h + o.lambda)
		scale = ga / math.Abs(h+o.lambda)
	case o.vrule == vNewton && n.leaf:
		var g, h, ga float64
		for _, i := range rows {
			g += o.y[i]
			ga += math.Abs(o.y[i])
			h += o.h[i]
		}
		if h == 0 {
			want = 0
		} else {
			want = g / h
			scale = ga / h
		}
		if math.IsInf(want, 0) || math.IsInf(scale, 0) || h > 0 && h < 1e-290 {
			return nil
		}
	default:
		var s, sa float64
		for _, i := range rows {
			s += o.y[i]
			sa += math.Abs(o.y[i])
		}
		want = s / float64(len(rows))
		scale = sa / float64(len(rows))
	}
	if !near(n.val, want, o.e()*(scale+math.Abs(want))+1e-300) {
		return fmt.Errorf("value is %v, should be %v", n.val, want)
	}
	return nil
}

func near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol
}

// ---- models, observed through their serialised form ----

// metaData is the first line of a stored model.
type metaData struct {
	LearningRate      float64
	ClassLabels       []int
	ProbTransformName string
	BaseScore         float64
	XGB               bool
	Rounds            int
}

type model struct {
	meta   metaData
	rounds [][]*node // [round][class]
	text   string
}

type sbuf struct{ strings.Builder }

func modelText(m *boo.MultiClass) (string, error) {
	var b strings.Builder
	err := boo.JSONMultiClass(m, "softmax", &b)
	return b.String(), err
}

func observeModel(m *boo.MultiClass) (*model, error) {
	t, err := modelText(m)
	if err != nil {
		return nil, fmt.Errorf("serialising the model: %v", err)
	}
	return parseModel(t)
}

func parseModel(t string) (*model, error) {
	r := &model{text: t}
	lines := strings.Split(t, "\n")
	if err := json.Unmarshal([]byte(lines[0]), &r.meta); err != nil {
		return nil, fmt.Errorf("metadata: %v", err)
	}
	i := 1
	var tree func() (*node, error)
	tree = func() (*node, error) {
		if i >= len(lines) {
			return nil, fmt.Errorf("text ends inside a tree")
		}
		j := &utils.JSONNode{}
		if err := json.Unmarshal([]byte(lines[i]), j); err != nil {
			return nil, fmt.Errorf("line %d: %v", i+1, err)
		}
		i++
		n := fromJ(j)
		var err error
		if j.Leftid > 0 {
			if n.l, err = tree(); err != nil {
				return nil, err
			}
		}
		if j.Rightid > 0 {
			if n.r, err = tree(); err != nil {
				return nil, err
			}
		}
		return n, nil
	}
	for i < len(lines) {
		s := lines[i]
		switch {
		case strings.TrimSpace(s) == "":
			i++
		case strings.HasPrefix(s, "ROUND"):
			i++
			r.rounds = append(r.rounds, nil)
		case strings.HasPrefix(s, "CLASS"):
			i++
			n, err := tree()
			if err != nil {
				return nil, err
			}
			if len(r.rounds) == 0 {
				return nil, fmt.Errorf("tree before the first round")
			}
			k := len(r.rounds) - 1
			r.rounds[k] = append(r.rounds[k], n)
		default:
			return nil, fmt.Errorf("unexpected line %d: %q", i+1, s)
		}
	}
	return r, nil
}

func loadModel(t string) (*boo.MultiClass, error) {
	return boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(t)))
}

func softmax(s []float64) []float64 {
	m := math.Inf(-1)
	for _, v := range s {
		m = math.Max(m, v)
	}
	o := make([]float64, len(s))
	t := 0.0
	for i, v := range s {
		o[i] = math.Exp(v - m)
		t += o[i]
	}
	for i := range o {
		o[i] /= t
	}
	return o
}

// probs gives the probabilities the model must predict.
func (m *model) probs(row []float64) []float64 { return softmax(m.scores(row)) }

// scores gives the scores before the activation function.
func (m *model) scores(row []float64) []float64 {
	raw := make([]float64, len(m.meta.ClassLabels))
	for i := range raw {
		raw[i] = m.meta.BaseScore
	}
	for _, r := range m.rounds {
		for k, t := range r {
			if k < len(raw) {
				raw[k] += t.leafFor(row).val * m.meta.LearningRate
			}
		}
	}
	return raw
}

func distribution(p []float64) error {
	s := 0.0
	for _, v := range p {
		if math.IsNaN(v) || v < 0 || v > 1 {
			return fmt.Errorf("%v is not a probability distribution", p)
		}
		s += v
	}
	if math.Abs(s-1) > 1e-9 {
		return fmt.Errorf("probabilities %v sum to %v", p, s)
	}
	return nil
}

func argmaxes(p []float64) map[int]bool {
	b := math.Inf(-1)
	for _, v := range p {
		b = math.Max(b, v)
	}
	r := map[int]bool{}
	for i, v := range p {
		if v >= b {
			r[i] = true
		}
	}
	return r
}

func distinct(l []int) []int {
	var r []int
	for _, v := range l {
		if !slices.Contains(r, v) {
			r = append(r, v)
		}
	}
	return r
}

// ---- copies for mutation checks ----

func copyM(x [][]float64) [][]float64 {
	if x == nil {
		return nil
	}
	r := make([][]float64, len(x))
	for i := range x {
		r[i] = append([]float64{}, x[i]...)
	}
	return r
}

func copyDB(d *utils.DataBunch) *utils.DataBunch {
	return &utils.DataBunch{Data: copyM(d.Data), Keys: slices.Clone(d.Keys), Labels: slices.Clone(d.Labels), FloatLabels: slices.Clone(d.FloatLabels)}
}

func sameM(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if math.Float64bits(a[i][j]) != math.Float64bits(b[i][j]) {
				return false
			}
		}
	}
	return true
}

func sameDB(a, b *utils.DataBunch) bool {
	return sameM(a.Data, b.Data) && slices.Equal(a.Labels, b.Labels) && slices.Equal(a.Keys, b.Keys) && slices.Equal(a.FloatLabels, b.FloatLabels)
}

func eqBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

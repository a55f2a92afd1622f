package main

// C22: using a model never changes it, models are independent, results already returned stay.

import (
	"fmt"
	"slices"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
)

// one side of the world: a model, and what it was made from
type side struct {
	m   *boo.MultiClass
	D   *utils.DataBunch // its training set (crafted models: some labelled rows)
	O   *boo.Options     // the options it was trained with, or nil
	ref *snapshot
}

type snapshot struct {
	text, imp string
	labels    []int
	rounds    []int
	probs     [][]float64
	class     []int
	acc       float64
}

func snap(m *boo.MultiClass, rows [][]float64, test *utils.DataBunch) (*snapshot, error) {
	t, err := modelText(m)
	if err != nil {
		return nil, err
	}
	s := &snapshot{text: t, imp: importance(m), labels: m.ClassLabels()}
	for k := 0; k <= m.Classes(); k++ {
		s.rounds = append(s.rounds, m.Rounds(k))
	}
	for _, r := range rows {
		s.probs = append(s.probs, slices.Clone(m.PredictSingle(r)))
		s.class = append(s.class, m.PredictSingleClass(r))
	}
	s.acc = m.Accuracy(test)
	return s, nil
}

func (a *snapshot) same(b *snapshot) error {
	if a.text != b.text {
		return fmt.Errorf("serialised text changed:\n%s\nand\n%s", cut(a.text, 800), cut(b.text, 800))
	}
	if a.imp != b.imp {
		return fmt.Errorf("importance report changed:\n%s\nand\n%s", a.imp, b.imp)
	}
	if !slices.Equal(a.labels, b.labels) {
		return fmt.Errorf("class labels changed: %v and %v", a.labels, b.labels)
	}
	if !slices.Equal(a.rounds, b.rounds) {
		return fmt.Errorf("rounds changed: %v and %v", a.rounds, b.rounds)
	}
	for i := range a.probs {
		if !eqBits(a.probs[i], b.probs[i]) {
			return fmt.Errorf("prediction for row %d changed: %v and %v", i, a.probs[i], b.probs[i])
		}
	}
	if !slices.Equal(a.class, b.class) {
		return fmt.Errorf("predicted classes changed: %v and %v", a.class, b.class)
	}
	if a.acc != b.acc {
		return fmt.Errorf("accuracy changed: %v and %v", a.acc, b.acc)
	}
	return nil
}

// a way to make a side, the same every time it is called
type maker struct {
	name string
	f    func() (*side, error)
}

func makers() []maker {
	var ms []maker
	lib := func(xgb bool) []*node { return treeLib(xgb) }
	for i, xgb := range []bool{true, false} {
		K := 3 - i
		ms = append(ms, maker{fmt.Sprintf("crafted, %d classes", K), func() (*side, error) {
			l := lib(xgb)
			var rs [][]*node
			for r := 0; r < 2; r++ {
				var row []*node
				for k := 0; k < K; k++ {
					row = append(row, l[(r*2+k+3)%len(l)])
				}
				rs = append(rs, row)
			}
			labels := []int{7, -2, 4}[:K]
			m, _, err := craft(labels, 0.3, 0.5, xgb, rs)
			return &side{m: m, D: bunch(copyM(gridRows), spread(labels, len(gridRows)))}, err
		}})
	}
	for mode := 0; mode < 4; mode++ {
		xgb, sub := mode < 3, mode == 1
		K := []int{2, 3, 2, 3}[mode]
		ms = append(ms, maker{fmt.Sprintf("trained, xgb %v, sub-sampling %v, %d classes", xgb, sub, K), func() (*side, error) {
			n := 6
			X := make([][]float64, n)
			L := make([]int, n)
			for i := range X {
				X[i] = []float64{float64(i), float64((i * 2) % 5)}
				L[i] = []int{5, 1, 3}[(i*i+i/2)%K]
			}
			D := bunch(X, L)
			o := mkopts(xgb, 0)
			o.Rounds, o.MinSample, o.MinChildWeight, o.MaxDepth, o.LearningRate = 2, 1, 0.1, 2, 0.5
			o.Gamma, o.Lambda = 0, 1
			if mode == 2 {
				o.Rounds, o.EarlyStop = 3, 1
			}
			if sub {
				o.SubSample, o.ColSubSample = 0.75, 0.75
			}
			vrand.Provider = &stream{uint64(mode + 11)}
			m := boo.NewMultiClass(D, o)
			return &side{m: m, D: D, O: o}, nil
		}})
	}
	n := len(ms)
	loaded := []int{0, n - 1}
	for _, i := range loaded {
		ms = append(ms, maker{"loaded from the text of: " + ms[i].name, func() (*side, error) {
			s, err := ms[i].f()
			if err != nil {
				return nil, err
			}
			t, err := modelText(s.m)
			if err != nil {
				return nil, err
			}
			m, err := loadModel(t)
			return &side{m: m, D: s.D}, err
		}})
	}
	return append(ms, largeMakers()...)
}

// largeMakers: models with more classes, rounds and samples.
func largeMakers() []maker {
	var ms []maker
	for i, xgb := range []bool{true, false} {
		K, R := []int{11, 6}[i], []int{9, 14}[i]
		ms = append(ms, maker{fmt.Sprintf("crafted, %d classes, %d rounds", K, R), func() (*side, error) {
			l := treeLib(xgb)
			var rs [][]*node
			for r := 0; r < R; r++ {
				var row []*node
				for k := 0; k < K; k++ {
					row = append(row, l[(r*2+k+3)%len(l)])
				}
				rs = append(rs, row)
			}
			var labels []int
			for k := 0; k < K; k++ {
				labels = append(labels, (k*7)%K*3-4)
			}
			m, _, err := craft(labels, 1.5-float64(i), 0.5, xgb, rs)
			return &side{m: m, D: bunch(copyM(gridRows), spread(labels, len(gridRows)))}, err
		}})
		ms = append(ms, maker{fmt.Sprintf("trained, xgb %v, %d classes, %d rounds", xgb, K, R), func() (*side, error) {
			n := 3 * K
			X := make([][]float64, n)
			L := make([]int, n)
			for i := range X {
				X[i] = []float64{float64(i), float64((i * 5) % 7)}
				L[i] = (i*i + i/2) % K * 2
			}
			D := bunch(X, L)
			o := mkopts(xgb, 0)
			o.Rounds, o.MinSample, o.MinChildWeight, o.MaxDepth, o.LearningRate = R, 1, 0.1, 3, 1.25
			o.Gamma, o.Lambda = 0, 1
			m := boo.NewMultiClass(D, o)
			return &side{m: m, D: D, O: o}, nil
		}})
	}
	for _, xgb := range []bool{true, false} { // one sample for each class
		ms = append(ms, maker{fmt.Sprintf("trained, xgb %v, all labels different", xgb), func() (*side, error) {
			D := bunch(transpose(col(4, 5), col(6, 5)), []int{4, 9, 1, 1 << 40, -3})
			o := mkopts(xgb, 0)
			o.Rounds, o.MinSample, o.MinChildWeight, o.MaxDepth, o.LearningRate = 2, 1, 0, 2, 0.5
			o.Gamma, o.Lambda = 0, 1
			return &side{m: boo.NewMultiClass(D, o), D: D, O: o}, nil
		}})
	}
	return ms
}

func spread(l []int, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = l[(i*i+i/2)%len(l)]
	}
	return r
}

type retained struct {
	what string
	got  []float64
	want []float64
}

type world struct {
	sides []*side
	buf   []float64 // a slice of the caller's used with every model
	kept  []retained
	pos   int
}

type useOp struct {
	name string
	f    func(w *world, s *side) error
}

func (w *world) keep(what string, p []float64) {
	w.kept = append(w.kept, retained{what, p, slices.Clone(p)})
}

func useOps() []useOp {
	return []useOp{
		{"probabilities of a row", func(w *world, s *side) error {
			w.keep("probabilities", s.m.PredictSingle(s.D.Data[w.pos%len(s.D.Data)]))
			return nil
		}},
		{"probabilities of two rows", func(w *world, s *side) error {
			w.keep("probabilities", s.m.PredictSingle(s.D.Data[0]))
			w.keep("probabilities", s.m.PredictSingle(s.D.Data[len(s.D.Data)-1]))
			return nil
		}},
		{"probabilities into the caller's slice, then overwritten", func(w *world, s *side) error {
			p := s.m.PredictSingle(s.D.Data[0], w.buf)
			for i := range w.buf {
				w.buf[i] = -99
			}
			for i := range p {
				p[i] = 1e9
			}
			return nil
		}},
		{"probabilities into a slice that is too short", func(w *world, s *side) error {
			w.keep("probabilities", s.m.PredictSingle(s.D.Data[1], make([]float64, 1)))
			return nil
		}},
		{"probabilities, result overwritten", func(w *world, s *side) error {
			p := s.m.PredictSingle(s.D.Data[2])
			for i := range p {
				p[i] = 1e9
			}
			return nil
		}},
		{"class of a row", func(w *world, s *side) error {
			s.m.PredictSingleClass(s.D.Data[w.pos%len(s.D.Data)])
			return nil
		}},
		{"class of a row, with the caller's slice", func(w *world, s *side) error {
			s.m.PredictSingleClass(s.D.Data[1], w.buf)
			for i := range w.buf {
				w.buf[i] = 77
			}
			return nil
		}},
		{"accuracy", func(w *world, s *side) error { s.m.Accuracy(s.D); return nil }},
		{"accuracy, number of classes given", func(w *world, s *side) error { s.m.Accuracy(s.D, s.m.Classes()); return nil }},
		{"accuracy, more classes given", func(w *world, s *side) error { s.m.Accuracy(s.D, s.m.Classes()+3); return nil }},
		{"class labels, result overwritten", func(w *world, s *side) error {
			l := s.m.ClassLabels()
			for i := range l {
				l[i] = 1000 + i
			}
			_ = append(l[:0], 5)
			return nil
		}},
		{"importance, result changed", func(w *world, s *side) error {
			f, err := s.m.FeatureImportance()
			if err != nil {
				return err
			}
			f.Add(0, 100)
			f.Add(17, 3)
			_ = f.String()
			return nil
		}},
		{"serialised", func(w *world, s *side) error {
			var b sbuf
			return boo.JSONMultiClass(s.m, "", &b)
		}},
		{"serialised with an activation", func(w *world, s *side) error {
			var b sbuf
			return boo.JSONMultiClass(s.m, "softmax", &b)
		}},
		{"confusion report", func(w *world, s *side) error {
			D := copyDB(s.D)
			D.Labels = spread(s.m.ClassLabels(), len(D.Data))
			c := confu.MCConfusions(s.m, D)
			c.Matrix()
			_ = c.PrintTopN(1, nil)
			return nil
		}},
		{"rounds and classes", func(w *world, s *side) error {
			s.m.Rounds()
			s.m.Rounds(1)
			s.m.Classes()
			return nil
		}},
		{"training set's labels overwritten", func(w *world, s *side) error {
			for i := range s.D.Labels {
				s.D.Labels[i] = 40 + i%2
			}
			return nil
		}},
		{"training set overwritten", func(w *world, s *side) error {
			for _, r := range s.D.Data {
				for j := range r {
					r[j] = -r[j] - 3
				}
			}
			return nil
		}},
		{"another model trained with the same data and options", func(w *world, s *side) error {
			o := s.O
			if o == nil {
				o = mkopts(true, 0)
				o.Rounds, o.MinSample = 1, 1
			}
			m := boo.NewMultiClass(s.D, o)
			w.keep("probabilities of the other model", m.PredictSingle(s.D.Data[0]))
			return nil
		}},
		{"options overwritten", func(w *world, s *side) error {
			if s.O != nil {
				s.O.LearningRate, s.O.BaseScore, s.O.XGB, s.O.Rounds, s.O.MaxDepth = 0.9, 4, !s.O.XGB, 1, 1
				s.O.SubSample, s.O.ColSubSample = 1, 1
			}
			return nil
		}},
		{"a model read from another's text", func(w *world, s *side) error {
			t, err := modelText(s.m)
			if err != nil {
				return err
			}
			m, err := loadModel(t)
			if err != nil {
				return err
			}
			l := m.ClassLabels()
			l[0] = 99
			m.Accuracy(s.D, 2)
			w.keep("probabilities of the copy", m.PredictSingle(s.D.Data[0]))
			return nil
		}},
	}
}

func checkC22(c *ctx) {
	defer func() { vrand.Provider = nil }()
	ms := makers()
	if !vsched.RaceEnabled {
		sequences(c, ms)
	}
	concurrentUse(c, ms)
}

func sequences(c *ctx, ms []maker) {
	ops := useOps()
	type ref struct {
		snap *snapshot
		rows [][]float64
		test *utils.DataBunch
	}
	refs := make([]*ref, len(ms))
	for i, m := range ms {
		s, err := m.f()
		if err != nil {
			c.run(func() string { return m.name }, func() error { return err })
			return
		}
		r := &ref{rows: copyM(s.D.Data), test: copyDB(s.D)}
		if r.snap, err = snap(s.m, r.rows, r.test); err != nil {
			c.run(func() string { return m.name }, func() error { return err })
			return
		}
		refs[i] = r
	}
	depth := 3
	c.family("sequences of uses over two models")
	pairs := [][2]int{{0, 3}, {2, 6}, {4, 1}, {5, 7}, {3, 3}, {8, 9}, {10, 11}, {9, 11}, {12, 13}}
	if c.thorough() {
		depth = 4
	}
	for d := 0; d <= depth; d++ {
		for pi, pr := range pairs {
			if d == 4 && pi > 1 || d > 2 && pr[1] > 8 || d > 1 && pi >= 7 {
				continue
			}
			tuples(d, 2*len(ops), func(ix []int) {
				if d > 0 && d >= depth-b2i(c.thorough()) && !c.thorough() && ix[0] >= len(ops) && pr[0] == pr[1] {
					return // the same by symmetry
				}
				ix = slices.Clone(ix)
				c.run(func() string {
					var s []string
					for _, i := range ix {
						s = append(s, fmt.Sprintf("%s of model %d", ops[i%len(ops)].name, i/len(ops)))
					}
					return fmt.Sprintf("models: %s; %s. Uses: %s", ms[pr[0]].name, ms[pr[1]].name, strings.Join(s, "; "))
				}, func() error {
					w := &world{buf: make([]float64, 12)}
					for _, i := range pr {
						s, err := ms[i].f()
						if err != nil {
							return err
						}
						w.sides = append(w.sides, s)
					}
					for k, i := range ix {
						vrand.Provider = &stream{uint64(k + 5)}
						w.pos = k
						if err := ops[i%len(ops)].f(w, w.sides[i/len(ops)]); err != nil {
							return fmt.Errorf("%s: %v", ops[i%len(ops)].name, err)
						}
						c.transition(1)
						for _, kp := range w.kept {
							if !eqBits(kp.got, kp.want) {
								return fmt.Errorf("%s returned earlier changed from %v to %v after: %s", kp.what, kp.want, kp.got, ops[i%len(ops)].name)
							}
						}
					}
					c.state(1)
					for j, i := range pr {
						s, err := snap(w.sides[j].m, refs[i].rows, refs[i].test)
						if err != nil {
							return err
						}
						if err := refs[i].snap.same(s); err != nil {
							return fmt.Errorf("model %d: %v", j, err)
						}
					}
					for _, kp := range w.kept {
						if !eqBits(kp.got, kp.want) {
							return fmt.Errorf("%s returned earlier changed from %v to %v", kp.what, kp.want, kp.got)
						}
					}
					if len(w.kept) > 0 {
						c.nontrivial(fmt.Sprint(pi, ix))
					}
					c.trace()
					return nil
				})
			})
		}
	}
}

// concurrentUse: goroutines that predict with one model.
func concurrentUse(c *ctx, ms []maker) {
	c.family("concurrent predictions, all interleavings")
	type job struct {
		name string
		f    func(s *side, D *utils.DataBunch) []float64
	}
	jobs := []job{
		{"probabilities", func(s *side, D *utils.DataBunch) []float64 {
			return append(slices.Clone(s.m.PredictSingle(D.Data[0])), s.m.PredictSingle(D.Data[3])...)
		}},
		{"probabilities into a slice of its own", func(s *side, D *utils.DataBunch) []float64 {
			b := make([]float64, 12)
			return slices.Clone(s.m.PredictSingle(D.Data[2], b))
		}},
		{"class", func(s *side, D *utils.DataBunch) []float64 {
			return []float64{float64(s.m.PredictSingleClass(D.Data[1]))}
		}},
		{"class with a slice of its own", func(s *side, D *utils.DataBunch) []float64 {
			return []float64{float64(s.m.PredictSingleClass(D.Data[4], make([]float64, 12)))}
		}},
		{"accuracy", func(s *side, D *utils.DataBunch) []float64 { return []float64{s.m.Accuracy(D)} }},
		{"labels, rounds", func(s *side, D *utils.DataBunch) []float64 {
			r := []float64{float64(s.m.Rounds()), float64(s.m.Classes())}
			for _, l := range s.m.ClassLabels() {
				r = append(r, float64(l))
			}
			return r
		}},
	}
	maxExec := 2000
	if c.thorough() {
		maxExec = 100000
	}
	for mi, mk := range ms {
		if mi > 7 && mi%2 == 1 { // large: the crafted ones
			continue
		}
		for before := 0; before < 3; before++ { // nothing; predictions; accuracy with a number of classes (no accuracies later)
			for k := 2; k <= 3; k++ {
				if mi > 7 && (before > 0 || k > 2) {
					continue
				}
				tuples(k, len(jobs), func(ix []int) {
					if !slices.IsSorted(ix) || before == 2 && slices.Contains(ix, 4) {
						return
					}
					ix = slices.Clone(ix)
					c.run(func() string {
						var s []string
						for _, i := range ix {
							s = append(s, jobs[i].name)
						}
						return fmt.Sprintf("model: %s; before: %d; goroutines: %s", mk.name, before, strings.Join(s, "; "))
					}, func() error {
						s, err := mk.f()
						if err != nil {
							return err
						}
						D := copyDB(s.D)
						twin, err := mk.f()
						if err != nil {
							return err
						}
						want := make([][]float64, len(ix))
						for i, j := range ix {
							want[i] = jobs[j].f(twin, D)
						}
						err = underSched(c, maxExec, func() {
							switch before {
							case 1:
								s.m.PredictSingle(D.Data[0])
								s.m.PredictSingleClass(D.Data[1], make([]float64, 12))
							case 2:
								s.m.Accuracy(D, s.m.Classes())
							}
							got := make([][]float64, len(ix))
							done := make([]chan bool, len(ix))
							for i, j := range ix {
								done[i] = make(chan bool, 1)
								vsched.Go(func() {
									got[i] = jobs[j].f(s, D)
									vsched.SendTo(done[i])(true)
								})
							}
							for i := range done {
								vsched.Recv(done[i])
							}
							for i := range got {
								if !eqBits(got[i], want[i]) {
									panic(fmt.Sprintf("%s gave %v, alone %v", jobs[ix[i]].name, got[i], want[i]))
								}
							}
						}, clean)
						c.trace()
						c.nontrivial(fmt.Sprint("conc", mi, before, ix))
						return err
					})
				})
			}
		}
	}
}

func init() {
	checks["C22"] = checkC22
}

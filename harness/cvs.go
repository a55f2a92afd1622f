package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
)

// ---- C11 ----

// idData is a dataset whose rows can be recognised: row i is {i, 100+i}, with a label from lab.
func idData(n int) *utils.DataBunch {
	d := &utils.DataBunch{Keys: idKeys(n)}
	for i := 0; i < n; i++ {
		row := make([]float64, len(d.Keys))
		for j := range row {
			row[j] = float64(i + 100*j)
		}
		d.Data = append(d.Data, row)
		d.Labels = append(d.Labels, lab(i))
	}
	return d
}

// lab gives distinct labels of very different sizes.
func lab(i int) int {
	switch i % 5 {
	case 1:
		return -i
	case 2:
		return 1<<40 + i
	case 3:
		return -1<<33 - i
	}
	return i*3 + 1
}

// idKeys gives the feature names of idData(n): two, or many for larger n.
func idKeys(n int) []string {
	r := []string{"f", "g"}
	for j := 2; n > 14 && j < n%67; j++ {
		r = append(r, fmt.Sprintf("f%d", j))
	}
	return r
}

// ids gives the rows of a part of idData, checking that labels and names are attached.
func ids(d *utils.DataBunch, n int, labelled bool) ([]int, error) {
	if d == nil {
		return nil, fmt.Errorf("no dataset")
	}
	var r []int
	keys := idKeys(n)
	for i, row := range d.Data {
		for j := range keys {
			if len(row) != len(keys) || row[j] != row[0]+100*float64(j) {
				return nil, fmt.Errorf("row %v is not one of the original ones", row)
			}
		}
		k := int(row[0])
		if labelled && (len(d.Labels) != len(d.Data) || d.Labels[i] != lab(k)) {
			return nil, fmt.Errorf("row %d of the data is at position %d, the labels are %v", k, i, d.Labels)
		}
		if !labelled && len(d.Labels) > 0 {
			return nil, fmt.Errorf("labels %v for unlabelled data", d.Labels)
		}
		r = append(r, k)
	}
	if !slices.Equal(d.Keys, keys) {
		return nil, fmt.Errorf("feature names are %v", d.Keys)
	}
	return r, nil
}

func expectFolds(n, nfold int) int {
	nf := 5
	if nfold > 0 {
		nf = nfold
	}
	if n < 4 {
		return 0
	}
	for n/nf < 2 {
		nf--
	}
	return nf
}

func checkFolds(n, nfold int, copies, labelled bool, prov vrand.Answers) (string, error) {
	D := idData(n)
	if !labelled {
		D.Labels = nil
	}
	keep := copyDB(D)
	vrand.Provider = prov
	defer func() { vrand.Provider = nil }()
	var args []bool
	if copies {
		args = []bool{true}
	}
	k, next, err := utils.CrossValidationSamples(D, nfold, args...)
	want := expectFolds(n, nfold)
	req := nfold
	if req <= 0 {
		req = 5
	}
	if n < 4 {
		if err == nil || k != 0 {
			return "", fmt.Errorf("%d samples, %d-fold: %d folds, error %v", n, nfold, k, err)
		}
		return "too few", nil
	}
	if req == 1 { // one fold has no training set: an error or nothing else than one fold
		if err == nil {
			return "", fmt.Errorf("1-fold cross-validation gives no error")
		}
		if k == 0 {
			return "one fold rejected", nil
		}
		return "", fmt.Errorf("1-fold cross-validation gives %d folds", k)
	}
	if k != want {
		return "", fmt.Errorf("%d samples, %d-fold: %d folds, should be %d", n, nfold, k, want)
	}
	if (err != nil) != (want < req) {
		return "", fmt.Errorf("%d samples, %d-fold requested, %d used: error %v", n, req, want, err)
	}
	times := make([]int, n)
	var sig strings.Builder
	type fold struct {
		train, test *utils.DataBunch
		a, b        []int
	}
	var fs []fold
	for i := 0; i < k; i++ {
		train, test := next()
		a, err := ids(train, n, labelled)
		if err != nil {
			return "", fmt.Errorf("training set %d of %d: %v", i, k, err)
		}
		b, err := ids(test, n, labelled)
		if err != nil {
			return "", fmt.Errorf("test set %d of %d: %v", i, k, err)
		}
		fmt.Fprintf(&sig, "%v ", b)
		if len(b) < 2 {
			return "", fmt.Errorf("test set %d of %d is %v", i, k, b)
		}
		all := append(slices.Clone(a), b...)
		slices.Sort(all)
		for j := range all {
			if len(all) != n || all[j] != j {
				return "", fmt.Errorf("fold %d of %d: training set %v and test set %v are not a partition of %d samples", i, k, a, b, n)
			}
		}
		for _, v := range b {
			times[v]++
		}
		fs = append(fs, fold{train, test, a, b})
	}
	for i, v := range times {
		if v != 1 {
			return "", fmt.Errorf("sample %d is in %d test sets", i, v)
		}
	}
	for j := 0; j < 2; j++ {
		if a, b := next(); a != nil || b != nil {
			return "", fmt.Errorf("a fold after the last one")
		}
	}
	if !sameDB(keep, D) {
		return "", fmt.Errorf("the dataset was changed")
	}
	for i, f := range fs { // folds delivered earlier are still what they were
		a, err := ids(f.train, n, labelled)
		if err != nil || !slices.Equal(a, f.a) {
			return "", fmt.Errorf("training set %d of %d changed from %v to %v after it was delivered (%v)", i, k, f.a, a, err)
		}
		b, err := ids(f.test, n, labelled)
		if err != nil || !slices.Equal(b, f.b) {
			return "", fmt.Errorf("test set %d of %d changed from %v to %v after it was delivered (%v)", i, k, f.b, b, err)
		}
	}
	if copies {
		for _, f := range fs {
			for _, d := range []*utils.DataBunch{f.train, f.test} {
				for i := range d.Data {
					for j := range d.Data[i] {
						d.Data[i][j] = -5
					}
				}
				for i := range d.Labels {
					d.Labels[i] = -9
				}
				for i := range d.Keys {
					d.Keys[i] = "changed"
				}
			}
		}
		if !sameDB(keep, D) {
			return "", fmt.Errorf("changing the folds changed the original data")
		}
	}
	return sig.String(), nil
}

// specialFolds checks that folds carry rows, labels and names exactly: special values, any number of names.
func specialFolds(n, nfold int, copies bool, special []float64, first, keys int, seed uint64) error {
	D := &utils.DataBunch{}
	switch keys {
	case 1:
		D.Keys = []string{"a"}
	case 2:
		D.Keys = []string{"a", "b"}
	case 3:
		D.Keys = []string{"a", "", "a", "a", "e", "f"}
	case 4:
		D.Keys = []string{"", "", ""}
	case 5:
		D.Keys = []string{"x", "y", "z"}
	}
	for i := 0; i < n; i++ {
		row := []float64{special[(first+i)%len(special)], float64(i), special[(first+3*i+1)%len(special)]}
		if first%3 == 1 {
			row = []float64{float64(i), row[0]}
		}
		D.Data = append(D.Data, row)
		D.Labels = append(D.Labels, []int{i % 2, math.MinInt64, math.MaxInt64, 1, 0}[i%5])
	}
	at := 1
	if first%3 == 1 {
		at = 0
	}
	vrand.Provider = &stream{seed}
	defer func() { vrand.Provider = nil }()
	var args []bool
	if copies {
		args = []bool{true}
	}
	keep := copyDB(D)
	k, next, _ := utils.CrossValidationSamples(D, nfold, args...)
	if want := expectFolds(n, nfold); k != want {
		return fmt.Errorf("%d folds, should be %d", k, want)
	}
	tested := make([]int, n)
	for f := 0; f < k; f++ {
		train, test := next()
		seen := make([]bool, n)
		for p, d := range []*utils.DataBunch{train, test} {
			if !slices.Equal(d.Keys, keep.Keys) {
				return fmt.Errorf("names %q, were %q", d.Keys, keep.Keys)
			}
			if len(d.Labels) != len(d.Data) {
				return fmt.Errorf("%d labels for %d rows", len(d.Labels), len(d.Data))
			}
			for i, row := range d.Data {
				id := -1
				if len(row) > at {
					id = int(row[at])
				}
				if id < 0 || id >= n || seen[id] || !eqBits(row, keep.Data[id]) || d.Labels[i] != keep.Labels[id] {
					return fmt.Errorf("row %v, label %d in fold %d of %v, %v", row, d.Labels[i], f, keep.Data, keep.Labels)
				}
				seen[id] = true
				tested[id] += p
			}
		}
		if slices.Contains(seen, false) {
			return fmt.Errorf("fold %d does not have every sample", f)
		}
	}
	for i, t := range tested {
		if t != 1 {
			return fmt.Errorf("sample %d is in %d test sets", i, t)
		}
	}
	for i, r := range keep.Data {
		if !eqBits(r, D.Data[i]) {
			return fmt.Errorf("the dataset was changed")
		}
	}
	return nil
}

// folder answers IntN cyclically, starting where the chooser says at each draw.
type folder struct {
	h    *chooser
	next int
	left int
	f    float64
}

func (a *folder) Float64() float64 { return a.f }
func (a *folder) Uint64() uint64   { a.next++; return mix(uint64(a.next)) }
func (a *folder) IntN(n int) int {
	d := 0
	if a.left > 0 {
		a.left--
		d = a.h.choose(n)
	}
	v := (a.next + d) % n
	a.next = v + 1
	return v
}

func checkC11(c *ctx) {
	c.family("every draw sequence")
	maxn := 6
	dev := 3
	if c.thorough() {
		maxn, dev = 8, 4
	}
	_ = dev
	for n := 0; n <= 14; n++ {
		for nfold := -1; nfold <= n+2; nfold++ {
			for mode := 0; mode < 4; mode++ {
				copies, labelled := mode&1 == 1, mode&2 == 0
				n, nfold := n, nfold
				maxDev := -1
				limit := 0
				if n > maxn {
					maxDev = 2
				} else if n > 4 {
					maxDev = 3
				}
				if mode > 1 && n > 5 {
					maxDev = 1
				}
				c.run(func() string {
					return fmt.Sprintf("%d samples, %d-fold, copies %v, labels %v", n, nfold, copies, labelled)
				}, func() error {
					var err error
					seen := map[string]bool{}
					enumerate(maxDev, limit, func(h *chooser) {
						if err != nil {
							return
						}
						var s string
						var e error
						e = guard(func() error {
							var e error
							s, e = checkFolds(n, nfold, copies, labelled, &folder{h: h, left: n})
							return e
						})
						c.transition(1)
						if e != nil {
							err = fmt.Errorf("draws %v: %v", h, e)
							return
						}
						if !seen[s] {
							seen[s] = true
							c.outcome(s)
						}
					})
					c.state(len(seen))
					c.trace()
					if n >= 4 {
						c.nontrivial(fmt.Sprint(c.idx))
					}
					return err
				})
			}
		}
	}
	c.family("special values and names")
	special := []float64{math.Inf(1), math.Inf(-1), math.NaN(), 0, math.Copysign(0, -1), math.MaxFloat64, 5e-324, 1 << 53, 0.1, -1e-310}
	for n := 4; n <= 12; n++ {
		for nfold := 0; nfold <= n/2; nfold++ {
			for v := 0; v < 3*len(special)*4; v++ {
				if nfold == 1 {
					continue
				}
				copies, first, keys := v%2 == 1, v/12, v/2%6
				c.run(func() string {
					return fmt.Sprintf("%d samples, %d-fold, copies %v, special values from %d, names %d", n, nfold, copies, first, keys)
				}, func() error { return specialFolds(n, nfold, copies, special, first, keys, uint64(v)) })
			}
		}
	}
	c.family("larger datasets")
	for _, n := range []int{20, 33, 64, 101, 130, 150, 203, 260, 515, 1030} {
		for _, nfold := range []int{0, 2, 3, 4, 5, 7, 10, 11, 16, 33, 50, 51, 101, 200, 300} {
			if n > 300 && nfold > 16 {
				continue
			}
			for seed := 0; seed < 8; seed++ {
				n, nfold, seed := n, nfold, seed
				c.run(func() string { return fmt.Sprintf("%d samples, %d-fold, stream %d", n, nfold, seed) }, func() error {
					_, err := checkFolds(n, nfold, seed%2 == 0, seed%3 != 0, &stream{uint64(seed)})
					c.transition(1)
					c.state(1)
					return err
				})
			}
		}
	}
}

// ---- the training environment, recorded or replaced ----

type eval struct {
	o     boo.Options // as at the time of training
	ptr   *boo.Options
	train *utils.DataBunch
	test  *utils.DataBunch
	m     *boo.MultiClass
	acc   float64
	def   bool // no options were given
}

type recorder struct {
	evals []*eval
	// env, if set, gives the accuracy instead of training; fold counts the trainings with these options
	env func(o *boo.Options) float64
	// byIndex, if set, gives the accuracy of the i-th ensemble trained instead of training
	byIndex func(i int) float64
}

var dummy *boo.MultiClass

// dummyModel gives a new model (a copy).
func dummyModel() *boo.MultiClass {
	if dummy != nil {
		m := *dummy
		return &m
	}
	m, _, err := craft([]int{1, 4}, 0.3, 0.5, true, [][]*node{{lf(1), lf(0)}})
	if err != nil {
		panic("harness: dummy model: " + err.Error())
	}
	dummy = m
	return dummyModel()
}

func (r *recorder) install() {
	boo.VerifNewMultiClass = func(D *utils.DataBunch, opts []*boo.Options, orig func() *boo.MultiClass) *boo.MultiClass {
		e := &eval{train: D}
		if len(opts) > 0 && opts[0] != nil {
			e.o, e.ptr = *opts[0], opts[0]
		} else {
			e.o, e.def = *boo.DefaultXOptions(), true
		}
		if r.env != nil || r.byIndex != nil {
			e.m = dummyModel()
		} else {
			e.m = orig()
		}
		e.acc = math.NaN()
		r.evals = append(r.evals, e)
		return e.m
	}
	boo.VerifAccuracy = func(M *boo.MultiClass, D *utils.DataBunch, orig func() float64) float64 {
		for i, e := range r.evals {
			if e.m == M {
				e.test = D
				if r.byIndex != nil {
					e.acc = r.byIndex(i)
				} else if r.env != nil {
					o := e.o
					e.acc = r.env(&o)
				} else {
					e.acc = orig()
				}
				return e.acc
			}
		}
		return orig()
	}
}

// scored tells whether the accuracy of every ensemble trained was asked for.
func (r *recorder) scored() bool {
	for _, e := range r.evals {
		if math.IsNaN(e.acc) {
			return false
		}
	}
	return len(r.evals) > 0
}

func (r *recorder) remove() { boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil }

// perThread draws deterministically per goroutine, without state shared between goroutines.
type perThread struct{ seed uint64 }

func (p perThread) Uint64() uint64 {
	h := uint64(14695981039346656037) ^ p.seed
	for _, b := range []byte(vsched.ThreadPath()) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return mix(h + vsched.RandStep()*0x9e3779b97f4a7c15)
}
func (p perThread) Float64() float64 { return float64(p.Uint64()>>11) / (1 << 53) }
func (p perThread) IntN(n int) int {
	if n == 2 {
		return int(p.Uint64() & 1)
	}
	return int((p.seed + vsched.RandStep()) % uint64(n))
}

// underSched runs f as the main goroutine of explored executions; check sees each of them.
func underSched(c *ctx, maxExecs int, f func(), check func(r *vsched.Result) error) error {
	var err error
	e := &vsched.Explorer{Body: f, MaxExecs: maxExecs, MaxSteps: 200000, MaxDev: -1, Preempt: -1}
	e.Explore(func(r *vsched.Result) bool {
		err = check(r)
		if err != nil {
			err = fmt.Errorf("%v\nschedule (thread of each step): %v\ntrace: %v", err, cut(fmt.Sprint(r.Schedule), 1500), cut(strings.Join(r.Trace, " "), 2500))
		}
		return err == nil
	})
	c.state(e.Execs)
	c.transition(e.Transitions)
	if e.Capped {
		c.note(fmt.Sprintf("an exploration was capped at %d executions", maxExecs))
	}
	return err
}

func clean(r *vsched.Result) error {
	if len(r.Panics) > 0 {
		return fmt.Errorf("%s", r.Panics[0])
	}
	if r.Horizon {
		return fmt.Errorf("did not end within the step limit")
	}
	if !r.MainDone {
		return fmt.Errorf("deadlock: %v", r.Blocked)
	}
	if len(r.Blocked) > 0 {
		return fmt.Errorf("goroutines that can never finish: %v", r.Blocked)
	}
	if r.Races > 0 {
		return fmt.Errorf("%d data race(s)", r.Races)
	}
	return nil
}

// ---- C12 ----

// cvData: rows {i, ...}, labels by pattern.
func cvData(n, pat int) *utils.DataBunch {
	d := &utils.DataBunch{Keys: []string{"f", "g"}}
	for i := 0; i < n; i++ {
		d.Data = append(d.Data, []float64{float64(i), float64((i * 7) % 5)})
		l := 0
		switch pat {
		case 0:
			l = i % 2
		case 1:
			l = (i / 3) % 3
		case 2:
			l = b2i((i*i)%7 > 2) * 4
		case 3:
			l = 2
		}
		d.Labels = append(d.Labels, l)
	}
	return d
}

func rowIDs(d *utils.DataBunch) []int {
	var r []int
	for _, v := range d.Data {
		r = append(r, int(v[0]))
	}
	return r
}

// heldOut checks the recorded trainings of one cross-validation of D and gives the mean held-out accuracy.
func heldOut(D *utils.DataBunch, nf int, evals []*eval, want *boo.Options, given bool) (float64, bool, error) {
	n := len(D.Data)
	if len(evals) != nf {
		return 0, false, fmt.Errorf("%d ensembles were trained for %d folds", len(evals), nf)
	}
	times := make([]int, n)
	sum := 0.0
	skipped := false
	for i, e := range evals {
		in := make([]bool, n)
		for j, row := range e.train.Data {
			k := int(row[0])
			if k < 0 || k >= n || !eqBits(row, D.Data[k]) || in[k] || len(e.train.Labels) != len(e.train.Data) || e.train.Labels[j] != D.Labels[k] {
				return 0, false, fmt.Errorf("training set %d: %v with labels %v", i, e.train.Data, e.train.Labels)
			}
			in[k] = true
		}
		out := &utils.DataBunch{}
		for k := range in {
			if !in[k] {
				out.Data = append(out.Data, D.Data[k])
				out.Labels = append(out.Labels, D.Labels[k])
				times[k]++
			}
		}
		if len(out.Data) == 0 {
			return 0, false, fmt.Errorf("training set %d has all the samples", i)
		}
		if want == nil && !e.def && !reflect.DeepEqual(e.o, *boo.DefaultXOptions()) || want != nil && !reflect.DeepEqual(e.o, *want) {
			return 0, false, fmt.Errorf("fold %d was trained with %+v, requested were %+v", i, e.o, want)
		}
		if e.test != nil {
			a, b := rowIDs(e.test), rowIDs(out)
			slices.Sort(a)
			if !slices.Equal(a, b) {
				return 0, false, fmt.Errorf("fold %d: trained on %v, scored on %v", i, rowIDs(e.train), rowIDs(e.test))
			}
			for j, row := range e.test.Data {
				if e.test.Labels[j] != D.Labels[int(row[0])] {
					return 0, false, fmt.Errorf("fold %d: labels of the test set are %v", i, e.test.Labels)
				}
			}
		}
		if e.m.Rounds(0) <= 0 {
			skipped = true
			continue
		}
		if given && !math.IsNaN(e.acc) { // the environment's accuracy
			sum += e.acc
			continue
		}
		right := 0
		for k, row := range out.Data {
			if e.m.ClassLabels()[e.m.PredictSingleClass(row)] == out.Labels[k] {
				right++
			}
		}
		sum += 100 * float64(right) / float64(len(out.Data))
	}
	for i, v := range times {
		if v != 1 {
			return 0, false, fmt.Errorf("sample %d was held out %d times", i, v)
		}
	}
	return sum / float64(nf), skipped, nil
}

func checkC12(c *ctx) {
	c.family("direct and through channels")
	ns := []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 14}
	for _, n := range ns {
		for _, nfold := range []int{0, 1, 2, 3, 4, 5, 8} {
			for pat := 0; pat < 4; pat++ {
				for oi := 0; oi < 6; oi++ {
					for seed := 0; seed < 3; seed++ {
						n, nfold, pat, oi, seed := n, nfold, pat, oi, seed
						mk := func() *boo.Options {
							var o *boo.Options
							switch oi {
							case 0:
								return nil
							case 1:
								o = xopts(0)
								o.Rounds, o.MinChildWeight, o.MaxDepth, o.SubSample, o.MinSample = 2, 1, 2, 0.8, 2
							case 2:
								o = gopts(1)
								o.Rounds, o.MinChildWeight = 2, 1
							case 3:
								o = xopts(1)
								o.Rounds, o.EarlyStop, o.LearningRate, o.TreeMethod, o.BaseScore, o.MinSample = 1, 3, 0.9, "foo", 0.1, 3
							case 4:
								o = boo.DefaultGOptions()
								o.Rounds = 1
							case 5: // some or all folds give no ensemble
								o = xopts(0)
								o.Rounds, o.SubSample, o.MinSample = 1, 0.5, n/2
							}
							return o
						}
						c.run(func() string {
							return fmt.Sprintf("%d samples, labels %d, %d-fold, options %+v, draws %d", n, pat, nfold, mk(), seed)
						}, func() error {
							return cvOnce(c, n, nfold, pat, mk, uint64(seed), nil)
						})
					}
				}
			}
		}
	}
	// accuracies given by the environment
	c.family("every tuple of accuracies")
	av := []float64{0, 100.0 / 3, 50, 99.95, 100}
	for nf := 2; nf <= 4; nf++ {
		tuples(nf, len(av), func(ix []int) {
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprintf("%d folds, accuracies %v of %v", nf, ix, av) }, func() error {
				return cvOnce(c, 8, nf, 0, func() *boo.Options { return xopts(0) }, uint64(len(ix)), func(i int) float64 { return av[ix[i%nf]] })
			})
		})
	}
	c.family("larger data and unusual options")
	for _, n := range []int{20, 41, 66, 101, 130, 260, 515} {
		for _, nfold := range []int{2, 5, 7, 10, 11, 12, 20, 50} {
			for oi, set := range unusual {
				if (oi+n+nfold)%4 != 0 && !c.thorough() {
					continue
				}
				mk := func() *boo.Options {
					o := xopts(oi % 2)
					if oi%3 == 2 {
						o = gopts(oi % 2)
					}
					set(o)
					return o
				}
				c.run(func() string { return fmt.Sprintf("%d samples, %d-fold, options %+v", n, nfold, mk()) }, func() error {
					return cvOnce(c, n, nfold, oi%3, mk, uint64(n+oi), func(i int) float64 { return float64(mix(uint64(i*31+n))%1001) / 10 })
				})
			}
		}
	}
	for oi, set := range unusual { // really trained
		mk := func() *boo.Options {
			o := xopts(oi % 2)
			o.MinChildWeight = 1
			set(o)
			o.Rounds = min(o.Rounds, 12)
			return o
		}
		for _, n := range []int{30, 45, 90} {
			c.run(func() string { return fmt.Sprintf("trained: %d samples, options %+v", n, mk()) }, func() error {
				return cvOnce(c, n, 2+oi%3, oi%3, mk, uint64(n+oi), nil)
			})
		}
	}
}

// unusual are settings far from the defaults.
var unusual = []func(o *boo.Options){
	func(o *boo.Options) { o.EarlyStop = 100 },
	func(o *boo.Options) { o.EarlyStop = 1 },
	func(o *boo.Options) { o.Rounds = 5000 },
	func(o *boo.Options) { o.LearningRate = 1e-5 },
	func(o *boo.Options) { o.LearningRate = 50 },
	func(o *boo.Options) { o.SubSample, o.MinSample = 0.01, 1 },
	func(o *boo.Options) { o.ColSubSample = 0.001 },
	func(o *boo.Options) { o.MinSample = 1000 },
	func(o *boo.Options) { o.Lambda = 300 },
	func(o *boo.Options) { o.Lambda = 0 },
	func(o *boo.Options) { o.Gamma = 70 },
	func(o *boo.Options) { o.MinChildWeight = 500 },
	func(o *boo.Options) { o.MinChildWeight = 1.999 },
	func(o *boo.Options) { o.MaxDepth = 100 },
	func(o *boo.Options) { o.MaxDepth = 1 },
	func(o *boo.Options) { o.BaseScore = -20 },
	func(o *boo.Options) { o.BaseScore = 1e6 },
	func(o *boo.Options) { o.TreeMethod = "" },
	func(o *boo.Options) { o.MinSample = 0 },
}

func cvOnce(c *ctx, n, nfold, pat int, mk func() *boo.Options, seed uint64, accs func(i int) float64) error {
	D := cvData(n, pat)
	keep := copyDB(D)
	vrand.Provider = perThread{seed}
	defer func() { vrand.Provider = nil }()
	defer func() { boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil }()
	nf := expectFolds(n, nfold)
	fail := n < 4 || nfold == 1
	var direct float64
	var directSkipped bool
	// direct
	err := underSched(c, 50, func() {
		rec := &recorder{byIndex: accs}
		rec.install()
		o := mk()
		keepO := mk()
		acc, err := cv.MultiClassCrossValidation(D, nfold, &cv.Options{O: o})
		rec.remove()
		if fail {
			if err == nil {
				panic(fmt.Sprintf("%d samples, %d-fold: accuracy %v and no error", n, nfold, acc))
			}
			if len(rec.evals) > 0 {
				panic("ensembles were trained on data too small to fold")
			}
			return
		}
		if err != nil {
			panic(fmt.Sprintf("error %v", err))
		}
		if !reflect.DeepEqual(o, keepO) {
			panic(fmt.Sprintf("cross-validation changed the options from %+v to %+v", keepO, o))
		}
		want, skipped, e := heldOut(D, nf, rec.evals, keepO, accs != nil)
		if e != nil {
			panic(e.Error())
		}
		if !skipped && !near(acc, want, 1e-9) {
			panic(fmt.Sprintf("accuracy %v reported, the mean over the folds is %v", acc, want))
		}
		direct, directSkipped = acc, skipped
		c.trace()
		c.nontrivial(fmt.Sprint(c.idx))
		c.outcome(fmt.Sprint(acc))
	}, clean)
	if err != nil {
		return err
	}
	_ = directSkipped
	if !sameDB(keep, D) {
		return fmt.Errorf("cross-validation changed the data")
	}
	// through channels, unbuffered and buffered, receiving in both orders
	for _, buf := range []int{0, 1} {
		for order := 0; order < 2; order++ {
			if buf == 0 && order == 1 {
				continue // the order of an unbuffered protocol is error, accuracy, options
			}
			err := underSched(c, 200, func() {
				rec := &recorder{byIndex: accs}
				rec.install()
				defer rec.remove()
				o := mk()
				keepO := mk()
				op := &cv.Options{O: o, Conc: true, Acc: make(chan float64, buf), Err: make(chan error, buf), Ochan: make(chan *boo.Options, buf)}
				// the draws are a goroutine's own: run it directly below the main one as above
				var retAcc float64
				var retErr error
				done := make(chan bool, 1)
				vsched.Go(func() {
					retAcc, retErr = cv.MultiClassCrossValidation(D, nfold, op)
					vsched.SendTo(done)(true)
				})
				var err error
				var acc float64
				var oo *boo.Options
				if order == 0 {
					err = vsched.Recv(op.Err)
					acc = vsched.Recv(op.Acc)
					oo = vsched.Recv(op.Ochan)
				} else {
					oo = vsched.Recv(op.Ochan)
					acc = vsched.Recv(op.Acc)
					err = vsched.Recv(op.Err)
				}
				vsched.Recv(done)
				if fail {
					if err == nil || retErr == nil || oo != nil || acc >= 0 {
						panic(fmt.Sprintf("data too small: accuracy %v, options %v, error %v; returned error %v", acc, oo, err, retErr))
					}
					if err.Error() != retErr.Error() {
						panic(fmt.Sprintf("error %v through the channel, %v returned", err, retErr))
					}
					return
				}
				if err != nil || retErr != nil {
					panic(fmt.Sprintf("errors %v, %v", err, retErr))
				}
				if oo != o || !reflect.DeepEqual(oo, keepO) {
					panic(fmt.Sprintf("options %v through the channel, given were %v", oo, o))
				}
				want, skipped, e := heldOut(D, nf, rec.evals, keepO, accs != nil)
				if e != nil {
					panic(e.Error())
				}
				if !skipped && !near(acc, want, 1e-9) || !near(acc, retAcc, 1e-9) {
					panic(fmt.Sprintf("accuracy %v through the channel, %v returned, the mean over the folds is %v", acc, retAcc, want))
				}
			}, clean)
			if err != nil {
				return fmt.Errorf("through channels (buffers of %d, order %d): %v", buf, order, err)
			}
		}
	}
	_ = direct
	if !sameDB(keep, D) {
		return fmt.Errorf("cross-validation changed the data")
	}
	return nil
}

// ---- C13 ----

type axis struct {
	name string
	lo   float64
	step float64
	set  func(g *cv.GridOptions, lo, hi, step float64)
	get  func(o *boo.Options) float64
}

var axes = []axis{
	{"Rounds", 2, 3, func(g *cv.GridOptions, a, b, s float64) { g.Rounds = [3]int{int(a), int(b), int(s)} }, func(o *boo.Options) float64 { return float64(o.Rounds) }},
	{"MaxDepth", 2, 1, func(g *cv.GridOptions, a, b, s float64) { g.MaxDepth = [3]int{int(a), int(b), int(s)} }, func(o *boo.Options) float64 { return float64(o.MaxDepth) }},
	{"LearningRate", 0.125, 0.25, func(g *cv.GridOptions, a, b, s float64) { g.LearningRate = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.LearningRate }},
	{"Gamma", 0, 0.5, func(g *cv.GridOptions, a, b, s float64) { g.Gamma = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.Gamma }},
	{"Lambda", 0.5, 0.75, func(g *cv.GridOptions, a, b, s float64) { g.Lambda = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.Lambda }},
	{"SubSample", 0.5, 0.125, func(g *cv.GridOptions, a, b, s float64) { g.SubSample = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.SubSample }},
	{"ColSubSample", 0.25, 0.25, func(g *cv.GridOptions, a, b, s float64) { g.ColSubSample = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.ColSubSample }},
	{"MinChildWeight", 1, 2, func(g *cv.GridOptions, a, b, s float64) { g.MinChildWeight = [3]float64{a, b, s} }, func(o *boo.Options) float64 { return o.MinChildWeight }},
}

// gridOf builds grid options with count[i] values on axis i; frac says where the maximum lies beyond the last value.
func gridOf(count []int, frac float64, xgb bool, early, ncpu int) *cv.GridOptions {
	g := cv.DefaultXGridOptions()
	g.XGB, g.EarlyStop, g.NCPUs = xgb, early, ncpu
	for i, a := range axes {
		hi := a.lo + a.step*float64(count[i]-1)
		if a.name != "Rounds" && a.name != "MaxDepth" {
			hi += a.step * frac
		} else if a.name == "Rounds" && frac > 0 {
			hi += 2
		}
		a.set(g, a.lo, hi, a.step)
	}
	return g
}

func point(o *boo.Options) string {
	var b strings.Builder
	for _, a := range axes {
		fmt.Fprintf(&b, "%v ", a.get(o))
	}
	return b.String()
}

// grid of accuracy functions
var accFuncs = []struct {
	name string
	f    func(o *boo.Options) float64
}{
	{"hash", func(o *boo.Options) float64 { return float64(mix(hash(point(o)))%1000) / 10 }},
	{"hash, many ties", func(o *boo.Options) float64 { return float64(mix(hash("t"+point(o)))%3) * 25 }},
	{"all zero", func(o *boo.Options) float64 { return 0 }},
	{"all 100", func(o *boo.Options) float64 { return 100 }},
	{"last is best", func(o *boo.Options) float64 {
		s := 0.0
		for i, a := range axes {
			s += (a.get(o) - a.lo) / a.step * math.Pow(0.5, float64(i))
		}
		return 10 + 5*s
	}},
	{"first is best", func(o *boo.Options) float64 {
		s := 0.0
		for i, a := range axes {
			s += (a.get(o) - a.lo) / a.step * math.Pow(0.5, float64(i))
		}
		return 90 - 5*s
	}},
	{"almost equal", func(o *boo.Options) float64 {
		return 64 + []float64{0, 1, 2, 8, 70000, 140000}[mix(hash("e"+point(o)))%6]*0x1p-46
	}},
	{"zero or tiny", func(o *boo.Options) float64 { return float64(mix(hash("z"+point(o)))%2) * 1e-3 }},
}

func checkC13(c *ctx) {
	type gcase struct {
		count []int
		frac  float64
	}
	ones := func() []int { return []int{1, 1, 1, 1, 1, 1, 1, 1} }
	var gs []gcase
	for _, fr := range []float64{0, 0.5} {
		gs = append(gs, gcase{ones(), fr})
		for i := range axes {
			for k := 2; k <= 4; k++ {
				x := ones()
				x[i] = k
				gs = append(gs, gcase{x, fr})
			}
			for j := i + 1; j < len(axes); j++ {
				x := ones()
				x[i], x[j] = 2, 3
				if (i+j)%2 == 0 {
					x[i], x[j] = 3, 2
				}
				gs = append(gs, gcase{x, fr})
			}
		}
		for i := range axes {
			x := ones()
			x[i], x[(i+3)%8], x[(i+5)%8] = 2, 2, 3
			gs = append(gs, gcase{x, fr})
		}
		if c.thorough() {
			for m := 0; m < 256; m++ {
				x := ones()
				for i := range x {
					if m>>i&1 == 1 {
						x[i] = 2
					}
				}
				gs = append(gs, gcase{x, fr})
			}
		} else {
			gs = append(gs, gcase{[]int{2, 2, 2, 2, 2, 2, 1, 1}, fr})
		}
	}
	// no combination at all is not in the space; a maximum below the minimum gives none
	c.family("grids")
	for gi, g := range gs {
		total := 1
		for _, v := range g.count {
			total *= v
		}
		var ncpus []int
		for k := -1; k <= total+1; k++ {
			if total > 6 && k > 4 && k != total-1 && k != total && k != total+1 && k != 7 {
				continue
			}
			if total > 24 && k > 7 {
				continue
			}
			ncpus = append(ncpus, k)
		}
		for _, nc := range ncpus {
			for fi := range accFuncs {
				if c.quick && fi > 1 && (gi+nc+fi)%3 != 0 {
					continue
				}
				xgb := (gi+fi)%2 == 0
				early := (gi + nc + fi) % 4
				af := accFuncs[fi]
				c.run(func() string {
					return fmt.Sprintf("values per axis %v, maximum %v steps further, %d workers, accuracies: %s, xgb=%v, early stop %d", g.count, g.frac, nc, af.name, xgb, early)
				}, func() error {
					return gridOnce(c, g.count, g.frac, xgb, early, nc, af.f, 8, 3)
				})
			}
		}
	}
	c.family("large grids and values")
	for gi, mk := range largeGrids {
		for _, nc := range []int{1, 5, 9, 17, 33, 64, 100, 200} {
			for fi := range accFuncs[:2] {
				for _, xgb := range []bool{true, false} {
					c.run(func() string { return fmt.Sprintf("large grid %d, %d workers, accuracies %d, xgb %v", gi, nc, fi, xgb) }, func() error {
						g := cv.DefaultXGridOptions()
						for i, a := range axes {
							a.set(g, a.lo, a.lo, axes[i].step)
						}
						g.XGB, g.EarlyStop, g.NCPUs = xgb, []int{0, 300}[gi%2], nc
						mk(g)
						return gridRun(c, g, gridPoints(g, accFuncs[fi].f), accFuncs[fi].f, 8, 2)
					})
				}
			}
		}
	}
	c.family("steps")
	ints := [][3]int{{1, 1, 1}, {1, 2, 1}, {1, 5, 1}, {3, 9, 1}, {2, 3, 2}, {2, 4, 2}, {2, 5, 2}, {7, 20, 5}, {7, 22, 5}, {1, 11, 10}, {5, 104, 100}, {5, 105, 100}, {4, 4, 1000}, {2, 1<<31 - 1, 1 << 29}}
	floats := [][3]float64{{0, 0, 1}, {0, 1, 1}, {0, 2, 1}, {1, 4, 1}, {1, 3.5, 1}, {0.5, 0.5, 9}, {0.5, 2.5, 2}, {0.25, 0.25 + 3*0.125, 0.125}, {0.25, 0.25 + 3.5*0.125, 0.125}, {1, 1 + 3*0x1p-20, 0x1p-20}, {0, 0x1p-40, 0x1p-42}, {3, 300, 99}, {2, 2.0000001, 0.5}, {1, 1.9999999, 0.5}}
	for i, a := range axes {
		for k := 0; k < 14; k++ {
			v := floats[k]
			if i < 2 {
				v = [3]float64{float64(ints[k][0]), float64(ints[k][1]), float64(ints[k][2])}
			}
			for _, other := range []int{-1, (i + 1 + k%7) % 8} {
				for nc := 1; nc <= 4; nc++ {
					for fi := range accFuncs {
						if fi == 4 || fi == 5 || fi != 6 && (fi+k+nc)%4 != 0 { // two of them need accuracies near the default grid
							continue
						}
						g := cv.DefaultXGridOptions()
						for _, b := range axes {
							b.set(g, b.lo, b.lo, b.step)
						}
						if other >= 0 {
							axes[other].set(g, axes[other].lo, axes[other].lo+2*axes[other].step, axes[other].step)
						}
						a.set(g, v[0], v[1], v[2])
						g.XGB, g.EarlyStop, g.NCPUs = (k+nc)%2 == 0, k%3, nc
						c.run(func() string {
							return fmt.Sprintf("%s from %v to %v step %v, also axis %d, %d workers, accuracies: %s", a.name, v[0], v[1], v[2], other, nc, accFuncs[fi].name)
						}, func() error {
							return gridRun(c, g, gridPoints(g, accFuncs[fi].f), accFuncs[fi].f, 8, 2)
						})
					}
				}
			}
		}
	}
	c.family("decimal steps")
	decimals := [][3]float64{{0.1, 0.5, 0.1}, {0.6, 0.9, 0.1}, {0.01, 0.8, 0.1}, {0.01, 0.5, 0.15}, {0.1, 0.3, 0.01}, {0.5, 2, 0.2}, {0.3, 0.7, 0.4}, {0.2, 0.25, 0.03}, {0.7, 0.7, 0.1}, {0.05, 0.951, 0.3}, {0.1, 1, 0.3}, {1.1, 3.3, 1.1}, {0.9, 1, 0.07}, {1, 1.0049, 0.001}, {0.9999, 1, 0.00003}}
	for i, a := range axes[2:] {
		for k, v := range decimals {
			for _, other := range []int{-1, (i + k) % 5} {
				for nc := 1; nc <= 4; nc++ {
					fi := []int{0, 1, 6, 7}[(k+nc)%4]
					g := cv.DefaultXGridOptions()
					for _, b := range axes {
						b.set(g, b.lo, b.lo, b.step)
					}
					if other >= 0 {
						b := axes[2:][(i+1+other)%6]
						w := decimals[(k*3+i+nc)%8]
						b.set(g, w[0], w[1], w[2])
					}
					a.set(g, v[0], v[1], v[2])
					g.XGB, g.EarlyStop, g.NCPUs = (k+nc)%2 == 0, k%3, nc
					c.run(func() string {
						return fmt.Sprintf("%s from %v to %v step %v, also axis %d, %d workers, accuracies: %s", a.name, v[0], v[1], v[2], other, nc, accFuncs[fi].name)
					}, func() error {
						want, err := decimalPoints(c, g, accFuncs[fi].f)
						if err != nil {
							return err
						}
						return gridRun(c, g, want, accFuncs[fi].f, 8, 2)
					})
				}
			}
		}
	}
	c.family("nil options, too small data")
	for n := 0; n < 4; n++ {
		for v := 0; v < 2; v++ {
			c.run(func() string { return fmt.Sprintf("no options (%d), %d samples", v, n) }, func() error {
				vrand.Provider = perThread{1}
				defer func() { vrand.Provider = nil }()
				var opts []*cv.GridOptions
				if v == 1 {
					opts = append(opts, nil)
				}
				return underSched(c, 50, func() {
					if acc, _, o, err := cv.Grid(cvData(n, 0), 2, opts...); err == nil {
						panic(fmt.Sprintf("no error for %d samples: %v %v", n, acc, o))
					}
				}, clean)
			})
		}
	}
	for n := 0; n < 4; n++ {
		for nc := 1; nc <= 3; nc++ {
			c.run(func() string { return fmt.Sprintf("%d samples, %d workers", n, nc) }, func() error {
				vrand.Provider = perThread{1}
				defer func() { vrand.Provider = nil }()
				return underSched(c, 50, func() {
					g := gridOf([]int{2, 1, 2, 1, 1, 1, 1, 1}, 0, true, 1, nc)
					acc, _, o, err := cv.Grid(cvData(n, 0), 2, g)
					if err == nil {
						panic(fmt.Sprintf("no error for %d samples: %v %v", n, acc, o))
					}
				}, clean)
			})
		}
	}
}

func gridOnce(c *ctx, count []int, frac float64, xgb bool, early, nc int, f func(*boo.Options) float64, n, nfold int) error {
	want := map[string]float64{}
	tuplesOf(count, func(ix []int) {
		o := *boo.DefaultXOptions()
		if !xgb {
			o = *boo.DefaultGOptions()
		}
		v := make([]float64, len(axes))
		for i, a := range axes {
			v[i] = a.lo + float64(ix[i])*a.step
		}
		o.Rounds, o.MaxDepth, o.LearningRate, o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.MinChildWeight = int(v[0]), int(v[1]), v[2], v[3], v[4], v[5], v[6], v[7]
		want[point(&o)] = f(&o)
	})
	return gridRun(c, gridOf(count, frac, xgb, early, nc), want, f, n, nfold)
}

// largeGrids are grids with many combinations, or values far from the defaults.
var largeGrids = []func(g *cv.GridOptions){
	func(g *cv.GridOptions) { g.Rounds = [3]int{1, 260, 2} },
	func(g *cv.GridOptions) { g.Rounds = [3]int{1, 100000, 9999} },
	func(g *cv.GridOptions) { g.MaxDepth = [3]int{2, 70, 1} },
	func(g *cv.GridOptions) { g.LearningRate = [3]float64{0.0078125, 4, 0.0625} },
	func(g *cv.GridOptions) { g.LearningRate = [3]float64{1, 100, 33} },
	func(g *cv.GridOptions) { g.Gamma = [3]float64{0, 40, 0.5} },
	func(g *cv.GridOptions) { g.Lambda = [3]float64{0, 64, 0.5} },
	func(g *cv.GridOptions) { g.SubSample = [3]float64{0.0078125, 1, 0.0078125} },
	func(g *cv.GridOptions) { g.ColSubSample = [3]float64{0.0078125, 1, 0.0078125} },
	func(g *cv.GridOptions) { g.MinChildWeight = [3]float64{1, 130, 0.5} },
	func(g *cv.GridOptions) {
		g.Rounds, g.MaxDepth, g.Lambda, g.Gamma = [3]int{5, 13, 4}, [3]int{2, 8, 2}, [3]float64{0, 1, 0.25}, [3]float64{0, 6, 3}
	},
	func(g *cv.GridOptions) { // the maximum just at, or below, the last value
		g.Lambda, g.Gamma = [3]float64{0, math.Nextafter(2, 0), 0.5}, [3]float64{1, 1, 0.5}
	},
}

// gridPoints gives the accuracy of every combination of a grid whose values are exact.
func gridPoints(g *cv.GridOptions, f func(*boo.Options) float64) map[string]float64 {
	n := func(lo, hi, s float64) int { return int(math.Floor((hi-lo)/s)) + 1 }
	count := []int{(g.Rounds[1]-g.Rounds[0])/g.Rounds[2] + 1, (g.MaxDepth[1]-g.MaxDepth[0])/g.MaxDepth[2] + 1}
	for _, v := range [][3]float64{g.LearningRate, g.Gamma, g.Lambda, g.SubSample, g.ColSubSample, g.MinChildWeight} {
		count = append(count, n(v[0], v[1], v[2]))
	}
	want := map[string]float64{}
	tuplesOf(count, func(ix []int) {
		at := func(v [3]float64, i int) float64 { return v[0] + float64(ix[i])*v[2] }
		var o boo.Options
		o.Rounds, o.MaxDepth = g.Rounds[0]+ix[0]*g.Rounds[2], g.MaxDepth[0]+ix[1]*g.MaxDepth[2]
		o.LearningRate, o.Gamma, o.Lambda = at(g.LearningRate, 2), at(g.Gamma, 3), at(g.Lambda, 4)
		o.SubSample, o.ColSubSample, o.MinChildWeight = at(g.SubSample, 5), at(g.ColSubSample, 6), at(g.MinChildWeight, 7)
		want[point(&o)] = f(&o)
	})
	return want
}

// decimalPoints runs a grid search and gives the accuracies of the combinations evaluated, after checking that they
// are those of the grid: every value (up to rounding) reached from the minimum by whole steps that is not above the
// maximum, where a value that equals the maximum but for rounding may be in or out, alike in all combinations.
func decimalPoints(c *ctx, g0 *cv.GridOptions, f func(*boo.Options) float64) (map[string]float64, error) {
	vrand.Provider = perThread{7}
	defer func() { vrand.Provider = nil }()
	rec := &recorder{env: f}
	var err error
	done := false
	if e := underSched(c, 1, func() {
		if done {
			return
		}
		done = true
		rec.install()
		defer rec.remove()
		gc := *g0
		_, _, _, err = cv.Grid(cvData(8, 0), 2, &gc)
	}, clean); e != nil {
		return nil, e
	}
	if err != nil {
		return nil, err
	}
	ranges := [][3]float64{g0.LearningRate, g0.Gamma, g0.Lambda, g0.SubSample, g0.ColSubSample, g0.MinChildWeight}
	used := make([]map[int]bool, len(ranges))
	for j := range used {
		used[j] = map[int]bool{}
	}
	want := map[string]float64{}
	seen := map[string]string{}
	for _, e := range rec.evals {
		ks := ""
		for j, v := range ranges {
			x := axes[2+j].get(&e.o)
			k := int(math.Round((x - v[0]) / v[2]))
			if k < 0 || math.Abs(x-(v[0]+float64(k)*v[2])) > 1e-9 || x > v[1]+1e-12 {
				return nil, fmt.Errorf("%s is %v in %+v, which is not in the grid", axes[2+j].name, x, e.o)
			}
			used[j][k] = true
			ks += fmt.Sprint(k, " ")
		}
		p := point(&e.o)
		if q, ok := seen[ks]; ok && q != p {
			return nil, fmt.Errorf("the combination (%s) was evaluated twice, also as (%s)", p, q)
		}
		seen[ks] = p
		o := e.o
		want[p] = f(&o)
	}
	total := 1
	for j, v := range ranges {
		n := 0
		for ; v[0]+float64(n)*v[2] < v[1]-1e-9; n++ {
			if !used[j][n] {
				return nil, fmt.Errorf("%s is never %v", axes[2+j].name, v[0]+float64(n)*v[2])
			}
		}
		if n == 0 && !used[j][0] {
			return nil, fmt.Errorf("%s is never %v", axes[2+j].name, v[0])
		}
		total *= len(used[j])
	}
	if len(want) != total {
		return nil, fmt.Errorf("%d combinations evaluated, %d values make %d", len(want), len(used), total)
	}
	return want, nil
}

func gridRun(c *ctx, g0 *cv.GridOptions, want map[string]float64, f func(*boo.Options) float64, n, nfold int) error {
	D := cvData(n, 0)
	keepD := copyDB(D)
	xgb, early := g0.XGB, g0.EarlyStop
	vrand.Provider = perThread{7}
	defer func() { vrand.Provider = nil }()
	defer func() { boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil }()
	nf := expectFolds(n, nfold)
	tol := 1e-9
	if nf == 2 { // the mean of two equal numbers is exact
		tol = 0
	}
	return underSched(c, 60, func() {
		rec := &recorder{env: f}
		rec.install()
		gc := *g0
		g := &gc
		acc, accs, o, err := cv.Grid(D, nfold, g)
		rec.remove()
		if err != nil {
			panic(fmt.Sprintf("error %v", err))
		}
		got := map[string]int{}
		scored := false
		for _, e := range rec.evals {
			if _, ok := want[point(&e.o)]; !ok {
				panic(fmt.Sprintf("evaluated %+v, which is not in the grid", e.o))
			}
			def := boo.DefaultXOptions()
			if !xgb {
				def = boo.DefaultGOptions()
			}
			if e.o.BaseScore != def.BaseScore || e.o.MinSample != def.MinSample || e.o.TreeMethod != def.TreeMethod || !reflect.DeepEqual(e.o.Loss, def.Loss) {
				panic(fmt.Sprintf("a setting that is not searched is not the default one: %+v", e.o))
			}
			if e.o.XGB != xgb || e.o.EarlyStop != early {
				panic(fmt.Sprintf("evaluated with xgb=%v and early stopping %d, requested %v and %d", e.o.XGB, e.o.EarlyStop, xgb, early))
			}
			if !math.IsNaN(e.acc) {
				scored = true
			}
			got[point(&e.o)]++
		}
		c.trace()
		for p := range want {
			if got[p] != nf {
				panic(fmt.Sprintf("the combination (%s) was trained %d times in %d-fold cross-validation", p, got[p], nf))
			}
		}
		if len(want) > 1 {
			c.nontrivial(fmt.Sprint(c.idx))
		}
		if !scored {
			c.note("accuracies were not observed")
			return
		}
		best := math.Inf(-1)
		var all []float64
		for _, a := range want {
			best = math.Max(best, a)
			all = append(all, a)
		}
		if !near(acc, best, tol) {
			panic(fmt.Sprintf("returned accuracy %v, the best one is %v", acc, best))
		}
		if o == nil {
			panic("no options returned")
		}
		a, ok := want[point(o)]
		if !ok {
			panic(fmt.Sprintf("returned options %+v are not in the grid", o))
		}
		if !near(a, best, tol) {
			panic(fmt.Sprintf("returned options %+v have accuracy %v, the best is %v", o, a, best))
		}
		if o.XGB != xgb || o.EarlyStop != early {
			panic(fmt.Sprintf("returned options have xgb=%v and early stopping %d, requested %v and %d", o.XGB, o.EarlyStop, xgb, early))
		}
		found := false
		for _, e := range rec.evals {
			if reflect.DeepEqual(e.o, *o) {
				found = true
			}
		}
		if !found {
			panic(fmt.Sprintf("returned options %+v were not evaluated", o))
		}
		s := slices.Clone(accs)
		sort.Float64s(s)
		sort.Float64s(all)
		if len(s) != len(all) {
			panic(fmt.Sprintf("%d accuracies returned for %d combinations: %v", len(s), len(all), accs))
		}
		for i := range s {
			if !near(s[i], all[i], tol) {
				panic(fmt.Sprintf("accuracies returned %v, obtained %v", s, all))
			}
		}
		if !sameDB(D, keepD) {
			panic("the data were changed")
		}
		c.outcome(fmt.Sprint(acc, point(o)))
	}, clean)
}

func tuplesOf(count []int, f func([]int)) {
	t := make([]int, len(count))
	for {
		f(t)
		i := len(t) - 1
		for ; i >= 0; i-- {
			t[i]++
			if t[i] < count[i] {
				break
			}
			t[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
}

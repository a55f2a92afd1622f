package main

// C24: models written by searches. C25: concurrent use of shared models and data. C26: printed forms.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	vrand "github.com/rmera/boo/zzverif/vrand"
	"github.com/rmera/boo/zzverif/vsched"
	"gonum.org/v1/gonum/mat"
)

// ---- C24 ----

// bestWriter observes a search: trainings on all the data are real, the others are answered.
type bestWriter struct {
	n      int                                 // number of samples
	env    func(i int, o *boo.Options) float64 // accuracy of the i-th evaluation
	models map[*boo.MultiClass]int
	opts   []*boo.Options
	full   map[string][]*boo.MultiClass // by options
	seen   map[string]int
}

func (b *bestWriter) install() {
	b.models, b.full, b.seen, b.opts = map[*boo.MultiClass]int{}, map[string][]*boo.MultiClass{}, map[string]int{}, nil
	boo.VerifNewMultiClass = func(D *utils.DataBunch, opts []*boo.Options, orig func() *boo.MultiClass) *boo.MultiClass {
		o := boo.DefaultXOptions()
		if len(opts) > 0 && opts[0] != nil {
			o = opts[0].Clone()
		}
		if len(D.Data) == b.n {
			m := orig()
			b.full[okey(o)] = append(b.full[okey(o)], m)
			return m
		}
		m := dummyModel()
		b.models[m] = len(b.opts)
		b.opts = append(b.opts, o)
		return m
	}
	boo.VerifAccuracy = func(M *boo.MultiClass, D *utils.DataBunch, orig func() float64) float64 {
		i, ok := b.models[M]
		if !ok {
			return orig()
		}
		k := okey(b.opts[i])
		if _, ok := b.seen[k]; !ok {
			b.seen[k] = len(b.seen)
		}
		return b.env(b.seen[k], b.opts[i])
	}
}

type written struct {
	search  func(D *utils.DataBunch, g *cv.GridOptions) (float64, []float64, *boo.Options, error)
	grid    *cv.GridOptions
	n       int
	env     func(i int, o *boo.Options) float64
	setting int // 0: empty folder; 1: longer file of that name; 2: a folder of that name; 3: a full device; 4: not asked to write
}

var fileName = regexp.MustCompile(`^xgbmodel(-?\d+)\.json$`)

// readBest checks the files in dir after a search.
func (w *written) readBest(dir string, D *utils.DataBunch, b *bestWriter, acc float64, best *boo.Options, err error) error {
	es, e := os.ReadDir(dir)
	if e != nil {
		return e
	}
	have := map[string]bool{}
	for _, x := range es {
		have[x.Name()] = true
	}
	if w.setting == 4 || err != nil {
		for f := range have {
			if raw, e := os.ReadFile(filepath.Join(dir, f)); w.setting != 1 || e != nil || string(raw) != oldFile {
				return fmt.Errorf("%s was written although the search failed", f)
			}
		}
		if len(have) > 0 && w.setting != 1 {
			return fmt.Errorf("files %v were written", have)
		}
		return nil
	}
	if best == nil {
		return fmt.Errorf("no options returned")
	}
	name := fmt.Sprintf("xgbmodel%d.json", int(acc))
	if w.setting == 2 || w.setting == 3 {
		return nil
	}
	if !have[name] {
		return fmt.Errorf("best accuracy %v, files written: %v", acc, have)
	}
	var texts []string
	for _, ms := range b.full {
		for _, m := range ms {
			t, e := modelText(m)
			if e != nil {
				return e
			}
			texts = append(texts, t)
		}
	}
	for f := range have {
		if !fileName.MatchString(f) {
			return fmt.Errorf("unexpected file %s", f)
		}
		raw, e := os.ReadFile(filepath.Join(dir, f))
		if e != nil {
			return e
		}
		if w.setting == 1 && f != name && string(raw) == oldFile {
			continue
		}
		m, e := loadModel(string(raw))
		if e != nil {
			return fmt.Errorf("%s, %d bytes, cannot be loaded: %v", f, len(raw), e)
		}
		if !slices.Contains(texts, string(raw)) {
			return fmt.Errorf("%s is not a model trained on all the data: %s", f, cut(string(raw), 600))
		}
		if f != name {
			k, _ := strconv.Atoi(fileName.FindStringSubmatch(f)[1])
			if float64(k) > acc {
				return fmt.Errorf("%s was written, the best accuracy is %v", f, acc)
			}
			continue
		}
		ok := false
		for _, x := range b.full[okey(best)] {
			t, e := modelText(x)
			ok = ok || e == nil && t == string(raw)
		}
		if !ok {
			return fmt.Errorf("%s is not a model trained with the best options (%s) on all the data", f, okey(best))
		}
		if !best.XGB || best.SubSample >= 1 && best.ColSubSample >= 1 {
			boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil
			ref := boo.NewMultiClass(copyDB(D), best.Clone())
			t, e := modelText(ref)
			if e != nil || t != string(raw) {
				return fmt.Errorf("%s differs from a model trained with the best options (%v):\n%s\nand\n%s", f, e, cut(string(raw), 800), cut(t, 800))
			}
		}
		for _, row := range D.Data {
			if e := distribution(m.PredictSingle(row)); e != nil {
				return fmt.Errorf("%s: %v", f, e)
			}
		}
	}
	return nil
}

var oldFile = strings.Repeat("old content\n", 3000)

func (w *written) run(c *ctx, cap int) error {
	vrand.Provider = perThread{7}
	defer func() {
		vrand.Provider = nil
		boo.VerifNewMultiClass, boo.VerifAccuracy = nil, nil
	}()
	wd, err := os.Getwd()
	if err != nil {
		return err
	}
	defer os.Chdir(wd)
	plain := ""
	var last error
	for _, asked := range []bool{false, true} { // the result without writing, then the search of the case
		if asked && w.setting == 4 {
			continue
		}
		err = underSched(c, cap, func() {
			last = nil
			dir, err := os.MkdirTemp(wd, "best")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			if err := os.Chdir(dir); err != nil {
				panic(err)
			}
			defer os.Chdir(wd)
			for k := 0; asked && k <= 100; k++ {
				f := fmt.Sprintf("xgbmodel%d.json", k)
				switch w.setting {
				case 1:
					err = os.WriteFile(f, []byte(oldFile), 0o644)
				case 2:
					err = os.Mkdir(f, 0o755)
				case 3:
					err = os.Symlink("/dev/full", f)
				}
				if err != nil {
					panic(err)
				}
			}
			D := cvData(w.n, 1)
			b := &bestWriter{n: w.n, env: w.env}
			b.install()
			g := w.grid.Clone()
			g.WriteBest = asked
			acc, accs, best, err := w.search(D, g)
			s := accSorted(acc, accs, best, err)
			if !asked {
				plain = s
				x := *w
				x.setting = 4
				last = x.readBest(dir, D, b, acc, best, err)
				return
			}
			if s != plain {
				panic(fmt.Sprintf("writing the best model changed the result from %s to %s", plain, s))
			}
			last = w.readBest(dir, D, b, acc, best, err)
		}, func(r *vsched.Result) error {
			if err := clean(r); err != nil {
				return err
			}
			return last
		})
		if err != nil {
			return err
		}
	}
	c.trace()
	c.outcome(plain)
	c.nontrivial(fmt.Sprint(c.idx))
	return nil
}

func checkC24(c *ctx) {
	grid := func(D *utils.DataBunch, g *cv.GridOptions) (float64, []float64, *boo.Options, error) {
		return cv.Grid(D, 2, g)
	}
	grad := func(D *utils.DataBunch, g *cv.GridOptions) (float64, []float64, *boo.Options, error) {
		return cv.GradientGrid(D, 2, g)
	}
	hyb := func(D *utils.DataBunch, g *cv.GridOptions) (float64, []float64, *boo.Options, error) {
		return cv.HybridGradientGrid(D, 2, g)
	}
	levels := []float64{0, 12.25, 12.75, 50, 99.9375, 100}
	base := func(xgb bool, sub float64, workers int) *cv.GridOptions {
		g := pgrid(xgb, true, 1)
		g.Rounds = [3]int{2, 2, 1}
		g.LearningRate = [3]float64{0.25, 0.5, 0.25}
		g.Gamma = [3]float64{0, 0, 1}
		g.Lambda = [3]float64{1, 1, 1}
		g.SubSample = [3]float64{sub, sub, 1}
		g.ColSubSample = [3]float64{sub, sub, 1}
		g.MaxDepth = [3]int{2, 2, 1}
		g.NCPUs = workers
		return g
	}
	one := func(name string, w *written, cap int) {
		c.run(func() string { return fmt.Sprintf("%s, %d samples, setting %d, %+v", name, w.n, w.setting, *w.grid) }, func() error { return w.run(c, cap) })
	}
	c.family("grid searches, every tuple of accuracies")
	for k := 1; k <= 3; k++ {
		tuples(k, len(levels), func(ix []int) {
			ix = slices.Clone(ix)
			for _, xgb := range []bool{true, false} {
				for workers := 1; workers <= 2; workers++ {
					for setting := 0; setting < 5; setting++ {
						if k == 3 && (setting > 1 || workers == 2 && c.quick) {
							continue
						}
						sub := 1.0
						if (k+workers+setting)%2 == 0 && xgb {
							sub = 0.75
						}
						g := base(xgb, sub, workers)
						g.LearningRate = [3]float64{0.25, 0.25 * float64(k), 0.25}
						one(fmt.Sprintf("grid search, accuracies %v", ix), &written{grid, g, 8, func(i int, o *boo.Options) float64 {
							return levels[ix[int(o.LearningRate*4)-1]]
						}, setting}, 30)
					}
				}
			}
		})
	}
	c.family("gradient and hybrid searches, every tuple of accuracies")
	for kind, s := range []func(*utils.DataBunch, *cv.GridOptions) (float64, []float64, *boo.Options, error){grad, hyb} {
		tuples(3, len(levels), func(ix []int) {
			ix = slices.Clone(ix)
			for setting := 0; setting < 5; setting++ {
				if setting > 1 && (ix[0]+ix[1]+ix[2])%3 != 0 {
					continue
				}
				xgb := (ix[0]+ix[1]+setting)%2 == 0
				sub := []float64{1, 0.75}[(ix[1]+ix[2])%2]
				g := base(xgb, sub, 1)
				g.MaxDepth = [3]int{2, 3, 1}
				g.NSteps = 1 + ix[2]%2
				g.Central = ix[0]%2 == 0
				one(fmt.Sprintf("search kind %d, accuracies %v", kind, ix), &written{s, g, 8, func(i int, o *boo.Options) float64 {
					if i < 3 {
						return levels[ix[i]]
					}
					return levels[(ix[i%3]+i)%len(levels)]
				}, setting}, 1)
			}
		})
	}
	c.family("larger models, too small data")
	for _, n := range []int{2, 3, 4, 5, 6, 40, 150} {
		for _, xgb := range []bool{true, false} {
			for kind, s := range []func(*utils.DataBunch, *cv.GridOptions) (float64, []float64, *boo.Options, error){grid, grad, hyb} {
				for setting := 0; setting < 2; setting++ {
					g := base(xgb, 1, 2)
					g.Rounds = [3]int{30, 30, 1}
					g.MaxDepth = [3]int{5, 5, 1}
					g.NSteps = 1
					one(fmt.Sprintf("search %d, large", kind), &written{s, g, n, func(i int, o *boo.Options) float64 {
						return levels[(i*5+1)%len(levels)]
					}, setting}, 1)
				}
			}
		}
	}
	c.family("many improvements")
	for _, cells := range []int{2, 5, 9, 17, 40} {
		for kind, s := range []func(*utils.DataBunch, *cv.GridOptions) (float64, []float64, *boo.Options, error){grid, grad, hyb} {
			for v := 0; v < 4; v++ {
				g := base(v%2 == 0, 1, 1+v/2)
				g.MinChildWeight = [3]float64{1, 1 + 0.125*float64(cells-1), 0.125}
				g.NSteps = v % 3
				one(fmt.Sprintf("search %d, %d improvements", kind, cells), &written{s, g, 8, func(i int, o *boo.Options) float64 {
					return min(100, float64(i)*[]float64{1, 0.25, 2.5, 0.75}[v])
				}, v % 2}, 1)
			}
		}
	}
	c.family("model sizes")
	for rounds := 1; rounds <= 100; rounds++ {
		for kind, s := range []func(*utils.DataBunch, *cv.GridOptions) (float64, []float64, *boo.Options, error){grid, grad, hyb} {
			for v := 0; v < 2; v++ {
				g := base(v == 0, 1, 1)
				g.LearningRate = [3]float64{0.25, 0.25, 0.25}
				g.Rounds = [3]int{rounds, rounds, 1}
				g.NSteps = 0
				one(fmt.Sprintf("search %d, %d rounds", kind, rounds), &written{s, g, 8 + rounds%3, func(i int, o *boo.Options) float64 { return 50 }, 0}, 1)
			}
		}
	}
}

// ---- C25 ----

type shared struct {
	s    *side
	D    *utils.DataBunch
	O    *boo.Options
	T    *boo.Tree
	text string
	U    *utils.DataBunch // without labels
	TO   []*boo.TreeOptions
	P    *mat.Dense
}

type sharedJob struct {
	name string
	f    func(x *shared) string
}

func sharedJobs() []sharedJob {
	return []sharedJob{
		{"train an ensemble", func(x *shared) string {
			m := boo.NewMultiClass(x.D, x.O)
			t, err := modelText(m)
			return fmt.Sprint(t, err)
		}},
		{"train an ensemble of the other kind", func(x *shared) string {
			o := mkopts(!x.O.XGB, 1)
			o.Rounds, o.MinSample = 2, 1
			t, err := modelText(boo.NewMultiClass(x.D, o))
			return fmt.Sprint(t, err)
		}},
		{"probabilities", func(x *shared) string {
			return fmt.Sprint(x.s.m.PredictSingle(x.D.Data[0]), x.s.m.PredictSingle(x.D.Data[3], make([]float64, 9)))
		}},
		{"classes", func(x *shared) string {
			return fmt.Sprint(x.s.m.PredictSingleClass(x.D.Data[1]), x.s.m.PredictSingleClass(x.D.Data[2], make([]float64, 9)))
		}},
		{"accuracy", func(x *shared) string { return fmt.Sprint(x.s.m.Accuracy(x.D)) }},
		{"labels, rounds, classes", func(x *shared) string {
			return fmt.Sprint(x.s.m.ClassLabels(), x.s.m.Rounds(), x.s.m.Rounds(1), x.s.m.Classes())
		}},
		{"importance", func(x *shared) string { return importance(x.s.m) }},
		{"save", func(x *shared) string { t, err := modelText(x.s.m); return fmt.Sprint(t, err) }},
		{"load and predict", func(x *shared) string {
			m, err := loadModel(x.text)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(m.PredictSingle(x.D.Data[0]), m.Rounds())
		}},
		{"confusions", func(x *shared) string {
			c := confu.MCConfusions(x.s.m, x.D)
			return fmt.Sprint(c.Matrix(), c.PrintTopN(1, confu.MakeSimpleNameMap(c.Labels)))
		}},
		{"folds", func(x *shared) string {
			n, next, err := utils.CrossValidationSamples(x.D, 2, true)
			r := fmt.Sprint(n, err)
			for i := 0; i < n; i++ {
				a, b := next()
				r += fmt.Sprint(a.Data, a.Labels, b.Data, b.Labels)
			}
			return r
		}},
		{"folds without copies", func(x *shared) string {
			n, next, err := utils.CrossValidationSamples(x.D, 3)
			r := fmt.Sprint(n, err)
			for i := 0; i < n; i++ {
				a, b := next()
				r += fmt.Sprint(a.Data, a.Labels, b.Data, b.Labels)
			}
			return r
		}},
		{"cross-validation", func(x *shared) string {
			a, err := cv.MultiClassCrossValidation(x.D, 2, &cv.Options{O: x.O})
			return fmt.Sprint(a, err)
		}},
		{"CSV and libSVM text", func(x *shared) string { return x.D.CSV() + x.D.LibSVM() + x.D.String() }},
		{"parse CSV and libSVM", func(x *shared) string {
			a, e1 := utils.ParseCSVFromReader(strings.NewReader("l,a,b\n1,2,3\n2,3,4.5"), true, true, ',')
			b, e2 := utils.ParseLibSVMFromReader(strings.NewReader("l 1:a 2:b\n1 1:2 2:3\n2 1:3 2:4.5"), true)
			return fmt.Sprint(a, e1, b, e2)
		}},
		{"one-hot labels", func(x *shared) string {
			m, l := x.D.OHELabels()
			return fmt.Sprint(m.RawMatrix().Data, l)
		}},
		{"options", func(x *shared) string {
			o := x.O.Clone()
			return fmt.Sprint(okey(o), o.Equal(x.O), x.O.Check() == nil, x.O.String())
		}},
		{"grow a tree", func(x *shared) string {
			o := boo.DefaultGTreeOptions()
			o.MaxDepth, o.MinChildWeight = 3, 1
			for i := range x.D.Data {
				o.Y = append(o.Y, float64((i*i)%4))
			}
			return fmt.Sprint(observe(boo.NewTree(x.D.Data, o)))
		}},
		{"predict with a tree", func(x *shared) string {
			return fmt.Sprint(x.T.Predict(x.D.Data, nil), x.T.PredictSingle(x.D.Data[1]), x.T.Branches(), x.T.Leaf())
		}},
		{"print and save a tree", func(x *shared) string {
			b, _, err := utils.JSONTree(x.T)
			return fmt.Sprint(string(slices.Concat(b...)), err, x.T.Print(""))
		}},
		{"importance of a tree", func(x *shared) string {
			f, err := x.T.FeatureImportance(false)
			if err != nil {
				return err.Error()
			}
			return f.String()
		}},
		{"text and folds of unlabelled data", func(x *shared) string {
			n, next, err := utils.CrossValidationSamples(x.U, 2, true)
			r := fmt.Sprint(n, err)
			for i := 0; i < n; i++ {
				a, b := next()
				r += fmt.Sprint(a.Data, len(a.Labels), b.Data, len(b.Labels))
			}
			return r + x.U.CSV(";") + x.U.LibSVM() + x.U.String()
		}},
		{"grow trees with shared options", func(x *shared) string {
			r := ""
			for _, o := range x.TO {
				t := boo.NewTree(x.D.Data, o)
				r += fmt.Sprint(observe(t), t.Branches())
			}
			return r
		}},
		{"matrices", func(x *shared) string {
			s := &utils.SQErrLoss{}
			m := &utils.MSELoss{}
			return fmt.Sprint(utils.PrintDenseMatrix(x.P), utils.SoftMaxDense(x.P, nil).RawMatrix().Data, utils.NormalizationDense(x.P, nil).RawMatrix().Data, boo.LogOddsFromProbs(x.P).RawMatrix().Data,
				boo.ClassesFromProbs(x.P).RawMatrix().Data, utils.DenseCol(x.P, 1).RawMatrix().Data, s.Loss(x.P, x.P, nil), s.Gradients(x.P, x.P, nil).RawMatrix().Data, m.Hessian(x.P, nil).RawMatrix().Data)
		}},
		{"sub-sampling", func(x *shared) string { return fmt.Sprint(boo.SubSample(6, 0.5)) }},
		{"numeric blocks", func(x *shared) string {
			i, v := utils.ArgSort([]float64{3, 1, 2})
			return fmt.Sprint(utils.SampleMatrix(x.D.Data, []int{0, 2}, []int{1}), utils.TransposeFloats(x.D.Data), i, v, utils.SoftMax([]float64{1, 2}, nil))
		}},
	}
}

func checkC25(c *ctx) {
	defer func() { vrand.Provider = nil }()
	jobs := sharedJobs()
	ms := makers()
	ms = append(ms[:8], ms[10])
	c.family("every pair of uses, all interleavings")
	cap := 500
	one := func(mk maker, ix []int) {
		ix = slices.Clone(ix)
		c.run(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, jobs[i].name)
			}
			return fmt.Sprintf("model: %s; goroutines: %s", mk.name, strings.Join(s, "; "))
		}, func() error {
			fresh := func() (*shared, error) {
				s, err := mk.f()
				if err != nil {
					return nil, err
				}
				x := &shared{s: s, D: copyDB(s.D), O: s.O}
				x.D.Keys = nil
				for j := range x.D.Data[0] {
					x.D.Keys = append(x.D.Keys, fmt.Sprintf("k%d", j))
				}
				if x.O == nil {
					x.O = mkopts(true, 0)
					x.O.Rounds, x.O.MinSample = 2, 1
				}
				to := boo.DefaultGTreeOptions()
				to.MaxDepth, to.MinChildWeight = 3, 1
				for i := range x.D.Data {
					to.Y = append(to.Y, float64((i*3)%5))
				}
				x.T = boo.NewTree(copyM(x.D.Data), to)
				x.U = copyDB(x.D)
				x.U.Labels = []int{}
				x.P = dense(3, 4, func(i, j int) float64 { return float64(1+(i*3+j*5)%7) / 8 })
				xo := boo.DefaultXTreeOptions()
				xo.MaxDepth, xo.MinChildWeight, xo.Gamma = 2, 1, 0
				for i := range x.D.Data {
					xo.Gradients = append(xo.Gradients, float64(i%3)-1)
					xo.Hessian = append(xo.Hessian, 1)
				}
				so := boo.DefaultGTreeOptions()
				so.MinChildWeight, so.Y, so.Indexes, so.AllowedColumns = 1, to.Y, []int{3, 1, 0, 2}, []int{1}
				x.TO = []*boo.TreeOptions{xo, so}
				if x.text, err = modelText(s.m); err != nil {
					return nil, err
				}
				return x, nil
			}
			var want []string
			for _, alone := range []bool{true, false} {
				x, err := fresh()
				if err != nil {
					return err
				}
				keepD, keepO, keepM, keepU := copyDB(x.D), okey(x.O), x.text, copyDB(x.U)
				keepT := fmt.Sprintf("%+v %+v %v", *x.TO[0], *x.TO[1], x.P.RawMatrix().Data)
				vrand.Provider = perThread{3}
				err = underSched(c, cap, func() {
					got := make([]string, len(ix))
					done := make([]chan bool, len(ix))
					for i, j := range ix {
						done[i] = make(chan bool, 1)
						vsched.Go(func() {
							got[i] = jobs[j].f(x)
							vsched.SendTo(done[i])(true)
						})
						if alone {
							vsched.Recv(done[i])
						}
					}
					for i := range done {
						if !alone {
							vsched.Recv(done[i])
						}
					}
					if alone {
						want = slices.Clone(got)
						return
					}
					for i := range got {
						if got[i] != want[i] {
							panic(fmt.Sprintf("%s gave %s, alone %s", jobs[ix[i]].name, cut(got[i], 600), cut(want[i], 600)))
						}
					}
				}, clean)
				if err != nil {
					return err
				}
				t, err := modelText(x.s.m)
				if err != nil || t != keepM {
					return fmt.Errorf("the model changed (%v)", err)
				}
				if !sameDB(keepU, x.U) || (x.U.Labels == nil) != (keepU.Labels == nil) || keepT != fmt.Sprintf("%+v %+v %v", *x.TO[0], *x.TO[1], x.P.RawMatrix().Data) {
					return fmt.Errorf("the unlabelled data, tree options or matrix changed")
				}
				if !sameDB(keepD, x.D) || okey(x.O) != keepO {
					return fmt.Errorf("the data or the options changed")
				}
			}
			c.trace()
			c.nontrivial(fmt.Sprint(mk.name, ix))
			return nil
		})
	}
	for _, mk := range ms {
		for i := range jobs {
			for j := i; j < len(jobs); j++ {
				one(mk, []int{i, j})
			}
		}
	}
	c.family("three uses at the same time, all interleavings")
	for mi, mk := range ms {
		tuples(3, len(jobs), func(ix []int) {
			if !slices.IsSorted(ix) || c.quick && (vsched.RaceEnabled && mi != 3 || mi > 3) {
				return
			}
			one(mk, ix)
		})
	}
}

// ---- C26 ----

// printedTree checks the printed form of a tree: splits and leaves in depth-first order, left before right.
func printedTree(text string, n *node, names []string) error {
	type item struct {
		leaf bool
		feat string
		num  string
	}
	var want, got []item
	n.walk(func(x *node, d int) {
		if x.leaf {
			want = append(want, item{true, "", fmt.Sprintf("%.3f", x.val)})
			return
		}
		f := strconv.Itoa(x.feat)
		if x.feat < len(names) {
			f = names[x.feat]
		}
		want = append(want, item{false, f, fmt.Sprintf("%.3f", x.thr)})
	}, 0)
	for _, l := range strings.Split(text, "\n") {
		t := strings.Fields(l)
		switch {
		case slices.Contains(t, "Feature"):
			i := slices.Index(t, "Feature")
			if len(t) < i+4 {
				return fmt.Errorf("line %q", l)
			}
			got = append(got, item{false, t[i+1], t[len(t)-1]})
		case slices.Contains(t, "PREDICT"):
			i := slices.Index(t, "PREDICT")
			if len(t) < i+2 {
				return fmt.Errorf("line %q", l)
			}
			got = append(got, item{true, "", t[i+1]})
		}
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("printed tree\n%s\nhas %v, should have %v", cut(text, 1500), got, want)
	}
	return nil
}

func checkC26(c *ctx) {
	enumTrees(c, func(t *treeCase) {
		c.run(func() string { return "printed: " + t.String() }, func() error {
			tree := boo.NewTree(t.X, t.options())
			nd := observe(tree)
			c.transition(nd.count())
			c.state(1)
			var names []string
			for j := range t.X[0] {
				names = append(names, fmt.Sprintf("name%d", j*7+3))
			}
			for k, args := range [][][]string{nil, {names}, {names[:len(names)-1]}, {nil}, {{}}} {
				var nm []string
				if len(args) > 0 {
					nm = args[0]
				}
				for _, space := range []string{"", "   "} {
					if err := printedTree(tree.Print(space, args...), nd, nm); err != nil {
						return fmt.Errorf("names %d: %v", k, err)
					}
				}
			}
			if nd.count() > 1 {
				c.nontrivial(t.String())
			}
			c.trace()
			return nil
		})
	})
	c.family("options")
	tuples(9, 3, func(a []int) {
		a = slices.Clone(a)
		for _, xgb := range []bool{true, false} {
			c.run(func() string { return fmt.Sprint(xgb, a) }, func() error {
				o := boo.DefaultXOptions()
				o.XGB = xgb
				o.Rounds = []int{1, 20, 12345}[a[0]]
				o.MaxDepth = []int{2, 5, 60}[a[1]]
				v := func(i int) float64 { return []float64{0, 0.125, 17.5}[a[i]] + float64(i)/64 }
				o.LearningRate, o.SubSample, o.BaseScore, o.Gamma, o.Lambda, o.MinChildWeight, o.ColSubSample = v(2), v(3), v(4), v(5), v(6), v(7), v(8)
				want := map[string]string{"r": strconv.Itoa(o.Rounds), "md": strconv.Itoa(o.MaxDepth), "lr": fmt.Sprintf("%.3f", o.LearningRate), "mcw": fmt.Sprintf("%.3f", o.MinChildWeight)}
				kind := "gboost"
				if xgb {
					kind = "xgboost"
					want["ss"], want["bs"], want["gam"] = fmt.Sprintf("%.3f", o.SubSample), fmt.Sprintf("%.3f", o.BaseScore), fmt.Sprintf("%.3f", o.Gamma)
					want["lam"], want["css"] = fmt.Sprintf("%.3f", o.Lambda), fmt.Sprintf("%.3f", o.ColSubSample)
				}
				s := o.String()
				got := map[string]string{}
				f := strings.Fields(strings.ReplaceAll(s, "/", " "))
				if len(f) == 0 || f[0] != kind {
					return fmt.Errorf("printed options %q", s)
				}
				for i := 1; i+1 < len(f); i += 2 {
					got[f[i+1]] = f[i]
				}
				for k, v := range want {
					if got[k] != v {
						return fmt.Errorf("printed options %q: %s is %s, should be %s", s, k, got[k], v)
					}
				}
				c.state(1)
				c.nontrivial(s)
				return nil
			})
		}
	})
	c.family("datasets")
	vals := []float64{0, -1.5, 0.00004, 0.00006, 123456.78901, -0.00001, 1e12}
	for rows := 0; rows <= 3; rows++ {
		for cols := 1; cols <= 3; cols++ {
			tuples(rows*cols, []int{7, 7, 3, 2}[rows], func(a []int) {
				a = slices.Clone(a)
				for mode := 0; mode < 4; mode++ {
					c.run(func() string { return fmt.Sprint(rows, cols, a, mode) }, func() error {
						return printedData(c, rows, cols, mode, func(i, j int) float64 { return vals[(a[i*cols+j]+mode)%len(vals)] })
					})
				}
			})
		}
	}
	for _, rows := range []int{40, 300} {
		for _, cols := range []int{1, 40, 200} {
			for mode := 0; mode < 4; mode++ {
				c.run(func() string { return fmt.Sprint("large ", rows, cols, mode) }, func() error {
					return printedData(c, rows, cols, mode, func(i, j int) float64 { return vals[(i*5+j*3)%len(vals)] + float64(i) })
				})
			}
		}
	}
	c.run(func() string { return "no dataset" }, func() error {
		if s := (*utils.DataBunch)(nil).String(); strings.TrimSpace(s) != "" {
			return fmt.Errorf("no dataset printed as %q", s)
		}
		return nil
	})
	c.family("matrices")
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 33, 51, 130, 300}
	for _, r := range sizes {
		for _, k := range sizes {
			if r > 12 && k > 12 && r != k {
				continue
			}
			for p := 0; p < 4; p++ {
				c.run(func() string { return fmt.Sprintf("%d x %d, pattern %d", r, k, p) }, func() error {
					f := func(i, j int) float64 {
						return []float64{float64(i*k + j), float64(i-j) / 3, math.Ldexp(float64(j+1), i%40*3-10), -float64(i * j)}[p]
					}
					M := dense(r, k, f)
					s := utils.PrintDenseMatrix(M)
					if !mat.Equal(M, dense(r, k, f)) {
						return fmt.Errorf("printing changed the matrix")
					}
					lines := strings.Split(strings.TrimSpace(s), "\n")
					if len(lines) != r {
						return fmt.Errorf("%d rows printed as %q", r, s)
					}
					for i, l := range lines {
						t := strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(l))
						if len(t) != k {
							return fmt.Errorf("row %d printed as %q", i, l)
						}
						for j, w := range t {
							x, err := strconv.ParseFloat(w, 64)
							if err != nil || x != f(i, j) {
								return fmt.Errorf("element %d,%d is %v, printed as %q", i, j, f(i, j), w)
							}
						}
					}
					c.state(1)
					c.nontrivial(s)
					return nil
				})
			}
		}
	}
}

func printedData(c *ctx, rows, cols, mode int, f func(i, j int) float64) error {
	D := &utils.DataBunch{}
	var want [][]string
	head := []string{"Labels"}
	if mode&1 == 1 {
		for j := 0; j < cols; j++ {
			D.Keys = append(D.Keys, fmt.Sprintf("k%d", j*3))
		}
		head = append(head, D.Keys...)
	}
	want = append(want, head)
	for i := 0; i < rows; i++ {
		var row []float64
		lab := -1
		if mode&2 == 2 {
			lab = []int{3, -40, 12345, 0}[i%4]
			D.Labels = append(D.Labels, lab)
		}
		w := []string{strconv.Itoa(lab)}
		for j := 0; j < cols; j++ {
			row = append(row, f(i, j))
			w = append(w, fmt.Sprintf("%.4f", f(i, j)))
		}
		D.Data = append(D.Data, row)
		want = append(want, w)
	}
	keep := copyDB(D)
	s := D.String()
	var got [][]string
	for _, l := range strings.Split(s, "\n") {
		got = append(got, strings.Fields(l))
	}
	if !slices.EqualFunc(got, want, func(a, b []string) bool { return slices.Equal(a, b) }) {
		return fmt.Errorf("printed as %q", cut(s, 800))
	}
	if !sameDB(keep, D) {
		return fmt.Errorf("printing changed the data")
	}
	c.state(1)
	c.transition(len(want))
	if rows > 0 {
		c.nontrivial(s)
	}
	return nil
}

func init() {
	checks["C24"] = checkC24
	checks["C25"] = checkC25
	checks["C26"] = checkC26
}

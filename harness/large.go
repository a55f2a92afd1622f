package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

// ---- C21: the helpers on long vectors, large matrices, extreme values ----

func largeHelpers(c *ctx) {
	c.family("long vectors, large matrices")
	sizes := []int{10, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 513, 1001, 1025, 2050, 4100}
	for _, n := range sizes {
		for m := 0; m < 16; m++ {
			c.run(func() string { return fmt.Sprintf("sorting %d values, %d", n, m) }, func() error {
				st := &stream{uint64(n*10 + m)}
				a := make([]float64, n)
				for i := range a {
					switch m {
					case 0:
						a[i] = st.Float64()
					case 1:
						a[i] = float64(st.IntN(4))
					case 2:
						a[i] = float64(i)
					case 3:
						a[i] = -float64(i)
					case 4:
						a[i] = 1
					case 5:
						a[i] = (st.Float64() - 0.5) * math.Pow(10, float64(st.IntN(600)-300))
					case 6: // up, then down
						a[i] = float64(min(i, n-i))
					case 7: // down, then up
						a[i] = float64(max(i, n-i))
					case 8: // sawtooth
						a[i] = float64(i % 7)
					case 9: // ascending but for the last
						a[i] = float64(i - n*b2i(i == n-1))
					case 10: // ascending but for one in the middle
						a[i] = float64(i - 5*b2i(i == n/2))
					case 11: // ascending but for the first
						a[i] = float64(i + n*b2i(i == 0))
					case 12: // descending but for the last
						a[i] = float64(-i + 2*n*b2i(i == n-1))
					case 13: // constant but for one smaller
						a[i] = 1 - float64(b2i(i == 2*n/3))
					case 14: // an ascending beginning
						a[i] = st.Float64() + float64(b2i(i < n/2)*(i-n))
					case 15: // an ascending end
						a[i] = st.Float64() + float64(b2i(i > n/2)*i)
					}
				}
				keep := slices.Clone(a)
				chk := func(what string, p []int, v []float64) error {
					if len(p) != n || len(v) != n || !slices.Equal(a, keep) {
						return fmt.Errorf("%s: %d indexes, %d values; the input changed: %v", what, len(p), len(v), !slices.Equal(a, keep))
					}
					seen := make([]bool, n)
					for i := range p {
						if p[i] < 0 || p[i] >= n || seen[p[i]] || v[i] != keep[p[i]] || i > 0 && v[i] < v[i-1] {
							return fmt.Errorf("%s: position %d has index %d and value %v", what, i, p[i], v[i])
						}
						seen[p[i]] = true
					}
					return nil
				}
				p, v := utils.ArgSort(a)
				if err := chk("ArgSort", p, v); err != nil {
					return err
				}
				ti, tv := make([]int, n), make([]float64, n)
				for rep := 0; rep < 2; rep++ {
					p, v = utils.MemArgSort(a, ti, tv)
					if err := chk("MemArgSort", p, v); err != nil {
						return err
					}
				}
				s := utils.NewSlice(slices.Clone(a))
				sort.Sort(s)
				c.state(1)
				c.transition(4)
				return chk("Slice", s.Idx, s.Float64Slice)
			})
			if m >= 6 {
				continue
			}
			c.run(func() string { return fmt.Sprintf("one-hot encoding of %d labels, %d", n, m) }, func() error {
				st := &stream{uint64(n*10 + m)}
				k := []int{2, 7, 40, 130, 300, n}[m]
				d := &utils.DataBunch{}
				for i := 0; i < n; i++ {
					l := st.IntN(k)*3 - k
					if m == 5 {
						l = (n - i) * 5
					}
					d.Labels = append(d.Labels, l)
					d.Keys = append(d.Keys, fmt.Sprintf("k%d", l))
				}
				keep := copyDB(d)
				w := distinct(d.Labels)
				if n*len(w) > 300000 {
					return nil
				}
				pos := map[int]int{}
				for i, l := range w {
					pos[l] = i
				}
				f := func(i, j int) float64 { return float64(b2i(pos[keep.Labels[i]] == j)) }
				x, ls := d.OHELabels()
				if !slices.Equal(ls, w) {
					return fmt.Errorf("labels in order %v, should be %v", ls, w)
				}
				if err := sameDense(x, n, len(w), f, 0); err != nil {
					return err
				}
				x, ks := d.OHEKeys()
				for i := range w {
					if len(ks) != len(w) || ks[i] != fmt.Sprintf("k%d", w[i]) {
						return fmt.Errorf("keys in order %v, should be %v", ks, w)
					}
				}
				if err := sameDense(x, n, len(w), f, 0); err != nil {
					return err
				}
				if !sameDB(d, keep) {
					return fmt.Errorf("the dataset changed")
				}
				c.state(1)
				c.transition(2)
				return nil
			})
		}
	}
	elem := func(i, j int) float64 { return float64(i)*1.25 - float64(j)*3 + float64((i*j)%7) }
	dims := [][2]int{{1, 40}, {40, 1}, {7, 9}, {17, 33}, {65, 4}, {4, 65}, {130, 12}, {12, 130}, {300, 3}, {3, 300}, {1030, 2}, {2, 1030}, {5000, 1}, {1, 5000}, {70, 70}, {150, 101}, {2100, 3}}
	for _, dm := range dims {
		r, k := dm[0], dm[1]
		c.run(func() string { return fmt.Sprintf("sampling and transposing %d x %d", r, k) }, func() error {
			m := make([][]float64, r)
			for i := range m {
				m[i] = make([]float64, k)
				for j := range m[i] {
					m[i][j] = elem(i, j)
				}
			}
			keep := copyM(m)
			t := utils.TransposeFloats(m)
			if len(t) != k {
				return fmt.Errorf("transposed: %d rows", len(t))
			}
			for j := range t {
				if len(t[j]) != r {
					return fmt.Errorf("transposed: %d columns", len(t[j]))
				}
				for i := range t[j] {
					if t[j][i] != elem(i, j) {
						return fmt.Errorf("transposed: element %d,%d is %v", j, i, t[j][i])
					}
				}
			}
			st := &stream{uint64(r*7 + k)}
			for rep := 0; rep < 6; rep++ {
				var ri, ki []int
				switch rep {
				case 0: // all
					for i := 0; i < r; i++ {
						ri = append(ri, i)
					}
					for j := 0; j < k; j++ {
						ki = append(ki, j)
					}
				case 1: // all, backwards
					for i := r - 1; i >= 0; i-- {
						ri = append(ri, i)
					}
					for j := k - 1; j >= 0; j-- {
						ki = append(ki, j)
					}
				case 2:
					ri, ki = []int{r - 1}, []int{k - 1}
				default:
					for i := 0; i < 1+st.IntN(r); i++ {
						ri = append(ri, st.IntN(r))
					}
					for j := 0; j < min(k, 1+st.IntN(k)); j++ {
						ki = append(ki, st.IntN(k))
					}
				}
				s := utils.SampleMatrix(m, ri, ki)
				if len(s) != len(ri) {
					return fmt.Errorf("%d rows sampled, %d asked for", len(s), len(ri))
				}
				for a := range s {
					if len(s[a]) != len(ki) {
						return fmt.Errorf("%d columns sampled, %d asked for", len(s[a]), len(ki))
					}
					for b := range s[a] {
						if s[a][b] != elem(ri[a], ki[b]) {
							return fmt.Errorf("sampled element %d,%d is %v, should be %v", a, b, s[a][b], elem(ri[a], ki[b]))
						}
					}
				}
				for p := range ki {
					if p%17 != 0 && p != len(ki)-1 {
						continue
					}
					for _, over := range []int{0, 1, 1000} {
						bad := slices.Clone(ki)
						bad[p] = k + over
						if !panics(func() { utils.SampleSlice(m[0], bad) }) {
							return fmt.Errorf("column %d of %d was sampled", k+over, k)
						}
					}
				}
				c.transition(2)
			}
			if !sameM(m, keep) {
				return fmt.Errorf("the matrix changed")
			}
			c.state(1)
			return nil
		})
		c.run(func() string { return fmt.Sprintf("columns of %d x %d", r, k) }, func() error {
			d := dense(r, k, elem)
			s := make([]float64, r)
			for i := range s {
				s[i] = float64(100*(i+1)) / 8
			}
			for col := 0; col < k; col++ {
				if k > 140 && col%97 != 0 && col < k-2 {
					continue
				}
				x := utils.DenseCol(d, col)
				if err := sameDense(x, 1, r, func(_, j int) float64 { return elem(j, col) }, 0); err != nil {
					return fmt.Errorf("column %d: %v", col, err)
				}
				if err := sameDense(d, r, k, elem, 0); err != nil {
					return fmt.Errorf("extracting changed the matrix: %v", err)
				}
				e := mat.DenseCopyOf(d)
				utils.AddToCol(e, s, col)
				if err := sameDense(e, r, k, func(i, j int) float64 { return elem(i, j) + float64(b2i(j == col))*float64(100*(i+1))/8 }, 0); err != nil {
					return fmt.Errorf("adding to column %d: %v", col, err)
				}
				c.transition(2)
			}
			for _, col := range []int{k, k + 1, k + 1000} {
				if !panics(func() { utils.DenseCol(d, col) }) || !panics(func() { utils.AddToCol(d, s, col) }) {
					return fmt.Errorf("column %d of %d was accepted", col, k)
				}
			}
			c.state(1)
			return nil
		})
		c.run(func() string { return fmt.Sprintf("losses, probabilities of %d x %d", r, k) }, func() error {
			for m := 0; m < 4; m++ {
				P := func(i, j int) float64 {
					v := 0.05 + 0.9*float64((i*31+j*17+m*5)%97)/97
					switch m {
					case 1:
						v *= 1e-9
					case 2:
						v *= 1e6
					}
					return v
				}
				Y := func(i, j int) float64 { return float64(b2i(j == (i*3+m)%k)) }
				y, p := dense(r, k, Y), dense(r, k, P)
				sums := make([]float64, r)
				mse := 0.0
				for i := 0; i < r; i++ {
					for j := 0; j < k; j++ {
						sums[i] += P(i, j)
						mse += (Y(i, j) - P(i, j)) * (Y(i, j) - P(i, j))
					}
				}
				mse /= float64(r * k)
				for li, l := range []utils.LossFunc{&utils.SQErrLoss{}, &utils.MSELoss{}} {
					for given := 0; given < 2; given++ {
						buf := func() *mat.Dense {
							if given == 0 {
								return nil
							}
							return dense(r, k, func(i, j int) float64 { return 13 })
						}
						if v := l.Loss(y, p, buf()); !near(v, mse, 1e-9*(1+mse)) {
							return fmt.Errorf("%s: loss %v, should be %v", l.Name(), v, mse)
						}
						if err := sameDense(l.Gradients(y, p, buf()), r, k, func(i, j int) float64 { return P(i, j) - Y(i, j) }, 0); err != nil {
							return fmt.Errorf("%s: gradients: %v", l.Name(), err)
						}
						if err := sameDense(l.NegGradients(y, p, buf()), r, k, func(i, j int) float64 { return Y(i, j) - P(i, j) }, 0); err != nil {
							return fmt.Errorf("%s: negative gradients: %v", l.Name(), err)
						}
						if err := sameDense(l.Hessian(p, buf()), r, k, func(i, j int) float64 {
							if li == 0 {
								return 1
							}
							return P(i, j) * (1 - P(i, j))
						}, 1e-9); err != nil {
							return fmt.Errorf("%s: hessian: %v", l.Name(), err)
						}
						c.transition(4)
					}
				}
				if err := sameDense(utils.NormalizationDense(p, nil), r, k, func(i, j int) float64 { return P(i, j) / sums[i] }, 1e-11); err != nil {
					return fmt.Errorf("normalisation: %v", err)
				}
				if k > 1 {
					if err := sameDense(boo.LogOddsFromProbs(p), r, k, func(i, j int) float64 { return math.Log(P(i, j) / (sums[i] - P(i, j))) }, 1e-7); err != nil {
						return fmt.Errorf("log-odds: %v", err)
					}
				}
				cl := boo.ClassesFromProbs(p)
				for i := 0; i < r; i++ {
					x := int(cl.At(i, 0))
					for j := 0; j < k; j++ {
						if x < 0 || x >= k || P(i, j) > P(i, x) {
							return fmt.Errorf("row %d: class %v; class %d has %v", i, cl.At(i, 0), j, P(i, j))
						}
					}
				}
				if err := sameDense(p, r, k, P, 0); err != nil {
					return fmt.Errorf("the probabilities changed: %v", err)
				}
				if err := sameDense(y, r, k, Y, 0); err != nil {
					return fmt.Errorf("the labels changed: %v", err)
				}
				c.transition(3)
			}
			c.state(1)
			return nil
		})
	}
	c.family("extreme and close values")
	ext := []float64{1e-300, 1e-30, 1e-9, 0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 1, 1e9, 1e30, 1e150}
	for k := 2; k <= 4; k++ {
		tuples(k, len(ext), func(ix []int) {
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprint(ix) }, func() error {
				d := dense(1, k, func(_, j int) float64 { return ext[ix[j]] })
				row := d.RawRowView(0)
				sum := 0.0
				for _, v := range row {
					sum += v
				}
				x := int(boo.ClassesFromProbs(d).At(0, 0))
				for j := range row {
					if x < 0 || x >= k || row[j] > row[x] {
						return fmt.Errorf("class %d of %v", x, row)
					}
				}
				n := utils.Normalization(slices.Clone(row), nil)
				for j := range row {
					if w := row[j] / sum; !(math.Abs(n[j]-w) <= 1e-12*w) {
						return fmt.Errorf("normalisation of %v: %v", row, n)
					}
				}
				l := boo.LogOddsFromProbs(d)
				for j := range row {
					if rest := sum - row[j]; rest > 1e-3*sum {
						if w := math.Log(row[j] / rest); !near(l.At(0, j), w, 1e-9) {
							return fmt.Errorf("log-odds of %v: %v", row, l.RawRowView(0))
						}
					}
				}
				c.state(1)
				c.transition(3)
				return nil
			})
		})
	}
}

// ---- C16: odd cells, names, separators and readers ----

// broken delivers the text and fails with err after at bytes, with the last bytes if with is set.
type broken struct {
	s    string
	at   int
	pos  int
	with bool
	err  error
}

func (f *broken) Read(p []byte) (int, error) {
	if f.pos >= f.at {
		return 0, f.err
	}
	n := copy(p, f.s[f.pos:f.at])
	f.pos += n
	if f.with && f.pos == f.at {
		return n, f.err
	}
	return n, nil
}

func oddTexts(c *ctx) {
	c.family("odd values and labels")
	cells := []string{"-", "+", "#", "#1", "1#", "0x10", "0X1F", "0b1", "0o7", "010", "1_000", "+3", "-0", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "1.0", "1e3", "1e-400", "5e-324",
		"inf", "-Inf", "nan", "infinity", "null", "NA", "?", "N/A", "//", ";", "%", "$1", "1%", "1d", "1f", "1e", "e1", ".", ".5", "5.", "1'000", "'1'", "true", "1+2i", "½", "１", "٣", "−1", "\ufeff1", "0.1000000000000000055511151231257827", "123456789.123456789",
		"-0.00001", "1e308", "1.7976931348623159e308", "00", "-00.50", "0x", "0x1p3", "0x1", "1_0.5", "*", "\\N", "NULL", "none", "1:1", "a:b"}
	for ci, cell := range cells {
		for rows := 1; rows <= 3; rows += 2 {
			for cols := 1; cols <= 3; cols++ {
				for at := 0; at < rows*cols; at++ {
					for si, sep := range []rune{',', ';', '\t', '→', 'é'} {
						if strings.ContainsRune(cell, sep) || (si > 2) != (ci%3 == 0) && si > 0 {
							continue
						}
						var b strings.Builder
						for i := 0; i < rows; i++ {
							for j := 0; j < cols; j++ {
								if j > 0 {
									b.WriteRune(sep)
								}
								if i*cols+j == at {
									b.WriteString(cell)
								} else {
									fmt.Fprintf(&b, "%d", i*3+j)
								}
							}
							b.WriteByte('\n')
						}
						t := b.String()
						c.run(func() string { return fmt.Sprintf("%q, separator %q", t, sep) }, func() error {
							for m := 0; m < 4; m++ {
								if err := csvOnce(c, t, m&1 == 1, m&2 == 2, sep, false); err != nil {
									return fmt.Errorf("header %v, labels %v: %v", m&1 == 1, m&2 == 2, err)
								}
							}
							c.state(1)
							c.nontrivial(t)
							return nil
						})
					}
				}
				if strings.Contains(cell, ":") {
					continue
				}
				for at := 0; at < rows*(cols+1); at++ {
					var b strings.Builder
					for i := 0; i < rows; i++ {
						for j := 0; j <= cols; j++ {
							v := fmt.Sprint(i*3 + j)
							if i*(cols+1)+j == at {
								v = cell
							}
							if j > 0 {
								fmt.Fprintf(&b, " %d:", j)
							}
							b.WriteString(v)
						}
						b.WriteByte('\n')
					}
					t := b.String()
					c.run(func() string { return fmt.Sprintf("%q", t) }, func() error {
						for m := 0; m < 2; m++ {
							if err := svmOnce(c, t, m == 1, false); err != nil {
								return fmt.Errorf("header %v: %v", m == 1, err)
							}
						}
						c.state(1)
						c.nontrivial(t)
						return nil
					})
				}
			}
		}
	}
	c.family("odd names")
	names := []string{"a", "Labels", "1", "-2.5", "x y", "été", "名前", "a.b", "a_b", "a-b", "(m/s)", "#x", "%", "a'b", strings.Repeat("n", 33), strings.Repeat("n", 70) + "z", strings.Repeat("é", 300), strings.Repeat("q", 5000), "A", "NaN", "*", "/"}
	for k := 1; k <= 3; k++ {
		tuples(k, len(names), func(ix []int) {
			if k == 3 && (ix[0]+2*ix[1]+3*ix[2])%5 != 0 && c.quick {
				return
			}
			ix = slices.Clone(ix)
			c.run(func() string { return fmt.Sprintf("names %v", ix) }, func() error {
				h, row, sh, srow := "L", "3", "Labels", "3"
				svm := true
				for j, i := range ix {
					h += "," + names[i]
					row += fmt.Sprintf(",%d.5", j)
					sh += fmt.Sprintf(" %d:%s", j+1, names[i])
					srow += fmt.Sprintf(" %d:%d.5", j+1, j)
					svm = svm && !strings.ContainsAny(names[i], " :")
				}
				if err := csvOnce(c, h+"\n"+row+"\n"+row+"\n", true, true, ',', false); err != nil {
					return err
				}
				if err := csvOnce(c, h[2:]+"\n"+row[2:]+"\n", true, false, ',', false); err != nil {
					return err
				}
				if svm {
					if err := svmOnce(c, sh+"\n"+srow+"\n"+srow, true, false); err != nil {
						return err
					}
				}
				c.state(1)
				return nil
			})
		})
	}
	c.family("many columns, rows, blank lines")
	for _, rows := range []int{1, 2, 9, 17, 33, 65, 130, 300, 1030} {
		for _, cols := range []int{1, 2, 9, 17, 33, 65, 130, 300, 1030} {
			if rows*cols > 20000 {
				continue
			}
			for m := 0; m < 16; m++ {
				c.run(func() string { return fmt.Sprintf("%d rows, %d columns, %b", rows, cols, m) }, func() error {
					var b, s strings.Builder
					if m&1 == 1 {
						b.WriteString("L")
						s.WriteString("L")
						for j := 0; j < cols; j++ {
							fmt.Fprintf(&b, ";f%d", j)
							fmt.Fprintf(&s, " %d:f%d", j+1, j)
						}
						b.WriteString("\n")
						s.WriteString("\n")
					}
					for i := 0; i < rows; i++ {
						fmt.Fprintf(&b, "%d", i-rows/2)
						fmt.Fprintf(&s, "%d", i-rows/2)
						for j := 0; j < cols; j++ {
							v := float64((i*131+j*17)%1009) / 8
							fmt.Fprintf(&b, ";%v", v)
							fmt.Fprintf(&s, " %d:%v", j+1, v)
						}
						if i < rows-1 || m&2 == 2 {
							b.WriteString("\n")
							s.WriteString("\n")
						}
						for z := 0; m&4 == 4 && z < i%4; z++ {
							b.WriteString("\n")
							s.WriteString("\n")
						}
					}
					if err := csvOnce(c, b.String(), m&1 == 1, m&8 == 0, ';', false); err != nil {
						return err
					}
					if err := svmOnce(c, s.String(), m&1 == 1, false); err != nil {
						return err
					}
					c.state(1)
					return nil
				})
			}
		}
	}
	c.family("readers that fail")
	texts := []string{"1,2\n3,4\n", "1,2\n3,4", "a,b\n1,2\n3,4\n", "7\n", "1 1:2\n2 1:3\n", "1 1:2\n2 1:3", "L 1:a\n1 1:2\n", "5\n6\n"}
	for _, n := range []int{300, 1100} {
		texts = append(texts, strings.Repeat("1,2\n", n), strings.Repeat("1 1:2\n", n))
	}
	errs := []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrShortBuffer, fmt.Errorf("EOF while reading")}
	for ti, t := range texts {
		for ei, e := range errs {
			for m := 0; m < 8; m++ {
				c.run(func() string { return fmt.Sprintf("text %d, error %v, %d", ti, e, m) }, func() error {
					step := max(1, len(t)/64)
					for at := 0; at <= len(t); at += step {
						for k := 0; k < 2; k++ {
							r := &broken{s: t, at: at, with: m&4 == 4, err: e}
							var d *utils.DataBunch
							var err error
							if k == 0 {
								d, err = utils.ParseCSVFromReader(r, m&1 == 1, m&2 == 2, ',')
							} else {
								d, err = utils.ParseLibSVMFromReader(r, m&1 == 1)
							}
							if err == nil || d != nil {
								return fmt.Errorf("reader %d failed after %d of %d bytes: error %v, dataset %v", k, at, len(t), err, d)
							}
							c.transition(1)
						}
						if ei > 0 {
							continue
						}
						// the end of file may come with the last bytes
						x := t[:at]
						if blankCSV(x, ',') {
							continue
						}
						d, err := utils.ParseCSVFromReader(&broken{s: t, at: at, with: m&4 == 4, err: io.EOF}, m&1 == 1, m&2 == 2, ',')
						if e := refCSV(x, m&1 == 1, m&2 == 2, ',').compare(d, err, m&2 == 2); e != nil {
							return fmt.Errorf("%q: %v", x, e)
						}
						d, err = utils.ParseLibSVMFromReader(&broken{s: t, at: at, with: m&4 == 4, err: io.EOF}, m&1 == 1)
						if e := refSVM(x, m&1 == 1).compare(d, err, true); e != nil {
							return fmt.Errorf("%q: %v", x, e)
						}
					}
					c.state(1)
					return nil
				})
			}
		}
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	c.family("label-name files with more entries")
	nm := []string{"ab", "x1", "-3", "1", "Ω", "a.b", "#c", strings.Repeat("n", 90)}
	lb := []string{"0", "1", "-1", "12", "2147483648", "x", "1.5", "0x3", "#1", "+4", "1_0", "007"}
	for n := 1; n <= 3; n++ {
		tuples(n, len(nm)*len(lb), func(ix []int) {
			if n == 3 && (ix[0]*7+ix[1]*5+ix[2])%(29*8) != 0 || n == 2 && (ix[0]*7+ix[1])%4 != 0 && c.quick {
				return
			}
			seen := map[string]bool{}
			for _, i := range ix { // each label once
				l := lb[i/len(nm)]
				if l == "+4" {
					l = "4"
				}
				if seen[l] {
					return
				}
				seen[l] = true
			}
			ix = slices.Clone(ix)
			for _, sep := range []string{" ", ",", "\t", "::"} {
				if (len(sep)+int(sep[0])+ix[0])%2 == 0 && n > 1 {
					continue
				}
				c.run(func() string { return fmt.Sprintf("entries %v, separator %q", ix, sep) }, func() error {
					for end := 0; end < 4; end++ {
						t := ""
						for q, i := range ix {
							t += lb[i/len(nm)] + sep + nm[i%len(nm)]
							if q < n-1 || end > 0 {
								t += "\n"
							}
							if end == 2 {
								t += "\n"
							}
						}
						if end == 3 {
							t = "\n" + t
						}
						if err := namesOnce(c, dir, t, sep, sep); err != nil {
							return fmt.Errorf("%q: %v", t, err)
						}
					}
					c.state(1)
					return nil
				})
			}
		})
	}
	c.family("files with other separators")
	for si, sep := range []rune{'→', 'é', '\u00a0', '|', ':', '1', 'x', '~'} {
		for m := 0; m < 4; m++ {
			c.run(func() string { return fmt.Sprintf("separator %q, %d", sep, m) }, func() error {
				s := string(sep)
				for _, t := range []string{"7" + s + "2\n3" + s + "4\n", "a" + s + "b\n7" + s + "2", "7,2\n3,4\n", "7" + s + "2" + s + "5\n3" + s + "4\n"} {
					f := filepath.Join(dir, "data")
					if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
						panic("harness: " + err.Error())
					}
					d, err := utils.DataBunchFromCSVFile(f, m&1 == 1, m&2 == 2, sep)
					if e := refCSV(t, m&1 == 1, m&2 == 2, sep).compare(d, err, m&2 == 2); e != nil {
						return fmt.Errorf("%q (%d): %v", t, si, e)
					}
					c.transition(1)
				}
				c.state(1)
				return nil
			})
		}
	}
}

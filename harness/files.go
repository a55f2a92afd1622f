package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
)

// ---- C16 ----

// content is what a text says: rows, labels, names; err says that it must be rejected.
type content struct {
	data   [][]float64
	labels []int
	names  []string
	err    bool
	maybe  bool // rejecting is fine too
}

func refCSV(text string, header, labelled bool, sep rune) (r content) {
	rd := csv.NewReader(strings.NewReader(text))
	rd.Comma = sep
	rd.TrimLeadingSpace = true
	rd.FieldsPerRecord = -1
	recs, err := rd.ReadAll()
	if err != nil {
		return content{err: true}
	}
	for _, x := range recs {
		if len(x) != len(recs[0]) {
			return content{err: true}
		}
	}
	if header {
		if len(recs) == 0 {
			return content{maybe: true}
		}
		r.names = recs[0]
		if labelled {
			r.names = r.names[1:]
		}
		recs = recs[1:]
	}
	for _, x := range recs {
		if labelled {
			l, err := strconv.Atoi(x[0])
			if err != nil {
				return content{err: true}
			}
			r.labels = append(r.labels, l)
			x = x[1:]
		}
		row := []float64{}
		for _, v := range x {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				return content{err: true}
			}
			row = append(row, f)
		}
		r.data = append(r.data, row)
	}
	return r
}

func refSVM(text string, header bool) (r content) {
	first := true
	for _, l := range strings.Split(text, "\n") {
		fs := strings.Fields(l)
		if len(fs) == 0 {
			continue
		}
		if header && first {
			first = false
			for i, t := range fs[1:] {
				p := strings.Split(t, ":")
				if len(p) != 2 {
					return content{err: true}
				}
				if p[0] != strconv.Itoa(i+1) || p[1] == "" {
					r.maybe = true
				}
				r.names = append(r.names, p[1])
			}
			continue
		}
		first = false
		lab, err := strconv.Atoi(fs[0])
		if err != nil {
			return content{err: true}
		}
		row := []float64{}
		for i, t := range fs[1:] {
			p := strings.Split(t, ":")
			if len(p) != 2 {
				return content{err: true}
			}
			if p[0] != strconv.Itoa(i+1) {
				r.maybe = true
			}
			f, err := strconv.ParseFloat(p[1], 64)
			if err != nil {
				return content{err: true}
			}
			row = append(row, f)
		}
		if len(r.data) > 0 && len(row) != len(r.data[0]) || r.names != nil && len(row) != len(r.names) {
			r.maybe = true
		}
		r.data = append(r.data, row)
		r.labels = append(r.labels, lab)
	}
	return r
}

func (w content) compare(d *utils.DataBunch, err error, labelled bool) error {
	if w.err {
		if err == nil {
			return fmt.Errorf("no error; data %v, labels %v, names %v", d.Data, d.Labels, d.Keys)
		}
		if d != nil {
			return fmt.Errorf("error %v and a dataset", err)
		}
		return nil
	}
	if err != nil {
		if w.maybe {
			return nil
		}
		return fmt.Errorf("error %v for data %v, labels %v, names %v", err, w.data, w.labels, w.names)
	}
	if d == nil {
		return fmt.Errorf("no dataset and no error")
	}
	if len(d.Data) != len(w.data) {
		return fmt.Errorf("%d rows %v, should be %v", len(d.Data), d.Data, w.data)
	}
	for i := range w.data {
		if !eqFloats(d.Data[i], w.data[i]) {
			return fmt.Errorf("row %d is %v, should be %v", i, d.Data[i], w.data[i])
		}
	}
	if labelled && !slices.Equal(d.Labels, w.labels) && len(d.Labels)+len(w.labels) > 0 {
		return fmt.Errorf("labels %v, should be %v", d.Labels, w.labels)
	}
	if !labelled && len(d.Labels) > 0 {
		return fmt.Errorf("labels %v for unlabelled data", d.Labels)
	}
	if !slices.Equal(d.Keys, w.names) && len(d.Keys)+len(w.names) > 0 {
		return fmt.Errorf("names %q, should be %q", d.Keys, w.names)
	}
	return nil
}

func eqFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

// faulty delivers the text in chunks and fails (instead of the end of file) after k bytes.
type faulty struct {
	s     string
	at    int // bytes before the error; <0: none
	chunk int
	pos   int
}

func (f *faulty) Read(p []byte) (int, error) {
	end := len(f.s)
	if f.at >= 0 {
		end = f.at
	}
	if f.pos >= end {
		if f.at >= 0 {
			return 0, errInjected
		}
		return 0, io.EOF
	}
	n := min(len(p), end-f.pos)
	if f.chunk > 0 {
		n = min(n, f.chunk)
	}
	copy(p, f.s[f.pos:f.pos+n])
	f.pos += n
	return n, nil
}

// blankCSV tells whether a text has a line of blanks only, which is left open.
func blankCSV(t string, sep rune) bool {
	for _, l := range strings.Split(t, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if l != "" && strings.TrimSpace(l) == "" && !strings.ContainsRune(l, sep) {
			return true
		}
	}
	return false
}

func csvOnce(c *ctx, t string, header, labelled bool, sep rune, faults bool) error {
	w := refCSV(t, header, labelled, sep)
	d, err := utils.ParseCSVFromReader(strings.NewReader(t), header, labelled, sep)
	c.transition(1)
	if e := w.compare(d, err, labelled); e != nil {
		return e
	}
	if !faults {
		return nil
	}
	d, err = utils.ParseCSVFromReader(&faulty{s: t, at: -1, chunk: 1}, header, labelled, sep)
	if e := w.compare(d, err, labelled); e != nil {
		return fmt.Errorf("reading byte by byte: %v", e)
	}
	for k := 0; k <= len(t); k++ {
		c.transition(1)
		d, err := utils.ParseCSVFromReader(&faulty{s: t, at: k, chunk: 3}, header, labelled, sep)
		if err == nil || d != nil {
			return fmt.Errorf("reading failed after %d bytes: error %v, dataset %v", k, err, d)
		}
	}
	return nil
}

func svmOnce(c *ctx, t string, header bool, faults bool) error {
	w := refSVM(t, header)
	d, err := utils.ParseLibSVMFromReader(strings.NewReader(t), header)
	c.transition(1)
	if e := w.compare(d, err, true); e != nil {
		return e
	}
	if !faults {
		return nil
	}
	d, err = utils.ParseLibSVMFromReader(&faulty{s: t, at: -1, chunk: 1}, header)
	if e := w.compare(d, err, true); e != nil {
		return fmt.Errorf("reading byte by byte: %v", e)
	}
	for k := 0; k <= len(t); k++ {
		c.transition(1)
		d, err := utils.ParseLibSVMFromReader(&faulty{s: t, at: k, chunk: 3}, header)
		if err == nil || d != nil {
			return fmt.Errorf("reading failed after %d bytes: error %v, dataset %v", k, err, d)
		}
	}
	return nil
}

// refNames is the content of a label-name file; alt says that an error is fine too.
func refNames(t, sep string) (m map[int]string, bad, alt bool) {
	m = map[int]string{}
	for _, l := range strings.Split(t, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var fs []string
		if sep == " " {
			fs = strings.Fields(l)
		} else {
			fs = strings.Split(l, sep)
		}
		if len(fs) < 2 {
			return nil, true, false
		}
		n, err := strconv.Atoi(fs[0])
		if err != nil {
			return nil, true, false
		}
		if _, ok := m[n]; ok || len(fs) > 2 || fs[1] == "" {
			alt = true
		}
		m[n] = fs[1]
	}
	return m, false, alt
}

func namesOnce(c *ctx, dir, t, sep string, args ...string) error {
	f := filepath.Join(dir, "names")
	if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	c.transition(1)
	m, err := confu.ReadNameMap(f, args...)
	w, bad, alt := refNames(t, sep)
	if bad {
		if err == nil {
			return fmt.Errorf("no error; names %v", m)
		}
		return nil
	}
	if err != nil {
		if alt {
			return nil
		}
		return fmt.Errorf("error %v, should be %v", err, w)
	}
	if len(m) != len(w) {
		return fmt.Errorf("names %v, should be %v", m, w)
	}
	for k, v := range w {
		if x, ok := m[k]; !ok || x != v {
			return fmt.Errorf("names %v, should be %v", m, w)
		}
	}
	return nil
}

func scratch(c *ctx) string {
	d := fmt.Sprintf("scratch-%d", c.shard)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func checkC16(c *ctx) {
	maxCSV, maxSVM, maxNm := 7, 7, 5
	if c.thorough() {
		maxCSV, maxSVM, maxNm = 9, 8, 6
	}
	join := func(toks []string, ix []int) string {
		var b strings.Builder
		for _, i := range ix {
			b.WriteString(toks[i])
		}
		return b.String()
	}
	c.family("CSV texts of up to so many tokens")
	sepset := []rune{',', ';', '\t', '|', ' '}
	for L := 0; L <= maxCSV; L++ {
		for si, sep := range sepset {
			toks := []string{"1", "-2.5", "x", string(sep), "\n", " ", "\r\n", "\""}
			if L > 4 && si > 1 {
				continue
			}
			if L > 4 {
				toks = toks[:6]
			}
			if L > 5 {
				toks = toks[:5]
			}
			if si == 4 {
				toks = slices.DeleteFunc(toks, func(s string) bool { return s == " " })
				toks = append(toks, " ")
			}
			tuples(L, len(toks), func(ix []int) {
				t := join(toks, ix)
				if blankCSV(t, sep) || sep == ' ' && strings.Contains(t, "  ") {
					return
				}
				c.run(func() string { return fmt.Sprintf("%q, separator %q", t, sep) }, func() error {
					for m := 0; m < 4; m++ {
						if err := csvOnce(c, t, m&1 == 1, m&2 == 2, sep, L <= 4); err != nil {
							return fmt.Errorf("header %v, labels %v: %v", m&1 == 1, m&2 == 2, err)
						}
					}
					c.state(1)
					if L > 2 {
						c.nontrivial(t + string(sep))
					}
					return nil
				})
			})
		}
	}
	c.family("CSV tables with every line ending and one damaged cell")
	cells := []string{"1", "0", "-3.25", "1e3", ".5", "NaN", "+Inf", "0x1p-2", "", "x", "1 ", " 1", "1.5.2", "--1", "1e999", "12345678901234567890123"}
	for rows := 1; rows <= 3; rows++ {
		for cols := 1; cols <= 3; cols++ {
			for r := 0; r < rows; r++ {
				for k := 0; k < cols; k++ {
					for ci, cell := range cells {
						for end := 0; end < 6; end++ {
							sep := sepset[(rows+cols+ci)%4]
							nl := "\n"
							if end%2 == 1 {
								nl = "\r\n"
							}
							var lines []string
							for i := 0; i < rows; i++ {
								var f []string
								for j := 0; j < cols; j++ {
									v := strconv.Itoa(i*3 + j)
									if i == r && j == k {
										v = cell
									}
									f = append(f, v)
								}
								lines = append(lines, strings.Join(f, string(sep)))
							}
							var t string
							switch end / 2 {
							case 0:
								t = strings.Join(lines, nl)
							case 1:
								t = strings.Join(lines, nl) + nl
							case 2:
								t = nl + strings.Join(lines, nl+nl) + nl + nl
							}
							if blankCSV(t, sep) || cols == 1 && cell == "" {
								continue
							}
							c.run(func() string { return fmt.Sprintf("%q, separator %q", t, sep) }, func() error {
								for m := 0; m < 4; m++ {
									if err := csvOnce(c, t, m&1 == 1, m&2 == 2, sep, ci == 0); err != nil {
										return fmt.Errorf("header %v, labels %v: %v", m&1 == 1, m&2 == 2, err)
									}
								}
								c.state(1)
								c.nontrivial(t)
								return nil
							})
						}
					}
				}
			}
		}
	}
	c.family("libSVM texts of up to so many tokens")
	stoks := []string{"1", "-2", " ", "\n", "1:2.5", "2:x", ":", "\r\n", "x", "1:a", "\t"}
	for L := 0; L <= maxSVM; L++ {
		toks := stoks
		if L > 4 {
			toks = stoks[:7]
		}
		if L > 5 {
			toks = stoks[:6]
		}
		tuples(L, len(toks), func(ix []int) {
			t := join(toks, ix)
			c.run(func() string { return fmt.Sprintf("%q", t) }, func() error {
				for m := 0; m < 2; m++ {
					if err := svmOnce(c, t, m == 1, L <= 4); err != nil {
						return fmt.Errorf("header %v: %v", m == 1, err)
					}
				}
				c.state(1)
				if L > 2 {
					c.nontrivial(t)
				}
				return nil
			})
		})
	}
	c.family("libSVM tables with every line ending and one damaged term")
	terms := []string{"%d:1", "%d:-0.5", "%d:1e3", "%d:", "%d", "%d:1:2", "%d:x", ":", "::", "%d:1e999", "%d:0x1p-2", "%d:NaN"}
	labs := []string{"0", "-1", "x", "1.5", "1:2", "9999999999999999999999"}
	for rows := 1; rows <= 3; rows++ {
		for cols := 0; cols <= 3; cols++ {
			for r := 0; r < rows; r++ {
				for k := -1; k < cols; k++ {
					set := terms
					if k < 0 {
						set = labs
					}
					for ti, term := range set {
						for end := 0; end < 8; end++ {
							nl := "\n"
							if end%2 == 1 {
								nl = "\r\n"
							}
							var lines []string
							for i := 0; i < rows; i++ {
								f := []string{strconv.Itoa(i * 2)}
								if i == r && k < 0 {
									f[0] = term
								}
								for j := 0; j < cols; j++ {
									v := fmt.Sprintf("%d:%d", j+1, i*3+j)
									if i == r && j == k {
										if strings.Contains(term, "%") {
											v = fmt.Sprintf(term, j+1)
										} else {
											v = term
										}
									}
									f = append(f, v)
								}
								lines = append(lines, strings.Join(f, " "))
							}
							var t string
							switch end / 2 {
							case 0:
								t = strings.Join(lines, nl)
							case 1:
								t = strings.Join(lines, nl) + nl
							case 2:
								t = nl + strings.Join(lines, nl+nl) + nl + nl
							case 3:
								t = "  " + strings.Join(lines, " "+nl+" \t"+nl+" ") + " "
							}
							c.run(func() string { return fmt.Sprintf("%q", t) }, func() error {
								for m := 0; m < 2; m++ {
									if err := svmOnce(c, t, m == 1, ti == 0); err != nil {
										return fmt.Errorf("header %v: %v", m == 1, err)
									}
								}
								c.state(1)
								c.nontrivial(t)
								return nil
							})
						}
					}
				}
			}
		}
	}
	c.family("long lines, many lines")
	for _, n := range []int{1000, 4095, 4096, 4097, 8192, 16383, 16384, 33000, 65537, 70000} {
		for kind := 0; kind < 4; kind++ {
			for tail := 0; tail < 2; tail++ {
				c.run(func() string { return fmt.Sprintf("%d, kind %d, tail %d", n, kind, tail) }, func() error {
					var b strings.Builder
					switch kind {
					case 0: // one long CSV line between short tables
						for i := 0; i < 3; i++ {
							b.WriteString("1")
							for j := 0; j < n/2; j++ {
								b.WriteString(",2")
							}
							if i < 2 || tail == 1 {
								b.WriteString("\n")
							}
						}
						return csvOnce(c, b.String(), false, true, ',', false)
					case 1:
						for i := 0; i < n/5; i++ {
							fmt.Fprintf(&b, "%d,%d.5\n", i, i%7)
						}
						t := b.String()
						if tail == 0 {
							t = t[:len(t)-1]
						}
						return csvOnce(c, t, false, true, ',', false)
					case 2:
						row := "7"
						for j := 0; len(row) < n; j++ {
							row += fmt.Sprintf(" %d:%d", j+1, j%10)
						}
						for i := 0; i < 3; i++ {
							b.WriteString(row)
							if i < 2 || tail == 1 {
								b.WriteString("\n")
							}
						}
						return svmOnce(c, b.String(), false, false)
					default:
						for i := 0; i < n/5; i++ {
							fmt.Fprintf(&b, "%d 1:%d.5\n", i, i%7)
						}
						t := b.String()
						if tail == 0 {
							t = t[:len(t)-1]
						}
						return svmOnce(c, t, tail == 0, false)
					}
				})
			}
		}
	}
	dir := scratch(c)
	defer os.RemoveAll(dir)
	c.family("files")
	for _, t := range []string{"", "1,2\n3,4", "1,2\n3,4\n", "a,b\n1,2\n", "1;2\n3;4", "1,2\n3", "1 1:2\n2 1:3", "1 1:2\n2 1:3\n", "Labels 1:a\n1 1:2\n", "1 1:x\n"} {
		for m := 0; m < 4; m++ {
			c.run(func() string { return fmt.Sprintf("file %q, mode %d", t, m) }, func() error {
				f := filepath.Join(dir, "data")
				if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
					panic("harness: " + err.Error())
				}
				h, l := m&1 == 1, m&2 == 2
				for _, sep := range []rune{0, ',', ';'} {
					var d *utils.DataBunch
					var err error
					s := sep
					if sep == 0 {
						d, err = utils.DataBunchFromCSVFile(f, h, l)
						s = ','
					} else {
						d, err = utils.DataBunchFromCSVFile(f, h, l, sep)
					}
					if e := refCSV(t, h, l, s).compare(d, err, l); e != nil {
						return fmt.Errorf("CSV, separator %q: %v", s, e)
					}
				}
				d, err := utils.DataBunchFromLibSVMFile(f, h)
				if e := refSVM(t, h).compare(d, err, true); e != nil {
					return fmt.Errorf("libSVM: %v", e)
				}
				if !h {
					d, err := utils.DataBunchFromLibSVMFile(f)
					if e := refSVM(t, h).compare(d, err, true); e != nil {
						return fmt.Errorf("libSVM: %v", e)
					}
				}
				for _, bad := range []string{filepath.Join(dir, "none"), dir} {
					if d, err := utils.DataBunchFromCSVFile(bad, h, l); err == nil || d != nil {
						return fmt.Errorf("unreadable CSV file: %v %v", d, err)
					}
					if d, err := utils.DataBunchFromLibSVMFile(bad, h); err == nil || d != nil {
						return fmt.Errorf("unreadable libSVM file: %v %v", d, err)
					}
					if d, err := confu.ReadNameMap(bad); err == nil {
						return fmt.Errorf("unreadable names file: %v %v", d, err)
					}
				}
				c.transition(6)
				c.state(1)
				return nil
			})
		}
	}
	c.family("label-name files of up to so many tokens")
	for _, sep := range []string{" ", ",", "::", "\t"} {
		toks := []string{"1", "-2", "ab", sep, "\n", "c d", "3"}
		if sep == " " {
			toks = []string{"1", "-2", "ab", " ", "\n", "\t", "\r\n"}
		}
		for L := 0; L <= maxNm; L++ {
			if L == maxNm {
				toks = toks[:5]
			}
			tuples(L, len(toks), func(ix []int) {
				t := join(toks, ix)
				if sep != " " && sep != "\t" {
					for _, l := range strings.Split(t, "\n") {
						if l != "" && strings.TrimSpace(l) == "" {
							return
						}
					}
				}
				if sep == "\t" && (strings.Contains(t, "\t\t") || strings.Contains("\n"+t, "\n\t") || strings.Contains(t+"\n", "\t\n")) {
					return
				}
				c.run(func() string { return fmt.Sprintf("names %q, separator %q", t, sep) }, func() error {
					c.state(1)
					if sep == " " {
						if err := namesOnce(c, dir, t, " "); err != nil {
							return err
						}
						if err := namesOnce(c, dir, t, " ", ""); err != nil {
							return err
						}
					}
					return namesOnce(c, dir, t, sep, sep)
				})
			})
		}
	}
	c.family("long label-name files")
	for _, n := range []int{10, 1000, 4096, 9000, 70000} {
		for m := 0; m < 4; m++ {
			c.run(func() string { return fmt.Sprintf("%d, %d", n, m) }, func() error {
				var b bytes.Buffer
				if m&1 == 0 {
					for i := 0; b.Len() < n; i++ {
						fmt.Fprintf(&b, "%d name%d\n", i, i)
					}
				} else {
					for i := 0; i < 3; i++ {
						fmt.Fprintf(&b, "%d %s\n", i, strings.Repeat("z", n))
					}
				}
				t := b.String()
				if m&2 == 0 {
					t = t[:len(t)-1]
				}
				return namesOnce(c, dir, t, " ")
			})
		}
	}
	oddTexts(c)
	c.family("plain label names")
	tuples(4, 4, func(ix []int) {
		c.run(func() string { return fmt.Sprint(ix) }, func() error {
			vals := []int{0, -7, 12, 1000000}
			var ls []int
			w := map[int]string{}
			for _, i := range ix {
				ls = append(ls, vals[i])
				w[vals[i]] = strconv.Itoa(vals[i])
			}
			m := confu.MakeSimpleNameMap(ls)
			if len(m) != len(w) {
				return fmt.Errorf("%v, should be %v", m, w)
			}
			for k, v := range w {
				if m[k] != v {
					return fmt.Errorf("%v, should be %v", m, w)
				}
			}
			return nil
		})
	})
}

// ---- C17 ----

func checkC17(c *ctx) {
	vals := []float64{0, 1, -1, 0.00004, -0.00001, 3.14159265, 123456.78912, -99999.99996, 1e10, 0.5, 1e-300, 1e22, -2.0000499, 10, 100000, 123456789012345678, -98765432.1234567, 99.99995}
	labsets := [][]int{{0, 1, 2, 0}, {-3, 100000, 7, -1}, nil, {5}, {1 << 40, -1 << 35, math.MaxInt64, math.MinInt64}}
	keysets := func(cols int) [][]string {
		r := [][]string{nil, {}}
		full := []string{"alpha", "b2", "C_c", "d.d"}
		r = append(r, full[:cols])
		if cols > 1 {
			r = append(r, full[:cols-1])
		}
		r = append(r, append(slices.Clone(full[:cols]), "more"))
		num := []string{"1", "2.5", "-3", "4"}
		r = append(r, num[:cols])
		return r
	}
	seps := []string{"", ",", ";", "\t", "|", ":", " ", "→", "é"}
	one := func(d *utils.DataBunch) error {
		keep := copyDB(d)
		named := len(d.Data) > 0 && len(d.Keys) == len(d.Data[0])
		cmp := func(g *utils.DataBunch, err error) error {
			if err != nil {
				return err
			}
			if len(g.Data) != len(d.Data) {
				return fmt.Errorf("%d rows, were %d", len(g.Data), len(d.Data))
			}
			for i := range d.Data {
				if len(g.Data[i]) != len(d.Data[i]) {
					return fmt.Errorf("row %d is %v, was %v", i, g.Data[i], d.Data[i])
				}
				for j, v := range d.Data[i] {
					if !(math.Abs(g.Data[i][j]-v) <= 0.5000001e-4+1e-12*math.Abs(v)) {
						return fmt.Errorf("row %d is %v, was %v", i, g.Data[i], d.Data[i])
					}
				}
				l := -1
				if len(d.Labels) == len(d.Data) {
					l = d.Labels[i]
				}
				if g.Labels[i] != l {
					return fmt.Errorf("labels %v, were %v", g.Labels, d.Labels)
				}
			}
			if len(g.Labels) != len(d.Data) {
				return fmt.Errorf("%d labels for %d rows", len(g.Labels), len(d.Data))
			}
			if named && !slices.Equal(g.Keys, d.Keys) {
				return fmt.Errorf("names %q, were %q", g.Keys, d.Keys)
			}
			return nil
		}
		for _, s := range seps {
			var t string
			r := ','
			if s == "" {
				t = d.CSV()
			} else {
				t = d.CSV(s)
				r = []rune(s)[0]
			}
			c.transition(1)
			if len(d.Data) == 0 {
				if t != "" {
					return fmt.Errorf("an empty dataset is written as %q", t)
				}
			}
			if len(d.Data) == 0 && named {
				continue
			}
			g, err := utils.ParseCSVFromReader(strings.NewReader(t), named, true, r)
			if e := cmp(g, err); e != nil {
				return fmt.Errorf("CSV with separator %q: %v; text %q", s, e, cut(t, 300))
			}
		}
		t := d.LibSVM()
		c.transition(1)
		if len(d.Data) == 0 && t != "" {
			return fmt.Errorf("an empty dataset is written as %q", t)
		}
		g, err := utils.ParseLibSVMFromReader(strings.NewReader(t), named)
		if e := cmp(g, err); e != nil {
			return fmt.Errorf("libSVM: %v; text %q", e, cut(t, 300))
		}
		// the terms are numbered from 1, as the format has it
		for i, line := range strings.Split(t, "\n") {
			fs := strings.Fields(line)
			for j := 1; j < len(fs); j++ {
				if k := strings.Index(fs[j], ":"); k < 0 || fs[j][:k] != strconv.Itoa(j) {
					return fmt.Errorf("libSVM: term %d of line %d is %q", j, i, fs[j])
				}
			}
		}
		if !sameDB(d, keep) {
			return fmt.Errorf("writing changed the dataset")
		}
		c.trace()
		c.state(1)
		return nil
	}
	c.family("datasets")
	shapes := [][2]int{{1, 0}, {3, 0}, {1, 1}, {1, 2}, {2, 1}, {3, 1}, {2, 2}, {3, 3}, {4, 2}}
	for _, sh := range shapes {
		n, k := sh[0], sh[1]
		cells := n * k
		use := len(vals)
		gen := func(f func(v func(i, j int) float64)) {
			if cells <= 2 || cells == 3 && c.thorough() {
				tuples(cells, use, func(ix []int) { f(func(i, j int) float64 { return vals[ix[i*k+j]] }) })
				return
			}
			for a := 0; a < use; a++ { // every pair of values at every pair of positions
				for s := 1; s < use; s++ {
					f(func(i, j int) float64 { return vals[(a+(i*k+j)*s)%use] })
				}
			}
		}
		gen(func(v func(i, j int) float64) {
			for li, ls := range labsets {
				for ki, ks := range keysets(k) {
					if cells > 2 && (li+ki)%2 == 1 && c.quick {
						continue
					}
					d := &utils.DataBunch{Keys: slices.Clone(ks)}
					for i := 0; i < n; i++ {
						row := make([]float64, k)
						for j := range row {
							row[j] = v(i, j)
						}
						d.Data = append(d.Data, row)
						if i < len(ls) && len(ls) == 4 {
							d.Labels = append(d.Labels, ls[i])
						}
					}
					if len(ls) == 1 && n > 1 {
						d.Labels = slices.Clone(ls) // not one per row: unlabelled
					}
					c.run(func() string { return fmt.Sprintf("%+v", *d) }, func() error {
						c.nontrivial(fmt.Sprintf("%v", *d))
						return one(d)
					})
				}
			}
		})
	}
	c.family("empty datasets")
	for i, d := range []*utils.DataBunch{{}, {Data: [][]float64{}}, {Keys: []string{"a"}}, {Labels: []int{1}}, {Data: [][]float64{}, Keys: []string{"a", "b"}, Labels: []int{}}, nil} {
		c.run(func() string { return fmt.Sprintf("empty dataset %d", i) }, func() error {
			for _, s := range seps {
				var t string
				if s == "" {
					t = d.CSV()
				} else {
					t = d.CSV(s)
				}
				if t != "" {
					return fmt.Errorf("written as %q", t)
				}
			}
			if t := d.LibSVM(); t != "" {
				return fmt.Errorf("written as %q", t)
			}
			if d != nil {
				return one(d)
			}
			return nil
		})
	}
	c.family("large datasets")
	for _, n := range []int{10, 100, 1000, 5000, 70000} {
		for _, k := range []int{1, 7, 40, 130, 1100, 9000} {
			if n*k > 100000 && n*k != 100000 {
				continue
			}
			for m := 0; m < 4; m++ {
				c.run(func() string { return fmt.Sprintf("%d rows of %d, %d", n, k, m) }, func() error {
					d := &utils.DataBunch{}
					s := &stream{uint64(n*k + m)}
					for i := 0; i < n; i++ {
						row := make([]float64, k)
						for j := range row {
							row[j] = (s.Float64() - 0.5) * math.Pow(10, float64(s.IntN(9)-3))
						}
						d.Data = append(d.Data, row)
						if m&1 == 0 {
							d.Labels = append(d.Labels, s.IntN(40)-20)
						}
					}
					for j := 0; j < k && m&2 == 0; j++ {
						d.Keys = append(d.Keys, fmt.Sprintf("f%d", j))
					}
					return one(d)
				})
			}
		}
	}
}

var _ = errors.Is

func init() {
	checks["C16"] = checkC16
	checks["C17"] = checkC17
}

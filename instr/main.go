// Command verifinstr rewrites a scratch copy of github.com/rmera/boo so that its goroutines, channel
// operations, locks, map iterations and random draws go through the packages under zzverif, and wraps
// a few exported functions so that the harness can observe them. It never touches /repo.
//
//	verifinstr -dir SCRATCH [-mode full|light]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/rmera/boo"

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Name       string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifinstr:", err)
		os.Exit(3)
	}
}

var imports = map[string]string{
	"sync":         mod + "/zzverif/vsync",
	"sync/atomic":  mod + "/zzverif/vatomic",
	"math/rand/v2": mod + "/zzverif/vrand",
	"math/rand":    mod + "/zzverif/vrand1",
	"context":      mod + "/zzverif/vcontext",
}

func main() {
	dir := flag.String("dir", "", "scratch copy")
	mode := flag.String("mode", "full", "full or light")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Name", ".", "./utils", "./cv", "./confu")
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	die(err)
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	var mine []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range mine {
		die(instrument(fset, imp, p, *mode))
	}
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int // file base for offsets
	full  bool
	uid   *int
	used  bool
	hooks map[*ast.Ident]string
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, mode string) error {
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs[af] = b
		names[af] = fn
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return fmt.Errorf("type check of %s: %v", p.ImportPath, err)
	}
	if mode == "full" {
		// channels that the standard library closes or sends to by itself are invisible to the scheduler
		for id, o := range info.Uses {
			f, ok := o.(*types.Func)
			if !ok || o.Pkg() == nil {
				continue
			}
			switch o.Pkg().Path() {
			case "os/signal":
				return fmt.Errorf("%s: %s.%s is not modelled", fset.Position(id.Pos()), o.Pkg().Path(), f.Name())
			case "time":
				if slices.Contains([]string{"After", "AfterFunc", "NewTimer", "NewTicker", "Tick"}, f.Name()) && f.Type().(*types.Signature).Recv() == nil {
					return fmt.Errorf("%s: time.%s is not modelled", fset.Position(id.Pos()), f.Name())
				}
			case "iter":
				return fmt.Errorf("%s: iter.%s is not modelled", fset.Position(id.Pos()), f.Name())
			}
		}
	}
	hooks := map[*ast.Ident]string{}
	var hookSrc []string
	if p.ImportPath == mod {
		for _, f := range files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if s := hookFor(fd); s != "" {
					hooks[fd.Name] = fd.Name.Name + "_vorig"
					hookSrc = append(hookSrc, s)
				}
			}
		}
	}
	uid := 0
	for _, f := range files {
		r := &rewriter{fset: fset, info: info, src: srcs[f], base: fset.File(f.Pos()).Base(), full: mode == "full", uid: &uid, hooks: hooks}
		txt := r.children(f, 0, len(srcs[f]))
		if r.used {
			// after the package clause
			k := r.off(f.Name.End())
			// the package clause is never rewritten, so the offset is unchanged
			txt = txt[:k] + "\n\nimport vsched_ \"" + mod + "/zzverif/vsched\"\n" + txt[k:]
		}
		if err := os.WriteFile(names[f], []byte(txt), 0o644); err != nil {
			return err
		}
	}
	if p.ImportPath == mod {
		sort.Strings(hookSrc)
		s := "package boo\n\nimport \"" + mod + "/utils\"\n\nvar _ = utils.SampleSlice\n\n" + strings.Join(hookSrc, "\n")
		return os.WriteFile(filepath.Join(p.Dir, "zz_verif_hooks.go"), []byte(s), 0o644)
	}
	return nil
}

// hookFor returns the wrapper for a function the harness observes.
func hookFor(fd *ast.FuncDecl) string {
	switch {
	case fd.Recv == nil && fd.Name.Name == "NewMultiClass":
		return `// VerifNewMultiClass, if set, is called instead of NewMultiClass.
var VerifNewMultiClass func(D *utils.DataBunch, opts []*Options, orig func() *MultiClass) *MultiClass

func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
	if VerifNewMultiClass != nil {
		return VerifNewMultiClass(D, opts, func() *MultiClass { return NewMultiClass_vorig(D, opts...) })
	}
	return NewMultiClass_vorig(D, opts...)
}
`
	case fd.Recv == nil && fd.Name.Name == "SubSample":
		return `// VerifSubSample, if set, sees every result of SubSample.
var VerifSubSample func(tot int, frac float64, ret []int)

func SubSample(tot int, frac float64) []int {
	r := SubSample_vorig(tot, frac)
	if VerifSubSample != nil {
		VerifSubSample(tot, frac, r)
	}
	return r
}
`
	case fd.Recv != nil && fd.Name.Name == "Accuracy":
		return `// VerifAccuracy, if set, is called instead of Accuracy.
var VerifAccuracy func(M *MultiClass, D *utils.DataBunch, orig func() float64) float64

func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
	if VerifAccuracy != nil {
		return VerifAccuracy(M, D, func() float64 { return M.Accuracy_vorig(D, classes...) })
	}
	return M.Accuracy_vorig(D, classes...)
}
`
	}
	return ""
}

// text gives the rewritten text of n.
func (r *rewriter) text(n ast.Node) string {
	if s, ok := r.replace(n); ok {
		return s
	}
	return r.children(n, r.off(n.Pos()), r.off(n.End()))
}

// children copies src[from:to] with every outermost rewritable node below n replaced.
func (r *rewriter) children(n ast.Node, from, to int) string {
	type edit struct {
		a, b int
		s    string
	}
	var es []edit
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if s, ok := r.replace(c); ok {
			es = append(es, edit{r.off(c.Pos()), r.off(c.End()), s})
			return false
		}
		return true
	})
	sort.Slice(es, func(i, j int) bool { return es[i].a < es[j].a })
	var b strings.Builder
	pos := from
	for _, e := range es {
		if e.a < pos || e.b > to {
			continue
		}
		b.Write(r.src[pos:e.a])
		b.WriteString(e.s)
		pos = e.b
	}
	b.Write(r.src[pos:to])
	return b.String()
}

func (r *rewriter) under(e ast.Expr) types.Type {
	t := r.info.Types[e].Type
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) chanDir(e ast.Expr) (types.ChanDir, bool) {
	if c, ok := r.under(e).(*types.Chan); ok {
		return c.Dir(), true
	}
	return 0, false
}

func (r *rewriter) v(name string) string {
	r.used = true
	return "vsched_." + name
}

func (r *rewriter) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rewriter) replace(n ast.Node) (string, bool) {
	switch x := n.(type) {
	case *ast.ImportSpec:
		path, _ := strconv.Unquote(x.Path.Value)
		np, ok := imports[path]
		if !ok || !r.full && !strings.HasPrefix(path, "math") {
			return "", false
		}
		name := ""
		if x.Name != nil {
			name = x.Name.Name
		} else {
			name = strings.TrimSuffix(path, "/v2")
			name = name[strings.LastIndex(name, "/")+1:]
		}
		return name + " " + strconv.Quote(np), true
	case *ast.Ident:
		if s, ok := r.hooks[x]; ok {
			return s, true
		}
	}
	if !r.full {
		if x, ok := n.(*ast.RangeStmt); ok {
			return r.rangeStmt(x, true)
		}
		return "", false
	}
	switch x := n.(type) {
	case *ast.SendStmt:
		return r.v("SendTo(") + r.text(x.Chan) + ")(" + r.text(x.Value) + ")", true
	case *ast.UnaryExpr:
		if x.Op != token.ARROW {
			return "", false
		}
		f := "Recv("
		if _, ok := r.info.Types[x].Type.(*types.Tuple); ok {
			f = "Recv2("
		}
		return r.v(f) + r.text(x.X) + ")", true
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return r.v("Close(") + r.text(x.Args[0]) + ")", true
		case "len":
			if d, ok := r.chanDir(x.Args[0]); ok {
				if d == types.SendOnly {
					return r.v("LenS(") + r.text(x.Args[0]) + ")", true
				}
				return r.v("Len(") + r.text(x.Args[0]) + ")", true
			}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x, false)
	case *ast.GoStmt:
		return r.goStmt(x), true
	case *ast.SelectStmt:
		return r.selectStmt(x), true
	}
	return "", false
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, mapsOnly bool) (string, bool) {
	f := ""
	switch r.under(x.X).(type) {
	case *types.Chan:
		if mapsOnly {
			return "", false
		}
		f = "RangeChan("
	case *types.Map:
		f = "RangeMap("
	default:
		return "", false
	}
	head := ""
	if x.Key != nil {
		head = r.text(x.Key)
		if x.Value != nil {
			head += ", " + r.text(x.Value)
		}
		head += " " + x.Tok.String() + " "
	}
	return "for " + head + "range " + r.v(f) + r.text(x.X) + ") " + r.text(x.Body), true
}

func (r *rewriter) goStmt(x *ast.GoStmt) string {
	call := x.Call
	if fl, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		return r.v("Go(") + r.text(fl) + ")"
	}
	var pre []string
	hoist := func(e ast.Expr) string {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return r.text(e)
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return r.text(e)
		}
		*r.uid++
		nm := fmt.Sprintf("_vg%d", *r.uid)
		pre = append(pre, nm+" := "+r.text(e))
		return nm
	}
	fn := ""
	fun := ast.Unparen(call.Fun)
	direct := r.builtin(fun) != ""
	switch f := fun.(type) {
	case *ast.Ident:
		_, isf := r.info.Uses[f].(*types.Func)
		direct = direct || isf
	case *ast.SelectorExpr:
		if _, sel := r.info.Selections[f]; !sel {
			_, isf := r.info.Uses[f.Sel].(*types.Func)
			direct = direct || isf
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if _, ok := r.info.Types[fun].Type.(*types.Signature); ok {
			direct = false
		}
	case *ast.FuncLit:
		direct = false
	}
	if direct {
		fn = r.text(call.Fun)
	} else {
		fn = hoist(call.Fun)
	}
	var args []string
	for _, a := range call.Args {
		args = append(args, hoist(a))
	}
	c := fn + "(" + strings.Join(args, ", ")
	if call.Ellipsis.IsValid() {
		c += "..."
	}
	c += ")"
	s := "{\n"
	for _, p := range pre {
		s += p + "\n"
	}
	return s + r.v("Go(func() { ") + c + " })\n}"
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) string {
	var vars, inits []string
	hasDef := false
	type cl struct {
		idx  int
		head string
		cc   *ast.CommClause
	}
	var cls []cl
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			cls = append(cls, cl{-1, "", cc})
			continue
		}
		*r.uid++
		nm := fmt.Sprintf("_vc%d", *r.uid)
		idx := len(vars)
		head := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, r.v("SendCaseTo(")+r.text(c.Chan)+")("+r.text(c.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, r.v("RecvCase(")+r.text(ast.Unparen(c.X).(*ast.UnaryExpr).X)+")")
		case *ast.AssignStmt:
			inits = append(inits, r.v("RecvCase(")+r.text(ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr).X)+")")
			head = r.text(c.Lhs[0])
			rhs := nm + ".V"
			if len(c.Lhs) > 1 {
				head += ", " + r.text(c.Lhs[1])
				rhs += ", " + nm + ".Ok"
			}
			head += " " + c.Tok.String() + " " + rhs
		}
		vars = append(vars, nm)
		cls = append(cls, cl{idx, head, cc})
	}
	if len(cls) == 0 {
		return r.v("Select(false)")
	}
	s := "switch "
	if len(vars) > 0 {
		s += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	s += r.v(fmt.Sprintf("Select(%v", hasDef))
	for _, v := range vars {
		s += ", " + v
	}
	s += ") {\n"
	for i, c := range cls {
		if c.idx < 0 || !hasDef && i == len(cls)-1 {
			s += "default:\n"
		} else {
			s += fmt.Sprintf("case %d:\n", c.idx)
		}
		if c.head != "" {
			s += c.head + "\n"
		}
		for _, b := range c.cc.Body {
			s += r.text(b) + "\n"
		}
	}
	return s + "}"
}

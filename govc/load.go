package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by short name
	funcs map[string]*ssa.Function
	types map[string]*types.Package
	inits map[string]*ssa.Function
}

func funcKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok {
		return objKey(o)
	}
	return f.String()
}

func objKey(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			return "(" + star + pk + n.Obj().Name() + ")." + o.Name()
		}
		return "(iface)." + o.Name()
	}
	if o.Pkg() != nil {
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	}
	return o.Name()
}

func loadRepo(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./pkg/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, pkgs := ssautil.Packages(ps, ssa.NaiveForm|ssa.InstantiateGenerics)
	P := &Prog{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, types: map[string]*types.Package{}, inits: map[string]*ssa.Function{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		p.Build()
		P.pkgs[shortPkg(p.Pkg.Path())] = p
	}
	for _, p := range prog.AllPackages() {
		P.types[shortPkg(p.Pkg.Path())] = p.Pkg
	}
	var addPk func(tp *types.Package)
	addPk = func(tp *types.Package) {
		s := shortPkg(tp.Path())
		if _, ok := P.types[s]; !ok {
			P.types[s] = tp
			for _, i := range tp.Imports() {
				addPk(i)
			}
		}
	}
	for _, p := range ps {
		if p.Types != nil {
			P.types[shortPkg(p.PkgPath)] = p.Types
			for _, i := range p.Types.Imports() {
				addPk(i)
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		if f.Synthetic != "" {
			if f.Name() == "init" && f.Synthetic == "package initializer" {
				P.inits[shortPkg(f.Pkg.Pkg.Path())] = f
			}
			continue
		}
		k := funcKey(f)
		if f.Parent() != nil {
			continue
		}
		if strings.HasSuffix(f.Pkg.Pkg.Path(), "_test") {
			continue
		}
		P.funcs[k] = f
	}
	return P, nil
}

// ---------- loops ----------

type Loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	stmt    ast.Stmt
	pos     token.Pos
	iter    *ssa.Alloc // induction cell
	iterOff int64      // completed iterations = value of iter + iterOff
}

var loopCache = map[*ssa.Function][]*Loop{}

func loopsOf(f *ssa.Function) []*Loop {
	if l, ok := loopCache[f]; ok {
		return l
	}
	by := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					out = append(out, l)
				}
				// natural loop
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// find statements
	var stmts []ast.Stmt
	if f.Syntax() != nil {
		ast.Inspect(f.Syntax(), func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				if n != f.Syntax() {
					return false
				}
			case *ast.ForStmt:
				stmts = append(stmts, n)
			case *ast.RangeStmt:
				stmts = append(stmts, n)
			}
			return true
		})
	}
	for _, l := range out {
		var lo, hi token.Pos
		for b := range l.blocks {
			for _, in := range b.Instrs {
				p := in.Pos()
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				if p == token.NoPos {
					continue
				}
				if lo == 0 || p < lo {
					lo = p
				}
				if p > hi {
					hi = p
				}
			}
		}
		for _, s := range stmts {
			if lo != 0 && s.Pos() <= lo && hi <= s.End() {
				if l.stmt == nil || s.End()-s.Pos() < l.stmt.End()-l.stmt.Pos() {
					l.stmt = s
				}
			}
		}
		if l.stmt != nil {
			l.pos = l.stmt.Pos()
		} else {
			l.pos = lo
		}
		// induction cell
		switch s := l.stmt.(type) {
		case *ast.RangeStmt:
			for _, in := range l.header.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.Alloc); ok && strings.HasPrefix(a.Comment, "rangeindex") {
						l.iter = a
						l.iterOff = 1
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && l.iter == nil {
					if a, ok := u.X.(*ssa.Alloc); ok && strings.HasPrefix(a.Comment, "rangeint") {
						l.iter = a
					}
				}
			}
			_ = s
		case *ast.ForStmt:
			if as, ok := s.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
				if id, ok := as.Lhs[0].(*ast.Ident); ok {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if a, ok := in.(*ssa.Alloc); ok && a.Comment == id.Name && a.Pos() == id.Pos() {
								l.iter = a
							}
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	loopCache[f] = out
	return out
}

// scopePos: a position from which the loop's variables are visible.
func (l *Loop) scopePos() token.Pos {
	switch s := l.stmt.(type) {
	case *ast.ForStmt:
		return s.Body.Lbrace + 1
	case *ast.RangeStmt:
		return s.Body.Lbrace + 1
	}
	return l.pos
}

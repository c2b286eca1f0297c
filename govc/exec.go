package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	qmu      sync.Mutex
	prog     *Prog
	spec     *Spec
	fnAxioms map[string]*Term
	recLevel string
	obls     []*Obl
	notes    map[string]bool
	assumed  map[string]bool // trusted contracts used
	used     map[string]*FuncSpec
	axs      []*lemmaAx
	axReady  bool
}

// Obl is one proof obligation.
type Obl struct {
	fn     string // function key
	name   string // stable name
	pos    string // source position, informational
	pcs    []*Term
	goal   *Term
	inputs []NamedTerm
	cover  bool // expected satisfiable (reachability)
	skip   []string
	// result
	status  string // "proved", "failed", "unknown"
	solver  string
	secs    float64
	out     string
	timeout int
	hash    string
	query   string
	seq     int
	groups  []*joinGroup // selectors of joined paths, for a proof by cases
	of      *Obl         // the obligation this one is a case of
	done    *atomic.Bool // set when the remaining cases need no answer
}

type NamedTerm struct {
	name string
	t    *Term
}

type cellKey struct {
	frame int
	alloc *ssa.Alloc
}

type valKey struct {
	frame int
	v     ssa.Value
}

type Val struct {
	t    *Term
	lv   *LV
	tup  []*Val
	fn   *ssa.Function
	bind []*Val
	dyn  *Val // concrete value inside an interface
	dynT types.Type
}

type pathEl struct {
	field int
	idx   *Term
}

type LV struct {
	kind  string // "cell", "heap", "elem", "back"
	cell  cellKey
	hname string
	hsort Sort
	ref   *Term
	idx   *Term
	path  []pathEl
	typ   types.Type // type of the root object
	ptyp  types.Type // type at end of path
}

type pcNode struct {
	t    *Term
	prev *pcNode
}

type loopAct struct {
	loop   *Loop
	frame  int
	pre    *State
	alloc  *Term
	mods   []modLoc
	spec   *LoopSpec
	ord    int
	fnmods bool
}

type modLoc struct {
	heap  string
	ref   *Term // nil: whole heap variable (ghost)
	field int   // -1: whole object
}

type State struct {
	pc     *pcNode
	seen   map[int]bool
	heap   map[string]*Term
	cells  map[cellKey]*Val
	env    map[valKey]*Val
	loops  []*loopAct
	ncall  map[string]int
	iv     *ivState
	ivAt   *pcNode
	groups []*joinGroup
	pend   map[int][]*Term // what follows from a condition not yet known
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, seen: make(map[int]bool, len(s.seen)+16), heap: make(map[string]*Term, len(s.heap)), cells: make(map[cellKey]*Val, len(s.cells)), env: make(map[valKey]*Val, len(s.env)+16)}
	for k, v := range s.seen {
		n.seen[k] = v
	}
	if s.pend != nil {
		n.pend = make(map[int][]*Term, len(s.pend))
		for k, v := range s.pend {
			n.pend[k] = v
		}
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.loops = append([]*loopAct{}, s.loops...)
	n.groups = append([]*joinGroup{}, s.groups...)
	n.ncall = map[string]int{}
	for k, v := range s.ncall {
		n.ncall[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.seen[t.id] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t.op == "=>" {
		// what is already known is left out of the premise
		if a := s.unknown(t.args[0]); a != t.args[0] {
			s.assume(Implies(a, t.args[1]))
			return
		}
		if s.pend == nil {
			s.pend = map[int][]*Term{}
		}
		if a := t.args[0]; a.op != "and" {
			s.pend[a.id] = append(s.pend[a.id][:len(s.pend[a.id]):len(s.pend[a.id])], t.args[1])
		}
	}
	s.seen[t.id] = true
	s.pc = &pcNode{t, s.pc}
	if p := s.pend[t.id]; p != nil {
		delete(s.pend, t.id)
		for _, b := range p {
			s.assume(b)
		}
	}
}

// recall repeats what is known of t: the latest assumptions are tried first.
func (s *State) recall(t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			s.recall(a)
		}
	} else if s.seen[t.id] && t != False {
		s.pc = &pcNode{t, s.pc}
	}
}

// unknown is the conjunction of the parts of t that are not yet known.
func (s *State) unknown(t *Term) *Term {
	if s.seen[t.id] {
		return True
	}
	if t.op != "and" {
		return t
	}
	var out []*Term
	for _, a := range t.args {
		if !s.seen[a.id] {
			out = append(out, a)
		}
	}
	if len(out) == len(t.args) {
		return t
	}
	return And(out...)
}

func (s *State) dead() bool { return s.seen[False.id] }

func (s *State) pcs() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) getHeap(vc *VC, name string, srt Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	// first use: the entry version of this heap variable
	return Const(name+"@0", srt)
}

func (s *State) alloc() *Term {
	if t, ok := s.heap["$alloc"]; ok {
		return t
	}
	return Const("$alloc@0", SInt)
}

// VC is the verification of one function under one contract.
type VC struct {
	C       *Ctx
	fn      *ssa.Function
	key     string
	spec    *FuncSpec
	aspect  string
	entry   *State
	params  []*Val
	frames  map[int]*Frame
	nframe  int
	inputs  []NamedTerm
	npaths  int
	returns int
	steps   int
	oblN    map[string]int
	lets    map[string]SV
	mods    []modLoc
	start   int
	nopanic bool
	stops   []*stopPoint
	joined  bool
}

func (vc *VC) ctxOrNil() *VC { return vc }

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	args   []*Val
	path   string // inline path for loop numbering
	old    *State
	depth  int
}

type unsupported struct{ msg string }

func (vc *VC) unsup(pos token.Pos, f string, a ...any) {
	panic(unsupported{fmt.Sprintf("%s: %s", vc.posStr(pos), fmt.Sprintf(f, a...))})
}

func (vc *VC) posStr(p token.Pos) string {
	if p == token.NoPos {
		return vc.key
	}
	ps := vc.C.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}

var repoDir = "/repo"

// ---------- obligations ----------

func (vc *VC) prove(st *State, goal *Term, name string, pos token.Pos) {
	if goal == True {
		vc.countTrivial(name)
		return
	}
	if goal.op == "and" {
		for i, g := range goal.args {
			if altDup[g.id] {
				continue
			}
			vc.prove(st, g, fmt.Sprintf("%s.%d", name, i), pos)
		}
		return
	}
	if st.seen[goal.id] {
		vc.countTrivial(name)
		return
	}
	if st.dead() {
		return
	}
	vc.oblN[name]++
	nm := name
	if n := vc.oblN[name]; n > 1 {
		nm = fmt.Sprintf("%s~%d", name, n)
	}
	o := &Obl{fn: vc.key, name: vc.oblPrefix() + "/" + nm, pos: vc.posStr(pos), pcs: st.pcs(), goal: goal, inputs: vc.inputs, timeout: vc.spec.timeout}
	if vc.spec.split {
		o.groups = append([]*joinGroup{}, st.groups...)
	}
	vc.C.obls = append(vc.C.obls, o)
}

func (vc *VC) oblPrefix() string {
	if vc.aspect != "" {
		return vc.key + "@" + vc.aspect
	}
	return vc.key
}

var trivial = map[string]int{}

func (vc *VC) countTrivial(name string) { trivial[vc.oblPrefix()]++ }

// ---------- lvalues ----------

func (vc *VC) rootTerm(st *State, lv *LV) *Val {
	switch lv.kind {
	case "cell":
		v, ok := st.cells[lv.cell]
		if !ok {
			panic(unsupported{"uninitialised cell " + lv.cell.alloc.Comment})
		}
		return v
	case "heap":
		return &Val{t: Select(st.getHeap(vc, lv.hname, lv.hsort), lv.ref)}
	case "elem":
		return &Val{t: Select(Select(st.getHeap(vc, lv.hname, lv.hsort), lv.ref), lv.idx)}
	case "back":
		return &Val{t: Select(st.getHeap(vc, lv.hname, lv.hsort), lv.ref)}
	case "global":
		if vc.spec.model == "init" && strings.HasSuffix(lv.hname, ".init$guard") {
			return &Val{t: False} // the first and only run of the initialiser
		}
		return &Val{t: st.getHeap(vc, lv.hname, lv.hsort)}
	}
	if lv.kind == "bs" {
		return &Val{t: bat(lv.ref, lv.idx)}
	}
	panic("bad lv")
}

func (vc *VC) load(st *State, lv *LV) *Val {
	v := vc.rootTerm(st, lv)
	if len(lv.path) == 0 {
		if v.t != nil && lv.kind != "cell" {
			st.assume(wf(lv.ptyp, v.t, st.alloc(), false))
		}
		return v
	}
	t := v.t
	if t == nil {
		panic(unsupported{"field of non-term value"})
	}
	for _, p := range lv.path {
		if p.idx != nil {
			t = Select(t, p.idx)
		} else {
			t = Sel(t, p.field)
		}
	}
	if !isIntLit(t) {
		st.assume(wf(lv.ptyp, t, st.alloc(), false))
	}
	return &Val{t: t}
}

func isIntLit(t *Term) bool { return t.op == "int" }

func updPath(t *Term, path []pathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.idx != nil {
		return Store(t, p.idx, updPath(Select(t, p.idx), path[1:], v))
	}
	return Upd(t, p.field, updPath(Sel(t, p.field), path[1:], v))
}

func (vc *VC) store(st *State, lv *LV, v *Val, pos token.Pos) {
	switch lv.kind {
	case "cell":
		if len(lv.path) == 0 {
			st.cells[lv.cell] = v
			return
		}
		root := st.cells[lv.cell]
		nt := updPath(root.t, lv.path, vc.coerce(st, v, lv.path, pos))
		st.cells[lv.cell] = &Val{t: nt}
		return
	case "heap":
		f := -1
		if len(lv.path) > 0 && lv.path[0].idx == nil {
			f = lv.path[0].field
		}
		vc.checkWrite(st, modLoc{lv.hname, lv.ref, f}, pos)
		h := st.getHeap(vc, lv.hname, lv.hsort)
		obj := updPath(Select(h, lv.ref), lv.path, vc.coerce(st, v, lv.path, pos))
		st.heap[lv.hname] = Store(h, lv.ref, obj)
	case "elem":
		vc.checkWrite(st, modLoc{lv.hname, lv.ref, -1}, pos)
		h := st.getHeap(vc, lv.hname, lv.hsort)
		a := Select(h, lv.ref)
		el := updPath(Select(a, lv.idx), lv.path, vc.coerce(st, v, lv.path, pos))
		st.heap[lv.hname] = Store(h, lv.ref, Store(a, lv.idx, el))
	case "global":
		if vc.spec.model != "init" {
			panic(unsupported{"store to package variable " + lv.hname})
		}
		root := st.getHeap(vc, lv.hname, lv.hsort)
		st.heap[lv.hname] = updPath(root, lv.path, vc.term(st, v, pos))
	default:
		panic(unsupported{"store to whole array"})
	}
}

// coerce converts a slice to a byte string when the destination sort asks for it.
func (vc *VC) coerce(st *State, v *Val, path []pathEl, pos token.Pos) *Term {
	return vc.term(st, v, pos)
}

// term extracts the SMT term of a value.
func (vc *VC) term(st *State, v *Val, pos token.Pos) *Term {
	if v.t != nil {
		return v.t
	}
	if v.lv != nil && len(v.lv.path) == 0 && (v.lv.kind == "heap" || v.lv.kind == "back") {
		return v.lv.ref
	}
	if v.fn != nil {
		return Const("fn."+sanitize(v.fn.String()), SInt)
	}
	vc.unsup(pos, "interior pointer used as a value")
	return nil
}

// checkWrite proves that a location may be written under the contract and the
// active loops' frame conditions.
func (vc *VC) checkWrite(st *State, m modLoc, pos token.Pos) {
	allowed := func(mods []modLoc, alloc *Term) *Term {
		var alts []*Term
		if m.ref != nil {
			alts = append(alts, Ge(m.ref, alloc))
		}
		for _, x := range mods {
			if x.heap != m.heap {
				continue
			}
			if x.ref == nil {
				return True
			}
			if m.ref == nil {
				continue
			}
			if x.field >= 0 && x.field != m.field {
				continue
			}
			alts = append(alts, Eq(x.ref, m.ref))
		}
		return Or(alts...)
	}
	vc.prove(st, allowed(vc.mods, vc.entry.alloc()), "frame:"+m.heap, pos)
	for _, l := range st.loops {
		if l.fnmods {
			continue
		}
		vc.prove(st, allowed(l.mods, l.alloc), fmt.Sprintf("loop%d/frame:%s", l.ord, m.heap), pos)
	}
}

// ---------- values ----------

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	b, _ := t.Underlying().(*types.Basic)
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return strLit(constant.StringVal(v))
	case constant.Int, constant.Float:
		if b != nil && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(v)
			if b.Kind() == types.Float32 {
				return Int(int64(math.Float32bits(float32(f))))
			}
			return BigInt(new(big.Int).SetUint64(math.Float64bits(f)))
		}
		if i, ok := constant.Val(constant.ToInt(v)).(int64); ok {
			return Int(i)
		}
		if i, ok := constant.Val(constant.ToInt(v)).(*big.Int); ok {
			return BigInt(i)
		}
	}
	panic(unsupported{"constant " + v.String()})
}

func (vc *VC) val(st *State, f *Frame, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return &Val{t: zeroOf(v.Type())}
		}
		return &Val{t: constTerm(v.Value, v.Type())}
	case *ssa.Global:
		et := v.Type().(*types.Pointer).Elem()
		return &Val{lv: &LV{kind: "global", hname: globalName(v.Pkg.Pkg.Path(), v.Name()), hsort: sortOf(et), typ: et, ptyp: et}}
	case *ssa.Function:
		return &Val{fn: v}
	case *ssa.Builtin:
		return &Val{}
	}
	if x, ok := st.env[valKey{f.id, v}]; ok {
		return x
	}
	panic(unsupported{fmt.Sprintf("value %s undefined in %s", v.Name(), f.fn)})
}

func globalName(pkg, n string) string { return "G." + shortPkg(pkg) + "." + n }
func globalTerm(pkg, n string, t types.Type) *Term {
	return Const(globalName(pkg, n)+"@0", sortOf(t))
}

func typeTag(t types.Type) *Term {
	return Const("tag."+sanitize(typeName(t)), SInt)
}
func boxTerm(t types.Type, v *Term) *Term {
	return App("box."+sanitize(typeName(t)), SInt, v)
}
func unboxTerm(t types.Type, v *Term) *Term {
	return App("unbox."+sanitize(typeName(t)), sortOf(t), v)
}

func (vc *VC) newRef(st *State) *Term {
	a := st.alloc()
	st.heap["$alloc"] = Add(a, Int(1))
	return a
}

// ---------- running ----------

type cont func(st *State, res []*Val)

func (vc *VC) newFrame(fn *ssa.Function, parent *Frame, args []*Val, path string) *Frame {
	vc.nframe++
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	f := &Frame{id: vc.nframe, fn: fn, parent: parent, args: args, path: path, depth: d}
	vc.frames[f.id] = f
	return f
}

func (vc *VC) runFunc(st *State, f *Frame, k cont) {
	if f.fn.Blocks == nil {
		panic(unsupported{"no body for " + f.fn.String()})
	}
	if f.depth > 12 {
		panic(unsupported{"inlining too deep at " + f.fn.String()})
	}
	for i, p := range f.fn.Params {
		st.env[valKey{f.id, p}] = f.args[i]
	}
	vc.block(st, f, f.fn.Blocks[0], nil, k)
}

func (vc *VC) block(st *State, f *Frame, b, pred *ssa.BasicBlock, k cont) {
	joined := vc.joined
	vc.joined = false
	if st.dead() {
		return
	}
	// leaving loops
	for len(st.loops) > 0 {
		top := st.loops[len(st.loops)-1]
		if top.frame == f.id && !top.loop.blocks[b] {
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	if vc.atStop(st, f, b, pred, joined) {
		return
	}
	for _, l := range loopsOf(f.fn) {
		if l.header == b {
			if l.blocks[pred] && pred != nil {
				vc.backEdge(st, f, l, pred)
				return
			}
			vc.enterLoop(st, f, l, pred)
			break
		}
	}
	i := 0
	if joined {
		// the join has computed the phis
		for _, ok := b.Instrs[i].(*ssa.Phi); ok; _, ok = b.Instrs[i].(*ssa.Phi) {
			i++
		}
	}
	vc.instrs(st, f, b, pred, i, k)
}

func (vc *VC) instrs(st *State, f *Frame, b, pred *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		vc.steps++
		if vc.steps > 400000 {
			panic(unsupported{"too many symbolic steps"})
		}
		in := b.Instrs[i]
		set := func(v *Val) { st.env[valKey{f.id, in.(ssa.Value)}] = v }
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.If:
			c := vc.val(st, f, in.Cond).t
			if c == True {
				vc.block(st, f, b.Succs[0], b, k)
				return
			}
			if c == False {
				vc.block(st, f, b.Succs[1], b, k)
				return
			}
			if vc.spec.merge && vc.branchMerged(st, f, b, c, k) {
				return
			}
			st2 := st.clone()
			st.assume(c)
			vc.branch(st)
			if !(st.seen[Not(c).id]) && !vc.pruned(st) {
				vc.block(st, f, b.Succs[0], b, k)
			}
			st2.assume(Not(c))
			if !(st2.seen[c.id]) && !vc.pruned(st2) {
				vc.block(st2, f, b.Succs[1], b, k)
			}
			return
		case *ssa.Jump:
			vc.block(st, f, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var rs []*Val
			for _, r := range in.Results {
				rs = append(rs, vc.val(st, f, r))
			}
			// drop loops of this frame
			for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == f.id {
				st.loops = st.loops[:len(st.loops)-1]
			}
			k(st, rs)
			return
		case *ssa.Panic:
			if vc.nopanic {
				vc.prove(st, False, "nopanic", in.Pos())
			}
			return
		case *ssa.Phi:
			for j, p := range b.Preds {
				if p == pred {
					set(vc.val(st, f, in.Edges[j]))
				}
			}
		case *ssa.Store:
			addr := vc.addr(st, f, in.Addr, in.Pos())
			v := vc.val(st, f, in.Val)
			// In "return x, f(&x)" the compiler loads x after the call (go/ssa
			// loads in textual order).
			if u, ok := in.Val.(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == b && len(*u.Referrers()) == 1 {
				if a, ok := u.X.(*ssa.Alloc); ok && a.Heap && callBetween(b, u, in) {
					v = vc.load(st, vc.addr(st, f, a, in.Pos()))
				}
			}
			if vc.isBsDest(addr) && v.t != nil && v.t.sort == SSlice {
				v = &Val{t: bsOf(st, vc, v.t)}
			}
			vc.store(st, addr, v, in.Pos())
		case *ssa.Alloc:
			et := in.Type().(*types.Pointer).Elem()
			if !in.Heap {
				key := cellKey{f.id, in}
				if et.String() == "$ssa.deferStack" || strings.Contains(et.String(), "deferStack") {
					st.cells[key] = &Val{t: Int(0)}
				} else {
					st.cells[key] = &Val{t: zeroOf(et)}
				}
				set(&Val{lv: &LV{kind: "cell", cell: key, typ: et, ptyp: et}})
				break
			}
			r := vc.newRef(st)
			if at, ok := et.Underlying().(*types.Array); ok {
				hn, hs := backName(at.Elem()), backSort(at.Elem())
				h := st.getHeap(vc, hn, hs)
				st.heap[hn] = Store(h, r, ConstArr(ArrSort(SInt, sortOf(at.Elem())), zeroOf(at.Elem())))
				set(&Val{t: r})
				break
			}
			hn, hs := heapName(et), heapSort(et)
			h := st.getHeap(vc, hn, hs)
			st.heap[hn] = Store(h, r, zeroOf(et))
			set(&Val{t: r})
		case *ssa.Call:
			i2 := i
			blk, prd := b, pred
			vc.call(st, f, in, func(st *State, res []*Val) {
				if st.dead() {
					return
				}
				switch {
				case len(res) == 1:
					st.env[valKey{f.id, in}] = res[0]
				default:
					st.env[valKey{f.id, in}] = &Val{tup: res}
				}
				vc.instrs(st, f, blk, prd, i2+1, k)
			})
			return
		case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
			vc.unsup(in.Pos(), "instruction %T", in)
		case ssa.Value:
			done := vc.value(st, f, in, set)
			if !done {
				vc.unsup(in.Pos(), "instruction %T (%s)", in, in)
			}
			if st.dead() {
				return
			}
		default:
			// MapUpdate
			if mu, ok := in.(*ssa.MapUpdate); ok {
				vc.mapUpdate(st, f, mu)
				break
			}
			vc.unsup(in.Pos(), "instruction %T", in)
		}
	}
}

// pruned asks the solver whether a path is infeasible ("prune" in a contract).
func (vc *VC) pruned(st *State) bool {
	if !vc.spec.prune {
		return false
	}
	vc.C.prepareAxioms()
	o := &Obl{fn: vc.key, name: vc.oblPrefix() + "/unreachable", pcs: st.pcs(), goal: False}
	out, _ := runSolver(solvers[0], vc.C.query(o), 2, "")
	return strings.HasPrefix(out, "unsat") || strings.Contains(out, "\nunsat")
}

func (vc *VC) branch(st *State) {
	vc.npaths++
	if vc.npaths > 6000 {
		panic(unsupported{"too many paths"})
	}
}

func (vc *VC) isBsDest(lv *LV) bool {
	if len(lv.path) == 0 {
		return false
	}
	last := lv.path[len(lv.path)-1]
	if last.idx != nil {
		return false
	}
	// type of the struct holding the field
	t := lv.typ
	for _, p := range lv.path[:len(lv.path)-1] {
		if p.idx != nil {
			t = t.Underlying().(*types.Array).Elem()
		} else {
			t = t.Underlying().(*types.Struct).Field(p.field).Type()
		}
	}
	return isBsField(t, last.field)
}

// addr evaluates an address-valued SSA value to an lvalue.
func (vc *VC) addr(st *State, f *Frame, v ssa.Value, pos token.Pos) *LV {
	x := vc.val(st, f, v)
	if x.lv != nil {
		return x.lv
	}
	pt, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		vc.unsup(pos, "address of type %s", v.Type())
	}
	et := pt.Elem()
	if vc.nopanic {
		vc.prove(st, Neq(x.t, Int(0)), "nil", pos)
	}
	st.assume(Neq(x.t, Int(0)))
	if at, ok := et.Underlying().(*types.Array); ok {
		return &LV{kind: "back", hname: backName(at.Elem()), hsort: backSort(at.Elem()), ref: x.t, typ: et, ptyp: et}
	}
	return &LV{kind: "heap", hname: heapName(et), hsort: heapSort(et), ref: x.t, typ: et, ptyp: et}
}

func (vc *VC) boundCheck(st *State, c *Term, what string, pos token.Pos) {
	if vc.nopanic {
		vc.prove(st, c, what, pos)
	}
	st.assume(c)
}

func (vc *VC) value(st *State, f *Frame, in ssa.Value, set func(*Val)) bool {
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.UnOp:
		x := vc.val(st, f, in.X)
		switch in.Op {
		case token.MUL:
			if in.CommaOk {
				return false
			}
			lv := vc.addr(st, f, in.X, pos)
			if lv.kind == "global" {
				t := vc.rootTerm(st, lv).t
				for _, p := range lv.path {
					if p.idx != nil {
						t = Select(t, p.idx)
					} else {
						t = Sel(t, p.field)
					}
				}
				st.assume(wf(lv.ptyp, t, st.alloc(), false))
				set(&Val{t: t})
				return true
			}
			set(vc.load(st, lv))
			return true
		case token.NOT:
			set(&Val{t: Not(x.t)})
			return true
		case token.SUB:
			if isFloat(in.Type()) {
				b := uint(64)
				if in.Type().Underlying().(*types.Basic).Kind() == types.Float32 {
					b = 32
				}
				half := new(big.Int).Lsh(big.NewInt(1), b-1)
				set(&Val{t: Ite(Lt(x.t, BigInt(half)), Add(x.t, BigInt(half)), Sub(x.t, BigInt(half)))})
				return true
			}
			set(&Val{t: wrapNear(in.Type(), Sub(Int(0), x.t))})
			return true
		case token.XOR:
			bt := in.Type().Underlying().(*types.Basic)
			lo, hi, _ := intRange(bt)
			if lo.Sign() == 0 {
				set(&Val{t: Sub(BigInt(hi), x.t)})
			} else {
				set(&Val{t: Sub(Int(-1), x.t)})
			}
			return true
		}
		return false
	case *ssa.BinOp:
		x, y := vc.val(st, f, in.X), vc.val(st, f, in.Y)
		r := vc.binop(st, in, x, y)
		if r == nil {
			return false
		}
		set(&Val{t: r})
		return true
	case *ssa.FieldAddr:
		x := vc.val(st, f, in.X)
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		ft := et.Underlying().(*types.Struct).Field(in.Field).Type()
		var base *LV
		if x.lv != nil {
			base = x.lv
		} else {
			base = vc.addr(st, f, in.X, pos)
		}
		n := *base
		n.path = append(append([]pathEl{}, base.path...), pathEl{field: in.Field})
		n.ptyp = ft
		set(&Val{lv: &n})
		return true
	case *ssa.Field:
		x := vc.val(st, f, in.X)
		t := Sel(x.t, in.Field)
		ft := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Type()
		st.assume(wf(ft, t, st.alloc(), false))
		set(&Val{t: t})
		return true
	case *ssa.IndexAddr:
		x := vc.val(st, f, in.X)
		idx := vc.val(st, f, in.Index).t
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			if x.t.sort == SBs {
				vc.boundCheck(st, And(Le(Int(0), idx), Lt(idx, blen(x.t))), "index", pos)
				// read-only view of an immutable byte string
				set(&Val{lv: &LV{kind: "bs", ref: x.t, idx: idx, typ: u.Elem(), ptyp: u.Elem()}})
				return true
			}
			vc.boundCheck(st, And(Le(Int(0), idx), Lt(idx, SlLen(x.t))), "index", pos)
			set(&Val{lv: &LV{kind: "elem", hname: backName(u.Elem()), hsort: backSort(u.Elem()), ref: SlArr(x.t), idx: Add(SlOff(x.t), idx), typ: u.Elem(), ptyp: u.Elem()}})
			return true
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			vc.boundCheck(st, And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), "index", pos)
			base := x.lv
			if base == nil {
				base = vc.addr(st, f, in.X, pos)
			}
			if base.kind == "back" && len(base.path) == 0 {
				set(&Val{lv: &LV{kind: "elem", hname: base.hname, hsort: base.hsort, ref: base.ref, idx: idx, typ: at.Elem(), ptyp: at.Elem()}})
				return true
			}
			n := *base
			n.path = append(append([]pathEl{}, base.path...), pathEl{idx: idx})
			n.ptyp = at.Elem()
			set(&Val{lv: &n})
			return true
		}
		return false
	case *ssa.Index:
		x := vc.val(st, f, in.X)
		idx := vc.val(st, f, in.Index).t
		if x.t.sort == SBs {
			vc.boundCheck(st, And(Le(Int(0), idx), Lt(idx, blen(x.t))), "index", pos)
			r := bat(x.t, idx)
			st.assume(And(Le(Int(0), r), Lt(r, Int(256))))
			set(&Val{t: r})
			return true
		}
		at := in.X.Type().Underlying().(*types.Array)
		vc.boundCheck(st, And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), "index", pos)
		set(&Val{t: Select(x.t, idx)})
		return true
	case *ssa.Lookup:
		x := vc.val(st, f, in.X)
		idx := vc.val(st, f, in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			d, vn := mapHeaps(mt)
			ds, vs := ArrSort(SInt, ArrSort(sortOf(mt.Key()), SBool)), ArrSort(SInt, ArrSort(sortOf(mt.Key()), sortOf(mt.Elem())))
			kt := vc.term(st, idx, pos)
			has := And(Neq(x.t, Int(0)), Select(Select(st.getHeap(vc, d, ds), x.t), kt))
			val := Ite(has, Select(Select(st.getHeap(vc, vn, vs), x.t), kt), zeroOf(mt.Elem()))
			st.assume(wf(mt.Elem(), val, st.alloc(), false))
			if in.CommaOk {
				set(&Val{tup: []*Val{{t: val}, {t: has}}})
			} else {
				set(&Val{t: val})
			}
			return true
		}
		// string index
		vc.boundCheck(st, And(Le(Int(0), idx.t), Lt(idx.t, blen(x.t))), "index", pos)
		r := bat(x.t, idx.t)
		st.assume(And(Le(Int(0), r), Lt(r, Int(256))))
		set(&Val{t: r})
		return true
	case *ssa.Slice:
		return vc.sliceOp(st, f, in, set)
	case *ssa.Extract:
		x := vc.val(st, f, in.Tuple)
		set(x.tup[in.Index])
		return true
	case *ssa.MakeSlice:
		ln := vc.val(st, f, in.Len).t
		cp := vc.val(st, f, in.Cap).t
		el := in.Type().Underlying().(*types.Slice).Elem()
		vc.boundCheck(st, And(Le(Int(0), ln), Le(ln, cp)), "makeslice", pos)
		st.assume(Le(cp, BigInt(maxLen)))
		r := vc.newRef(st)
		hn, hs := backName(el), backSort(el)
		h := st.getHeap(vc, hn, hs)
		st.heap[hn] = Store(h, r, ConstArr(ArrSort(SInt, sortOf(el)), zeroOf(el)))
		set(&Val{t: MkSlice(r, Int(0), ln, cp)})
		return true
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := vc.newRef(st)
		d, vn := mapHeaps(mt)
		ks := sortOf(mt.Key())
		ds, vs := ArrSort(SInt, ArrSort(ks, SBool)), ArrSort(SInt, ArrSort(ks, sortOf(mt.Elem())))
		st.heap[d] = Store(st.getHeap(vc, d, ds), r, ConstArr(ArrSort(ks, SBool), False))
		st.heap[vn] = Store(st.getHeap(vc, vn, vs), r, ConstArr(ArrSort(ks, sortOf(mt.Elem())), zeroOf(mt.Elem())))
		set(&Val{t: r})
		return true
	case *ssa.MakeInterface:
		x := vc.val(st, f, in.X)
		set(vc.makeIface(st, x, in.X.Type(), pos))
		return true
	case *ssa.ChangeInterface:
		set(vc.val(st, f, in.X))
		return true
	case *ssa.ChangeType:
		set(vc.val(st, f, in.X))
		return true
	case *ssa.Convert:
		x := vc.val(st, f, in.X)
		r := vc.convert(st, x, in.X.Type(), in.Type(), pos)
		if r == nil {
			return false
		}
		set(r)
		return true
	case *ssa.TypeAssert:
		return vc.typeAssert(st, f, in, set)
	case *ssa.MakeClosure:
		var b []*Val
		for _, x := range in.Bindings {
			b = append(b, vc.val(st, f, x))
		}
		set(&Val{fn: in.Fn.(*ssa.Function), bind: b})
		return true
	case *ssa.Range, *ssa.Next:
		return false
	}
	return false
}

func (vc *VC) makeIface(st *State, x *Val, t types.Type, pos token.Pos) *Val {
	v := &Val{dyn: x, dynT: t}
	if x.lv != nil && !(len(x.lv.path) == 0 && x.lv.kind == "heap") || x.fn != nil {
		v.t = Fresh("iface", SInt)
		st.assume(Neq(v.t, Int(0)))
		return v
	}
	xt := vc.term(st, x, pos)
	b := boxTerm(t, xt)
	if xt.sort == SSlice && sortOf(t) == SSlice || true {
		st.assume(Neq(b, Int(0)))
		st.assume(Eq(App("dyntag", SInt, b), typeTag(t)))
		if xt.sort == sortOf(t) {
			st.assume(Eq(unboxTerm(t, b), xt))
		}
	}
	v.t = b
	return v
}

func (vc *VC) typeAssert(st *State, f *Frame, in *ssa.TypeAssert, set func(*Val)) bool {
	x := vc.val(st, f, in.X)
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if it := in.AssertedType.Underlying().(*types.Interface); it.Empty() || in.AssertedType.String() == "encoding/json.Token" {
			ok := Neq(x.t, Int(0))
			if in.CommaOk {
				set(&Val{tup: []*Val{x, {t: ok}}})
			} else {
				vc.boundCheck(st, ok, "typeassert", in.Pos())
				set(x)
			}
			return true
		}
		return false
	}
	ok := And(Neq(x.t, Int(0)), Eq(App("dyntag", SInt, x.t), typeTag(in.AssertedType)))
	ub := unboxTerm(in.AssertedType, x.t)
	st.assume(wf(in.AssertedType, ub, st.alloc(), false))
	if in.CommaOk {
		v := Ite(ok, ub, zeroOf(in.AssertedType))
		set(&Val{tup: []*Val{{t: v}, {t: ok}}})
	} else {
		vc.boundCheck(st, ok, "typeassert", in.Pos())
		set(&Val{t: ub})
	}
	return true
}

func (vc *VC) sliceOp(st *State, f *Frame, in *ssa.Slice, set func(*Val)) bool {
	x := vc.val(st, f, in.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return vc.val(st, f, v).t
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		at := u.Elem().Underlying().(*types.Array)
		ref := x.t
		if ref == nil {
			if x.lv != nil && x.lv.kind == "back" {
				ref = x.lv.ref
			} else {
				vc.unsup(in.Pos(), "slicing a local or embedded array")
			}
		}
		lo := opt(in.Low, Int(0))
		hi := opt(in.High, Int(at.Len()))
		mx := opt(in.Max, Int(at.Len()))
		vc.boundCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, Int(at.Len()))), "slice", in.Pos())
		set(&Val{t: MkSlice(ref, lo, Sub(hi, lo), Sub(mx, lo))})
		return true
	case *types.Slice, *types.Basic:
		_ = u
		lo := opt(in.Low, Int(0))
		if x.t.sort == SBs {
			hi := opt(in.High, blen(x.t))
			vc.boundCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, blen(x.t))), "slice", in.Pos())
			if lo == Int(0) && in.High == nil {
				set(x)
				return true
			}
			set(&Val{t: mkbs(bsarr(x.t), lo, Sub(hi, lo))})
			return true
		}
		hi := opt(in.High, SlLen(x.t))
		mx := opt(in.Max, SlCap(x.t))
		vc.boundCheck(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SlCap(x.t))), "slice", in.Pos())
		set(&Val{t: MkSlice(SlArr(x.t), Add(SlOff(x.t), lo), Sub(hi, lo), Sub(mx, lo))})
		return true
	}
	return false
}

func (vc *VC) convert(st *State, x *Val, from, to types.Type, pos token.Pos) *Val {
	switch {
	case isInteger(from) && isInteger(to):
		if st.fits(to, x.t) {
			return x
		}
		return &Val{t: convInt(from, to, x.t)}
	case isString(to) && isByteSlice(from):
		return &Val{t: bsOf(st, vc, x.t)}
	case isByteSlice(to) && isString(from):
		r := vc.newRef(st)
		hn, hs := "S.uint8", backSort(types.Typ[types.Uint8])
		st.heap[hn] = Store(st.getHeap(vc, hn, hs), r, bsarr(x.t))
		n := blen(x.t)
		st.assume(And(Le(Int(0), n), Le(n, BigInt(maxLen))))
		return &Val{t: MkSlice(r, Int(0), n, n)}
	case isFloat(from) && isFloat(to):
		fb, tb := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fb == tb {
			return x
		}
		n := "f32to64"
		if tb == types.Float32 {
			n = "f64to32"
		}
		r := App(n, SInt, x.t)
		st.assume(wf(to, r, nil, false))
		return &Val{t: r}
	case isInteger(from) && isFloat(to):
		if isInt(x.t) {
			f, _ := new(big.Float).SetInt(x.t.val).Float64()
			if to.Underlying().(*types.Basic).Kind() == types.Float32 {
				return &Val{t: Int(int64(math.Float32bits(float32(f))))}
			}
			return &Val{t: BigInt(new(big.Int).SetUint64(math.Float64bits(f)))}
		}
		r := App("int2"+typeName(to.Underlying()), SInt, x.t)
		st.assume(wf(to, r, nil, false))
		return &Val{t: r}
	case isFloat(from) && isInteger(to):
		r := App(typeName(from.Underlying())+"2"+typeName(to.Underlying()), SInt, x.t)
		st.assume(wf(to, r, nil, false))
		return &Val{t: r}
	}
	// string(rune), []rune(string) ...
	if isString(to) && isInteger(from) {
		r := App("runestr", SBs, x.t)
		return &Val{t: r}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			r := vc.newRef(st)
			hn, hs := backName(s.Elem()), backSort(s.Elem())
			arr := App("runesArr", ArrSort(SInt, SInt), x.t)
			n := App("runesLen", SInt, x.t)
			st.heap[hn] = Store(st.getHeap(vc, hn, hs), r, arr)
			st.assume(And(Le(Int(0), n), Le(n, blen(x.t))))
			return &Val{t: MkSlice(r, Int(0), n, n)}
		}
	}
	return nil
}

func convInt(from, to types.Type, x *Term) *Term {
	if isInt(x) {
		return wrapInt(to, x)
	}
	fl, fh, ok1 := intRange(from.Underlying().(*types.Basic))
	tl, th, ok2 := intRange(to.Underlying().(*types.Basic))
	if !ok1 || !ok2 {
		return x
	}
	if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
		return x
	}
	m := new(big.Int).Sub(th, tl)
	m.Add(m, big.NewInt(1))
	// within one modulus?
	if new(big.Int).Sub(fh, m).Cmp(th) <= 0 && new(big.Int).Add(fl, m).Cmp(tl) >= 0 {
		r := x
		if fl.Cmp(tl) < 0 {
			r = Ite(Lt(x, BigInt(tl)), Add(x, BigInt(m)), r)
		}
		if fh.Cmp(th) > 0 {
			r = Ite(Gt(x, BigInt(th)), Sub(x, BigInt(m)), r)
		}
		return r
	}
	return wrapInt(to, x)
}

func (vc *VC) binop(st *State, in *ssa.BinOp, xv, yv *Val) *Term {
	t := in.X.Type()
	pos := in.Pos()
	// nil comparisons of closures etc.
	x, y := xv.t, yv.t
	if x == nil || y == nil {
		if in.Op == token.EQL || in.Op == token.NEQ {
			nonnil := func(v *Val) bool { return v.lv != nil || v.fn != nil }
			if nonnil(xv) && y == Int(0) || nonnil(yv) && x == Int(0) {
				return Bool(in.Op == token.NEQ)
			}
			x, y = vc.term(st, xv, pos), vc.term(st, yv, pos)
		} else {
			return nil
		}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case isFloat(t):
			b := uint(64)
			if t.Underlying().(*types.Basic).Kind() == types.Float32 {
				b = 32
			}
			r = floatEq(b, x, y)
		case x.sort == SSlice && y.sort == SSlice: // comparison with nil
			r = Eq(SlArr(x), Int(0))
			if x.op == "ctor" && x.args[0] == Int(0) {
				r = Eq(SlArr(y), Int(0))
			}
		case x.sort == SBs && y.sort == SSlice:
			r = App("bsnil", SBool, x)
		default:
			r = Eq(x, y)
		}
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isFloat(t) {
			b := uint(64)
			if t.Underlying().(*types.Basic).Kind() == types.Float32 {
				b = 32
			}
			switch in.Op {
			case token.LSS:
				return floatLt(b, x, y)
			case token.GTR:
				return floatLt(b, y, x)
			case token.LEQ:
				return Or(floatLt(b, x, y), floatEq(b, x, y))
			case token.GEQ:
				return Or(floatLt(b, y, x), floatEq(b, x, y))
			}
		}
		if isString(t) {
			c := App("bcmp", SInt, x, y)
			x, y = c, Int(0)
		}
		switch in.Op {
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Gt(x, y)
		case token.GEQ:
			return Ge(x, y)
		}
	}
	if isFloat(t) {
		r := App("f"+sanitize(map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[in.Op])+typeName(t.Underlying()), SInt, x, y)
		st.assume(wf(t, r, nil, false))
		return r
	}
	if isString(t) && in.Op == token.ADD {
		return bcat(x, y)
	}
	if !isInteger(t) {
		return nil
	}
	switch in.Op {
	case token.ADD:
		return st.near(t, Add(x, y))
	case token.SUB:
		return st.near(t, Sub(x, y))
	case token.MUL:
		p := Mul(x, y)
		b := t.Underlying().(*types.Basic)
		lo, hi, _ := intRange(b)
		if isInt(p) {
			return wrapInt(t, p)
		}
		if st.fits(t, p) {
			return p
		}
		// the product is exact when it is in range
		return Ite(And(Le(BigInt(lo), p), Le(p, BigInt(hi))), p, wrapInt(t, p))
	case token.QUO, token.REM:
		vc.boundCheck(st, Neq(y, Int(0)), "divzero", pos)
		lo, _, _ := intRange(t.Underlying().(*types.Basic))
		if lo.Sign() == 0 {
			if in.Op == token.QUO {
				return Div(x, y)
			}
			return Mod(x, y)
		}
		if isInt(y) && y.val.Sign() > 0 {
			if st.within(x, new(big.Int), newBig(64)) {
				if in.Op == token.QUO {
					return Div(x, y)
				}
				return Mod(x, y)
			}
			if in.Op == token.QUO {
				return Ite(Ge(x, Int(0)), Div(x, y), Sub(Int(0), Div(Sub(Int(0), x), y)))
			}
			return Ite(Ge(x, Int(0)), Mod(x, y), Sub(Int(0), Mod(Sub(Int(0), x), y)))
		}
		ax, ay := Ite(Ge(x, Int(0)), x, Sub(Int(0), x)), Ite(Ge(y, Int(0)), y, Sub(Int(0), y))
		if in.Op == token.QUO {
			qd := Div(ax, ay)
			return wrapNear(t, Ite(Eq(Ge(x, Int(0)), Ge(y, Int(0))), qd, Sub(Int(0), qd)))
		}
		return Ite(Ge(x, Int(0)), Mod(ax, ay), Sub(Int(0), Mod(ax, ay)))
	case token.SHL:
		if isInt(y) && y.val.IsInt64() && y.val.Int64() < 64 {
			if p := Mul(x, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.val.Int64())))); st.fits(t, p) {
				return p
			}
			return wrapInt(t, Mul(x, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.val.Int64())))))
		}
	case token.SHR:
		if isInt(y) && y.val.IsInt64() && y.val.Int64() < 64 {
			return Div(x, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.val.Int64()))))
		}
	case token.AND:
		for i := 0; i < 2; i++ {
			if isInt(y) && y.val.Sign() >= 0 {
				// mask of low bits
				m := new(big.Int).Add(y.val, big.NewInt(1))
				if new(big.Int).And(m, y.val).Sign() == 0 {
					return Mod(x, BigInt(m))
				}
			}
			x, y = y, x
		}
	}
	r := App("bit"+in.Op.String()[:1]+sanitize(map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[in.Op])+"."+typeName(t.Underlying()), SInt, x, y)
	st.assume(wf(t, r, nil, false))
	return r
}

func bcat(x, y *Term) *Term {
	if x.name == "bs.empty" && x.op == "const" {
		return y
	}
	if y.name == "bs.empty" && y.op == "const" {
		return x
	}
	return App("bcat", SBs, x, y)
}

func (vc *VC) mapUpdate(st *State, f *Frame, in *ssa.MapUpdate) {
	m := vc.val(st, f, in.Map).t
	k := vc.term(st, vc.val(st, f, in.Key), in.Pos())
	v := vc.term(st, vc.val(st, f, in.Value), in.Pos())
	mt := in.Map.Type().Underlying().(*types.Map)
	vc.boundCheck(st, Neq(m, Int(0)), "nilmap", in.Pos())
	vc.mapSet(st, mt, m, k, v, in.Pos())
}

func (vc *VC) mapSet(st *State, mt *types.Map, m, k, v *Term, pos token.Pos) {
	d, vn := mapHeaps(mt)
	ks := sortOf(mt.Key())
	ds, vs := ArrSort(SInt, ArrSort(ks, SBool)), ArrSort(SInt, ArrSort(ks, sortOf(mt.Elem())))
	vc.checkWrite(st, modLoc{d, m, -1}, pos)
	D, V := st.getHeap(vc, d, ds), st.getHeap(vc, vn, vs)
	if v == nil {
		st.heap[d] = Store(D, m, Store(Select(D, m), k, False))
		return
	}
	st.heap[d] = Store(D, m, Store(Select(D, m), k, True))
	st.heap[vn] = Store(V, m, Store(Select(V, m), k, v))
}

// ---------- loops ----------

func (vc *VC) loopSpec(f *Frame, l *Loop) (*LoopSpec, int, *FuncSpec) {
	// loops of inlined functions that have their own (inline) spec use that spec
	if f.parent != nil {
		if sp := vc.C.lookupSpec(funcKey(f.fn), vc.aspect); sp != nil && len(sp.loops) > 0 {
			for i, x := range loopsOf(f.fn) {
				if x == l {
					return sp.loops[i], i, sp
				}
			}
		}
	}
	n := vc.loopOrdinal(f, l)
	return vc.spec.loops[n], n, vc.spec
}

// loopOrdinal numbers loops in source order, descending into inlined calls.
func (vc *VC) loopOrdinal(f *Frame, l *Loop) int {
	key := f.path + fmt.Sprintf("/L%d", l.pos)
	for i, k := range vc.loopOrder() {
		if k == key {
			return i
		}
	}
	return 1000
}

var loopOrderCache = map[string][]string{}

func (vc *VC) loopOrder() []string {
	ck := vc.key + "@" + vc.aspect
	if o, ok := loopOrderCache[ck]; ok {
		return o
	}
	o := vc.loopOrderOf(vc.fn, "", 0)
	loopOrderCache[ck] = o
	return o
}

func (vc *VC) loopOrderOf(fn *ssa.Function, path string, depth int) []string {
	type item struct {
		pos  token.Pos
		keys []string
	}
	var items []item
	for _, l := range loopsOf(fn) {
		items = append(items, item{l.pos, []string{path + fmt.Sprintf("/L%d", l.pos)}})
	}
	if depth < 6 {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				callee := c.Call.StaticCallee()
				if callee == nil || callee.Blocks == nil || callee == vc.fn {
					continue
				}
				k := funcKey(callee)
				if _, ok := intrinsics[k]; ok {
					continue
				}
				if sp := vc.C.lookupSpec(k, vc.aspect); sp != nil && (!sp.inline || len(sp.loops) > 0) {
					continue
				}
				if ks := vc.loopOrderOf(callee, path+fmt.Sprintf("/C%d", c.Pos()), depth+1); len(ks) > 0 {
					items = append(items, item{c.Pos(), ks})
				}
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	var out []string
	for _, it := range items {
		out = append(out, it.keys...)
	}
	return out
}

func (vc *VC) frameLookup(f *Frame, scopePos token.Pos, l *Loop) func(string, *State, bool) (SV, bool) {
	return func(n string, st *State, inOld bool) (SV, bool) {
		if n == "$i" && l != nil {
			if l.iter == nil {
				return SV{}, false
			}
			v, ok := st.cells[cellKey{f.id, l.iter}]
			if !ok || v.t == nil {
				return SV{}, false
			}
			return SV{Add(v.t, Int(l.iterOff)), tyInt}, true
		}
		if n == "$up" && l != nil { // index of the enclosing loop
			var up *Loop
			for _, o := range loopsOf(f.fn) {
				if o != l && o.blocks[l.header] && (up == nil || len(o.blocks) < len(up.blocks)) {
					up = o
				}
			}
			if up == nil || up.iter == nil {
				return SV{}, false
			}
			v, ok := st.cells[cellKey{f.id, up.iter}]
			if !ok || v.t == nil {
				return SV{}, false
			}
			return SV{v.t, tyInt}, true
		}
		for fr := f; fr != nil; fr = fr.parent {
			if inOld || fr.parent == nil && scopePos == token.NoPos {
				for i, p := range fr.fn.Params {
					if p.Name() == n && fr.args[i].t != nil {
						return SV{fr.args[i].t, goTy(p.Type())}, true
					}
				}
				if inOld {
					continue
				}
			}
			// free variables of closures
			var best *ssa.Alloc
			var sc *types.Scope
			if fr.fn.Pkg != nil {
				sc = fr.fn.Pkg.Pkg.Scope().Innermost(scopePos)
			}
			pos := scopePos
			if fr != f {
				pos = token.NoPos
			}
			if sc != nil && pos != token.NoPos {
				if _, o := sc.LookupParent(n, pos); o != nil {
					for _, b := range fr.fn.Blocks {
						for _, in := range b.Instrs {
							if a, ok := in.(*ssa.Alloc); ok && a.Comment == n && a.Pos() == o.Pos() {
								best = a
							}
						}
					}
				}
			}
			if best == nil {
				for _, b := range fr.fn.Blocks {
					for _, in := range b.Instrs {
						if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
							if best == nil {
								best = a
							}
						}
					}
				}
			}
			if best == nil {
				continue
			}
			et := best.Type().(*types.Pointer).Elem()
			if !best.Heap {
				if v, ok := st.cells[cellKey{fr.id, best}]; ok {
					if v.t == nil {
						if v.lv != nil && len(v.lv.path) == 0 && v.lv.kind == "heap" {
							return SV{v.lv.ref, goTy(et)}, true
						}
						continue
					}
					ty := goTy(et)
					if v.t.sort == SBs {
						ty = tyBs
					}
					return SV{v.t, ty}, true
				}
				continue
			}
			// heap-allocated local: address is in env
			if v, ok := st.env[valKey{fr.id, best}]; ok && v.t != nil {
				if at, ok := et.Underlying().(*types.Array); ok {
					_ = at
					return SV{v.t, goTy(best.Type())}, true
				}
				return SV{Select(st.getHeap(vc, heapName(et), heapSort(et)), v.t), goTy(et)}, true
			}
		}
		if v, ok := vc.lets[n]; ok {
			return v, true
		}
		return SV{}, false
	}
}

func (vc *VC) loopEnv(st *State, f *Frame, l *Loop, pre *State, where string) *Env {
	return &Env{vc: vc, vars: map[string]SV{}, st: st, old: vc.entry, pre: pre, look: vc.frameLookup(f, l.scopePos(), l), pkg: vc.pkgOf(), where: where}
}

func (vc *VC) pkgOf() string { return vc.spec.pkg }

func (vc *VC) modLocs(e *Env, xs []*Ex) []modLoc {
	var out []modLoc
	for _, x := range xs {
		switch {
		case x.op == "deref":
			v := e.eval(x.args[0])
			et := v.ty.gt.Underlying().(*types.Pointer).Elem()
			out = append(out, modLoc{heapName(et), v.t, -1})
		case x.op == "field" && !(x.args[0].op == "id" && e.isPkg(x.args[0].name)):
			v := e.eval(x.args[0])
			p, ok := v.ty.gt.Underlying().(*types.Pointer)
			if !ok {
				e.fail("modifies: %s is not a pointer", v.ty)
			}
			stt := p.Elem().Underlying().(*types.Struct)
			fi := -1
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == x.name {
					fi = i
				}
			}
			if fi < 0 {
				e.fail("modifies: no field %s", x.name)
			}
			out = append(out, modLoc{heapName(p.Elem()), v.t, fi})
		case x.op == "call" && x.name == "elems":
			v := e.eval(x.args[0])
			el := v.ty.gt.Underlying().(*types.Slice).Elem()
			out = append(out, modLoc{backName(el), SlArr(v.t), -1})
		case x.op == "call" && x.name == "mapof":
			v := e.eval(x.args[0])
			d, vn := mapHeaps(v.ty.gt.Underlying().(*types.Map))
			out = append(out, modLoc{d, v.t, -1}, modLoc{vn, v.t, -1})
		case x.op == "call" && (x.name == "H" || x.name == "S"):
			ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
			n := heapName(ty.goType())
			if x.name == "S" {
				n = backName(ty.goType())
			}
			out = append(out, modLoc{n, nil, -1})
		case x.op == "id":
			if _, ok := e.vc.C.spec.ghosts[x.name]; ok {
				out = append(out, modLoc{"g." + x.name, nil, -1})
				break
			}
			v := e.eval(x)
			if sl, ok := v.ty.gt.Underlying().(*types.Slice); ok {
				out = append(out, modLoc{backName(sl.Elem()), SlArr(v.t), -1})
				break
			}
			e.fail("modifies: %s", x.name)
		default:
			e.fail("modifies: unsupported location")
		}
	}
	return out
}

func (e *Env) isPkg(n string) bool {
	if _, ok := e.tryIdent(n); ok {
		return false
	}
	_, ok := e.vc.C.prog.types[n]
	return ok
}

func heapSortOf(name string) Sort {
	if s, ok := heapSorts[name]; ok {
		return s
	}
	panic(unsupported{"unknown heap " + name})
}

var heapSorts = map[string]Sort{}

// havocLoc gives a location an arbitrary value.
func (vc *VC) havocLoc(st *State, m modLoc, s Sort) {
	h := st.getHeap(vc, m.heap, s)
	if m.ref == nil {
		st.heap[m.heap] = Fresh(m.heap, s)
		return
	}
	_, vs := splitArr(s)
	if m.field >= 0 {
		obj := Select(h, m.ref)
		d := datatypes[string(vs)]
		nv := Fresh(m.heap+"."+d.fields[m.field], d.sorts[m.field])
		st.heap[m.heap] = Store(h, m.ref, Upd(obj, m.field, nv))
		return
	}
	st.heap[m.heap] = Store(h, m.ref, Fresh(m.heap, vs))
}

func (vc *VC) locSort(m modLoc) Sort {
	if s, ok := heapSorts[m.heap]; ok {
		return s
	}
	panic(unsupported{"unknown heap kind " + m.heap})
}

func (vc *VC) enterLoop(st *State, f *Frame, l *Loop, pred *ssa.BasicBlock) {
	spec, ord, owner := vc.loopSpec(f, l)
	if spec == nil {
		spec = &LoopSpec{idx: ord}
	}
	where := fmt.Sprintf("%s loop %d", owner.key, ord)
	pre := st.clone()
	env := vc.loopEnv(st, f, l, pre, where)
	env.pkg = owner.pkg
	name := fmt.Sprintf("loop%d", ord)
	for _, h := range spec.enter {
		vc.hint(st, env, h, name+"/enter", l.pos)
	}
	// invariants hold on entry
	for i, c := range spec.invariants {
		vc.prove(st, env.bool(c.e), fmt.Sprintf("%s/inv%s/entry", name, clauseName(c, i)), l.pos)
	}
	act := &loopAct{loop: l, frame: f.id, pre: pre, alloc: st.alloc(), spec: spec, ord: ord}
	if spec.hasMod {
		act.mods = vc.modLocs(env, spec.modifies)
	} else {
		// default: what the function may modify
		act.mods = vc.mods
		act.fnmods = false
	}
	// havoc; objects may have been allocated by earlier iterations
	na := Fresh("$alloc", SInt)
	st.assume(Le(st.alloc(), na))
	st.heap["$alloc"] = na
	st.groups = nil
	for _, a := range vc.loopCells(f, l) {
		key := cellKey{f.id, a}
		if v, ok := st.cells[key]; ok {
			vc.havocCell(st, key, a, v)
		}
	}
	for _, a := range vc.loopOuterCells(st, f, l) {
		if v, ok := st.cells[a]; ok {
			vc.havocCell(st, a, a.alloc, v)
		}
	}
	for _, m := range act.mods {
		if s, ok := heapSorts[m.heap]; ok {
			vc.havocLoc(st, m, s)
		}
	}
	env = vc.loopEnv(st, f, l, pre, where)
	env.pkg = owner.pkg
	for _, c := range spec.invariants {
		st.assume(env.bool(c.e))
	}
	// automatic invariant of range loops: the index is within [0, len]
	if l.iter != nil && l.iterOff == 1 {
		if v, ok := st.cells[cellKey{f.id, l.iter}]; ok {
			st.assume(Le(Int(-1), v.t))
			if n := vc.rangeLen(st, f, l); n != nil {
				st.assume(Le(Add(v.t, Int(1)), Ite(Le(n, Int(0)), Int(0), n)))
			}
		}
	}
	st.loops = append(st.loops, act)
	vc.cover(st, name+"/reachable", l.pos)
}

// rangeLen returns the bound of a range-index loop (the right operand of the header comparison).
func (vc *VC) rangeLen(st *State, f *Frame, l *Loop) *Term {
	for _, in := range l.header.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS {
			switch y := b.Y.(type) {
			case *ssa.Const:
				return constTerm(y.Value, y.Type())
			default:
				if v, ok := st.env[valKey{f.id, y}]; ok && v.t != nil {
					return v.t
				}
			}
		}
	}
	return nil
}

func clauseName(c Clause, i int) string {
	if c.label != "" {
		return "[" + c.label + "]"
	}
	return fmt.Sprint(i)
}

func (vc *VC) havocCell(st *State, key cellKey, a *ssa.Alloc, v *Val) {
	et := a.Type().(*types.Pointer).Elem()
	if v.t == nil {
		// pointer-like Go-side value: only sound if reassigned before use
		st.cells[key] = &Val{t: vc.freshOf(st, et, a.Comment)}
		return
	}
	if v.t.sort == SBs {
		st.cells[key] = &Val{t: Fresh(a.Comment, SBs)}
		st.assume(wf(et, st.cells[key].t, nil, false))
		return
	}
	st.cells[key] = &Val{t: vc.freshOf(st, et, a.Comment)}
}

func (vc *VC) freshOf(st *State, t types.Type, base string) *Term {
	if base == "" {
		base = "v"
	}
	x := Fresh(base, sortOf(t))
	st.assume(wf(t, x, st.alloc(), false))
	return x
}

// loopCells: local cells of the frame's function assigned inside the loop.
func (vc *VC) loopCells(f *Frame, l *Loop) []*ssa.Alloc {
	m := map[*ssa.Alloc]bool{}
	var out []*ssa.Alloc
	for _, b := range f.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			add := func(v ssa.Value) {
				for {
					switch x := v.(type) {
					case *ssa.FieldAddr:
						v = x.X
						continue
					case *ssa.IndexAddr:
						v = x.X
						continue
					case *ssa.Alloc:
						if !x.Heap && !m[x] {
							m[x] = true
							out = append(out, x)
						}
					}
					return
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				add(in.Addr)
			case *ssa.Alloc:
				add(in)
			case ssa.CallInstruction:
				for _, a := range in.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); ok {
						add(a)
					}
				}
			}
		}
	}
	return out
}

// loopOuterCells: cells of caller frames that this loop may assign through
// pointer arguments or closures.
func (vc *VC) loopOuterCells(st *State, f *Frame, l *Loop) []cellKey {
	var out []cellKey
	seen := map[cellKey]bool{}
	for _, b := range f.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			chk := func(v ssa.Value) {
				for {
					switch x := v.(type) {
					case *ssa.FieldAddr:
						v = x.X
						continue
					case *ssa.IndexAddr:
						v = x.X
						continue
					}
					break
				}
				if x, ok := st.env[valKey{f.id, v}]; ok && x.lv != nil && x.lv.kind == "cell" && x.lv.cell.frame != f.id && !seen[x.lv.cell] {
					seen[x.lv.cell] = true
					out = append(out, x.lv.cell)
				}
				// pointer parameter held in a cell
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if a, ok := u.X.(*ssa.Alloc); ok {
						if c, ok := st.cells[cellKey{f.id, a}]; ok && c.lv != nil && c.lv.kind == "cell" && !seen[c.lv.cell] {
							seen[c.lv.cell] = true
							out = append(out, c.lv.cell)
						}
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				chk(in.Addr)
			case ssa.CallInstruction:
				for _, a := range in.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); ok {
						chk(a)
					}
				}
			}
		}
	}
	return out
}

func (vc *VC) backEdge(st *State, f *Frame, l *Loop, pred *ssa.BasicBlock) {
	var act *loopAct
	for i := len(st.loops) - 1; i >= 0; i-- {
		if st.loops[i].loop == l && st.loops[i].frame == f.id {
			act = st.loops[i]
			break
		}
	}
	if act == nil {
		panic(unsupported{"back edge without active loop"})
	}
	_, ord, owner := vc.loopSpec(f, l)
	env := vc.loopEnv(st, f, l, act.pre, fmt.Sprintf("%s loop %d", owner.key, ord))
	env.pkg = owner.pkg
	for _, h := range act.spec.hints {
		vc.hint(st, env, h, fmt.Sprintf("loop%d", ord), l.pos)
	}
	for i, c := range act.spec.invariants {
		vc.prove(st, env.bool(c.e), fmt.Sprintf("loop%d/inv%s/preserved", ord, clauseName(c, i)), l.pos)
	}
}

func (vc *VC) hint(st *State, env *Env, h Hint, where string, pos token.Pos) {
	switch h.kind {
	case "mention": // makes a term available to quantifier instantiation
		t := env.eval(h.e).t
		st.assume(App("mention."+sanitize(string(t.sort)), SBool, t))
	case "set":
		g, ok := vc.C.spec.ghosts[h.name]
		if !ok {
			env.fail("set: no ghost variable %s", h.name)
		}
		ty := vc.C.resolveType(g.ty, g.pkg)
		v := env.eval(h.e).t
		vc.checkWrite(st, modLoc{"g." + h.name, nil, -1}, pos)
		st.getHeap(vc, "g."+h.name, ty.sort())
		st.heap["g."+h.name] = v
	case "assert":
		// "forall"-free asserts are proved then assumed
		t := env.bool(h.e)
		n := fmt.Sprintf("%s/assert@%d", where, h.line)
		if h.name != "" {
			n = fmt.Sprintf("%s/assert[%s]", where, h.name)
		}
		vc.prove(st, t, n, pos)
		st.recall(t)
		st.assume(t)
	case "use":
		if h.e.op == "ite" || h.e.op == "==>" {
			panic(specErr{"use: lemma application expected"})
		}
		x := h.e
		var bvs []*Term
		var pats [][]*Term
		if x.op == "forall" {
			ue := *env
			ue.vars = map[string]SV{}
			for n, v := range env.vars {
				ue.vars[n] = v
			}
			for _, b := range x.bvs {
				ty := vc.C.resolveType(b.ty, env.pkg)
				v := BVar(b.name, ty.sort())
				bvs = append(bvs, v)
				ue.vars[b.name] = SV{v, ty}
			}
			for _, p := range x.pats {
				var ts []*Term
				for _, y := range p {
					ts = append(ts, ue.eval(y).t)
				}
				pats = append(pats, ts)
			}
			x = x.args[0]
			env = &ue
		}
		l, ok := vc.C.spec.lemmas[x.name]
		if !ok {
			env.fail("unknown lemma %s", x.name)
		}
		if strings.HasPrefix(vc.key, "lemma ") && vc.C.lemmaIndex(l.name) >= vc.C.lemmaIndex(vc.key[6:]) {
			env.fail("lemma %s is not proved before this one", l.name)
		}
		if len(x.args) != len(l.params) {
			env.fail("lemma %s takes %d arguments", l.name, len(l.params))
		}
		ne := *env
		ne.vars = map[string]SV{}
		ne.look = nil
		ne.pkg = l.pkg
		ne.where = "lemma " + l.name
		for i, a := range x.args {
			ne.vars[l.params[i].name] = SV{env.eval(a).t, vc.C.resolveType(l.params[i].ty, l.pkg)}
		}
		for _, d := range l.lets {
			ne.vars[d.name] = ne.eval(d.e)
		}
		var rq []*Term
		for _, c := range l.requires {
			rq = append(rq, ne.bool(c.e))
		}
		// conditional use: requires ==> ensures
		var es []*Term
		for _, c := range l.ensures {
			es = append(es, ne.bool(c.e))
		}
		pre := And(rq...)
		if !strings.HasPrefix(vc.key, "lemma ") {
			pre = st.unknown(pre)
		}
		t := Implies(pre, And(es...))
		if len(bvs) > 0 {
			t = Forall(bvs, pats, t)
		}
		st.assume(t)
		vc.C.notes["lemma "+l.name] = true
	}
}

func (vc *VC) cover(st *State, name string, pos token.Pos) {
	if st.dead() {
		return
	}
	vc.oblN["cover:"+name]++
	if vc.oblN["cover:"+name] > 1 {
		return
	}
	vc.C.obls = append(vc.C.obls, &Obl{fn: vc.key, name: vc.oblPrefix() + "/cover:" + name, pos: vc.posStr(pos), pcs: st.pcs(), goal: False, cover: true})
}

func callBetween(b *ssa.BasicBlock, from, to ssa.Instruction) bool {
	on := false
	for _, in := range b.Instrs {
		if in == from {
			on = true
		}
		if in == to {
			return false
		}
		if _, ok := in.(*ssa.Call); ok && on {
			return true
		}
	}
	return false
}

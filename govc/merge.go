package main

import (
	"golang.org/x/tools/go/ssa"
)

// Joining of paths: with the "merge" directive of a contract the paths of a
// branch are joined at its immediate postdominator. Each path i gets a fresh
// selector b_i; its facts are assumed under b_i, and values that differ become
// conditional on the selectors.

// joinGroup: the selectors of the paths joined at a point, and the names given to joined values.
type joinGroup struct {
	sel   []*Term
	names [][2]*Term
}

type stopPoint struct {
	frame int
	block *ssa.BasicBlock
	got   []*State
	pred  *ssa.BasicBlock
}

var ipdoms = map[bool]map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{true: {}, false: {}}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// ipdomOf gives the immediate postdominators; with early, paths that return early
// are left out of account.
func ipdomOf(fn *ssa.Function, early bool) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := ipdoms[early][fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	exit := n
	succ := make([][]int, n+1)
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			if early && len(b.Succs) == 2 && len(s.Succs) == 0 && len(s.Preds) == 1 && !isHeader(b) {
				continue
			}
			succ[i] = append(succ[i], s.Index)
		}
		if len(succ[i]) == 0 {
			succ[i] = []int{exit}
		}
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, n+1)
		for j := range pd[i] {
			pd[i][j] = i != exit || j == exit
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			for j := 0; j <= n; j++ {
				v := j == i
				if !v {
					v = true
					for _, s := range succ[i] {
						v = v && pd[s][j]
					}
				}
				if v != pd[i][j] {
					pd[i][j], ch = v, true
				}
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := range fn.Blocks {
		// the nearest strict postdominator is postdominated by all others
		for j := 0; j < n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			best := true
			for k := 0; k <= n; k++ {
				if k != i && pd[i][k] && !pd[j][k] {
					best = false
				}
			}
			if best {
				m[fn.Blocks[i]] = fn.Blocks[j]
			}
		}
	}
	ipdoms[early][fn] = m
	return m
}

// branchMerged runs both sides of a branch up to their join and continues once.
func (vc *VC) branchMerged(st *State, f *Frame, b *ssa.BasicBlock, c *Term, k cont) bool {
	j := ipdomOf(f.fn, vc.spec.mergeAll)[b]
	if j == nil {
		return false
	}
	base := st.clone()
	sp := &stopPoint{frame: f.id, block: j}
	vc.stops = append(vc.stops, sp)
	st2 := st.clone()
	st.assume(c)
	if !st.seen[Not(c).id] {
		vc.block(st, f, b.Succs[0], b, k)
	}
	st2.assume(Not(c))
	if !st2.seen[c.id] {
		vc.block(st2, f, b.Succs[1], b, k)
	}
	vc.stops = vc.stops[:len(vc.stops)-1]
	if len(sp.got) == 0 {
		return true
	}
	var ms []*State
	groups := [][]*State{sp.got}
	if !vc.spec.mergeAll {
		groups = groupStates(sp.got)
	}
	for _, g := range groups {
		if len(g) > 1 {
			if m := vc.mergeStates(base, f, j, g); m != nil {
				ms = append(ms, m)
				continue
			}
		}
		ms = append(ms, g...)
	}
	for _, m := range ms {
		vc.joined = true
		vc.block(m, f, j, sp.pred, k)
	}
	return true
}

// groupStates groups paths with the same memory: others are not joined.
func groupStates(ss []*State) [][]*State {
	var out [][]*State
next:
	for _, s := range ss {
		for i, g := range out {
			if sameHeap(g[0], s) {
				out[i] = append(g, s)
				continue next
			}
		}
		out = append(out, []*State{s})
	}
	return out
}

func sameHeap(a, b *State) bool {
	one := func(a, b *State) bool {
		for n, t := range a.heap {
			x, ok := b.heap[n]
			if !ok {
				x = Const(n+"@0", t.sort)
			}
			if x != t && n != "$alloc" {
				return false
			}
		}
		return true
	}
	return one(a, b) && one(b, a)
}

// atStop collects a path that reached the join it is run up to.
func (vc *VC) atStop(st *State, f *Frame, b, pred *ssa.BasicBlock, joined bool) bool {
	if len(vc.stops) == 0 {
		return false
	}
	sp := vc.stops[len(vc.stops)-1]
	if sp.frame != f.id || sp.block != b {
		return false
	}
	var vals []*Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || joined {
			break
		}
		for j, p := range b.Preds {
			if p == pred {
				phis = append(phis, phi)
				vals = append(vals, vc.val(st, f, phi.Edges[j]))
				break
			}
		}
	}
	for i, phi := range phis {
		st.env[valKey{f.id, phi}] = vals[i]
	}
	sp.pred = pred
	sp.got = append(sp.got, st)
	return true
}

func (vc *VC) mergeStates(base *State, f *Frame, j *ssa.BasicBlock, ss []*State) *State {
	for _, s := range ss {
		if len(s.loops) != len(ss[0].loops) {
			return nil
		}
		for i := range s.loops {
			if s.loops[i] != ss[0].loops[i] {
				return nil
			}
		}
	}
	sel := make([]*Term, len(ss))
	for i := range ss {
		sel[i] = Fresh("path", SBool)
	}
	facts := make([][]*Term, len(ss))
	for i, s := range ss {
		for n := s.pc; n != base.pc && n != nil; n = n.prev {
			facts[i] = append(facts[i], n.t)
		}
	}
	if len(ss) == 2 {
		// the branch condition itself tells two paths apart when it is on both
		for _, x := range facts[0] {
			for _, y := range facts[1] {
				if x == Not(y) || y == Not(x) {
					sel[0], sel[1] = x, Not(x)
				}
			}
		}
	}
	m := base.clone()
	m.loops = append([]*loopAct{}, ss[0].loops...)
	m.assume(Or(sel...))
	m.groups = append(m.groups, ss[0].groups[min(len(base.groups), len(ss[0].groups)):]...)
	for _, s := range ss[1:] {
		m.groups = append(m.groups, s.groups[min(len(base.groups), len(s.groups)):]...)
	}
	jg := &joinGroup{sel: sel}
	m.groups = append(m.groups, jg)
	for i := range ss {
		fs := facts[i]
		for a := len(fs) - 1; a >= 0; a-- {
			if fs[a] != sel[i] {
				m.assume(Implies(sel[i], fs[a]))
			}
		}
	}
	pick := func(ts []*Term) *Term {
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			if ts[i] != r {
				r = Ite(sel[i], ts[i], r)
			}
		}
		return r
	}
	// heap
	names := map[string]*Term{}
	for _, s := range ss {
		for n, t := range s.heap {
			names[n] = t
		}
	}
	for n, t := range names {
		var ts []*Term
		same := true
		for _, s := range ss {
			x, ok := s.heap[n]
			if !ok {
				x = Const(n+"@0", t.sort)
			}
			ts = append(ts, x)
			same = same && x == ts[0]
		}
		if same {
			m.heap[n] = ts[0]
			continue
		}
		x := pick(ts)
		if n == "$alloc" || x.op == "ite" {
			// name the joined value
			v := Fresh(n, x.sort)
			m.assume(Eq(v, x))
			jg.names = append(jg.names, [2]*Term{v, x})
			x = v
		}
		m.heap[n] = x
	}
	merge := func(vs []*Val) (*Val, bool) {
		same := true
		for _, v := range vs {
			same = same && v == vs[0]
		}
		if same {
			return vs[0], true
		}
		var ts []*Term
		for _, v := range vs {
			if v.t == nil || v.fn != nil || v.lv != nil || v.tup != nil {
				return nil, false
			}
			if v.t.sort != vs[0].t.sort {
				return nil, false
			}
			ts = append(ts, v.t)
		}
		return &Val{t: pick(ts)}, true
	}
	for key := range ss[0].cells {
		var vs []*Val
		for _, s := range ss {
			if v, ok := s.cells[key]; ok {
				vs = append(vs, v)
			}
		}
		if len(vs) != len(ss) {
			delete(m.cells, key)
			continue
		}
		v, ok := merge(vs)
		if !ok {
			if vs[0].lv != nil && key.frame == f.id {
				return nil
			}
			if vs[0].t == nil {
				return nil
			}
			return nil
		}
		m.cells[key] = v
	}
	for _, in := range j.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []*Val
		for _, s := range ss {
			vs = append(vs, s.env[valKey{f.id, phi}])
		}
		v, ok := merge(vs)
		if !ok {
			return nil
		}
		m.env[valKey{f.id, phi}] = v
	}
	for key, v := range ss[0].env {
		if _, ok := m.env[key]; ok {
			continue
		}
		all := true
		for _, s := range ss[1:] {
			all = all && s.env[key] == v
		}
		if all {
			m.env[key] = v
		}
	}
	for _, s := range ss {
		for key, n := range s.ncall {
			if n > m.ncall[key] {
				m.ncall[key] = n
			}
		}
	}
	return m
}

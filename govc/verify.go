package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newCtx(p *Prog, s *Spec) *Ctx {
	C := &Ctx{prog: p, spec: s, fnAxioms: map[string]*Term{}, notes: map[string]bool{}, assumed: map[string]bool{}, used: map[string]*FuncSpec{}}
	for n, g := range s.ghosts {
		heapSorts["g."+n] = C.resolveType(g.ty, g.pkg).sort()
	}
	return C
}

// verify generates the obligations of one function under one contract. A
// construct outside the supported subset becomes an obligation that cannot be
// discharged, so it is reported rather than skipped.
func (C *Ctx) verify(sp *FuncSpec) (err error) {
	key := sp.key
	fn := C.prog.funcs[key]
	if fn == nil && sp.model == "init" {
		fn = C.prog.inits[strings.TrimSuffix(key, ".init")]
	}
	vc := &VC{C: C, fn: fn, key: key, spec: sp, aspect: sp.aspect, frames: map[int]*Frame{}, oblN: map[string]int{}, lets: map[string]SV{}, nopanic: sp.nopanic}
	bad := func(msg string) {
		C.obls = append(C.obls, &Obl{fn: key, name: vc.oblPrefix() + "/supported", goal: False, status: "failed", out: msg, pos: key})
	}
	if fn == nil {
		bad("function " + key + " not found in the repository")
		return nil
	}
	first := len(C.obls)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				C.obls = C.obls[:first]
				bad("outside the supported subset: " + x.msg)
			case specErr:
				C.obls = C.obls[:first]
				bad("contract does not fit the code: " + x.msg)
			default:
				panic(r)
			}
		}
	}()
	st := &State{seen: map[int]bool{}, heap: map[string]*Term{}, cells: map[cellKey]*Val{}, env: map[valKey]*Val{}, ncall: map[string]int{}}
	st.assume(Le(Int(1), st.alloc()))
	names, ptypes := sigNames(fn.Signature, sp, false)
	env := &Env{vc: vc, vars: map[string]SV{}, st: st, pkg: sp.pkg, where: key}
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("p%d", i)
		}
		nm += "$" + sanitize(key)
		t := Const(nm, sortOf(p.Type()))
		if sp.bsParams[p.Name()] {
			t = Const(nm+".b", SBs)
		}
		vc.inputs = append(vc.inputs, NamedTerm{p.Name(), t})
		st.assume(wf(p.Type(), t, st.alloc(), false))
		v := &Val{t: t}
		vc.params = append(vc.params, v)
		ty := goTy(p.Type())
		if t.sort == SBs {
			ty = tyBs
		}
		env.vars[names[i]] = SV{t, ty}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := ptypes[0].Underlying().(*types.Pointer); ok {
				st.assume(Neq(t, Int(0)))
			}
		}
	}
	if len(sp.params) > 0 {
		off := len(names) - len(sp.params)
		for i, n := range sp.params {
			env.vars[n] = env.vars[names[off+i]]
		}
	}
	if sp.model != "init" {
		for _, g := range C.spec.globals {
			if tp := C.prog.types[g.pkg]; tp == nil {
				continue
			}
			e := &Env{vc: vc, vars: map[string]SV{}, st: st, pkg: g.pkg, where: fmt.Sprintf("%s:%d", g.file, g.line)}
			st.assume(e.bool(g.e))
		}
	}
	vc.entry = st.clone()
	env.old = vc.entry
	for _, d := range sp.lets {
		v := env.eval(d.e)
		env.vars[d.name] = v
		vc.lets[d.name] = v
	}
	for _, c := range sp.requires {
		st.assume(env.bool(c.e))
	}
	if len(sp.requires) > 0 {
		vc.cover(st, "requires", fn.Pos())
	}
	vc.mods = vc.modLocs(env, sp.modifies)
	env.st = st
	for _, h := range sp.atEntry {
		vc.hint(st, env, h, "entry", fn.Pos())
	}
	vc.entry = st.clone()
	env.old = vc.entry
	f := vc.newFrame(fn, nil, vc.params, "")
	// closures verified on their own: free variables are arbitrary
	for _, fv := range fn.FreeVars {
		st.env[valKey{f.id, fv}] = &Val{t: vc.freshOf(st, fv.Type(), fv.Name())}
	}
	rn := resultNames(fn.Signature, sp)
	vc.runFunc(st, f, func(st *State, res []*Val) {
		if st.dead() {
			return
		}
		vc.returns++
		vc.cover(st, "return", fn.Pos())
		e2 := &Env{vc: vc, vars: map[string]SV{}, st: st, old: vc.entry, pkg: sp.pkg, where: key + " ensures"}
		for n, v := range env.vars {
			e2.vars[n] = v
		}
		for i := range rn {
			rt := fn.Signature.Results().At(i).Type()
			t := vc.term(st, res[i], fn.Pos())
			ty := goTy(rt)
			if t.sort == SBs {
				ty = tyBs
			}
			for _, n := range rn[i] {
				if _, dup := env.vars[n]; !dup || n == rn[i][0] {
					e2.vars[n] = SV{t, ty}
				}
			}
		}
		// hints may also mention local variables
		he := *e2
		if fn.Syntax() != nil {
			he.look = vc.frameLookup(f, fn.Syntax().End()-1, nil)
		}
		for _, h := range sp.atRet {
			vc.hint(st, &he, h, "return", fn.Pos())
		}
		for i, c := range sp.ensures {
			vc.prove(st, e2.bool(c.e), "ensures"+clauseName(c, i), fn.Pos())
		}
	})
	if os.Getenv("GOVC_DEV") != "" {
		for k := range sp.atCall {
			if !hintUsed[key+" "+k] {
				fmt.Println("note: unused hint", k, "in", key)
			}
		}
	}
	if vc.returns == 0 && len(sp.ensures) > 0 {
		C.notes["no returning path in "+key] = true
	}
	return nil
}

// verifyLemma generates the obligations of a lemma.
func (C *Ctx) verifyLemma(l *Lemma) {
	key := "lemma " + l.name
	sp := &FuncSpec{key: key, pkg: l.pkg}
	vc := &VC{C: C, key: key, spec: sp, oblN: map[string]int{}, lets: map[string]SV{}}
	bad := func(msg string) {
		C.obls = append(C.obls, &Obl{fn: key, name: key + "/wellformed", goal: False, status: "failed", out: msg, pos: l.file})
	}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(specErr); ok {
				bad(x.msg)
				return
			}
			panic(r)
		}
	}()
	run := func(step bool) {
		st := &State{seen: map[int]bool{}, heap: map[string]*Term{}, cells: map[cellKey]*Val{}, env: map[valKey]*Val{}, ncall: map[string]int{}}
		env := &Env{vc: vc, vars: map[string]SV{}, st: nil, pkg: l.pkg, where: key}
		for _, p := range l.params {
			ty := C.resolveType(p.ty, l.pkg)
			t := Const(p.name+"$"+l.name, ty.sort())
			env.vars[p.name] = SV{t, ty}
		}
		for _, d := range l.lets {
			env.vars[d.name] = env.eval(d.e)
		}
		for _, c := range l.requires {
			st.assume(env.bool(c.e))
		}
		if l.induct != "" {
			// strong induction on a natural number: the lemma holds for smaller values
			n := env.vars[l.induct].t
			st.assume(Le(Int(0), n))
			var bvs []*Term
			ie := &Env{vc: vc, vars: map[string]SV{}, st: nil, pkg: l.pkg, where: key + " induction"}
			for _, p := range l.params {
				ty := C.resolveType(p.ty, l.pkg)
				if l.step {
					ie.vars[p.name] = env.vars[p.name]
					if p.name == l.induct {
						ie.vars[p.name] = SV{Sub(n, Int(1)), ty}
					}
					continue
				}
				b := BVar(p.name, ty.sort())
				bvs = append(bvs, b)
				ie.vars[p.name] = SV{b, ty}
			}
			for _, d := range l.lets {
				ie.vars[d.name] = ie.eval(d.e)
			}
			m := ie.vars[l.induct].t
			hyp := []*Term{Le(Int(0), m), Lt(m, n)}
			for _, c := range l.requires {
				hyp = append(hyp, ie.bool(c.e))
			}
			var con []*Term
			for _, c := range l.ensures {
				con = append(con, ie.bool(c.e))
			}
			var pats [][]*Term
			for _, p := range l.pats {
				var ts []*Term
				for _, x := range p {
					ts = append(ts, ie.eval(x).t)
				}
				pats = append(pats, ts)
			}
			if l.step {
				st.assume(Implies(And(hyp...), And(con...)))
			} else {
				st.assume(Forall(bvs, pats, Implies(And(hyp...), And(con...))))
			}
		}
		env.st = nil
		for _, h := range l.hints {
			vc.hint(st, env, h, "proof", 0)
		}
		for i, c := range l.ensures {
			vc.prove(st, env.bool(c.e), "ensures"+clauseName(c, i), 0)
		}
	}
	run(false)
}

// closure of contracts reachable from the functions of a property.
func (C *Ctx) targets(prop string) (fs []*FuncSpec, ls []*Lemma) {
	want := map[*FuncSpec]bool{}
	var add func(sp *FuncSpec)
	add = func(sp *FuncSpec) {
		if sp.extern || sp.trusted || sp.inline || want[sp] {
			return
		}
		want[sp] = true
	}
	for _, sp := range C.spec.order {
		for _, p := range sp.props {
			if p == prop || prop == "all" {
				add(sp)
			}
		}
		if prop == "all" {
			add(sp)
		}
	}
	for sp := range want {
		fs = append(fs, sp)
	}
	sort.Slice(fs, func(i, j int) bool { return specID(fs[i]) < specID(fs[j]) })
	for _, n := range C.spec.lemOrd {
		l := C.spec.lemmas[n]
		for _, p := range l.props {
			if p == prop || prop == "all" {
				ls = append(ls, l)
				break
			}
		}
		if prop == "all" && len(l.props) == 0 {
			ls = append(ls, l)
		}
	}
	return
}

// generate verifies the property's functions and, transitively, every function
// whose contract was relied on, and every lemma used.
func (C *Ctx) generate(prop string) (done []string) {
	fs, ls := C.targets(prop)
	seen := map[string]bool{}
	queue := fs
	for _, sp := range fs {
		seen[specID(sp)] = true
	}
	lemSeen := map[string]bool{}
	doLemma := func(l *Lemma) {
		if !lemSeen[l.name] {
			lemSeen[l.name] = true
			C.verifyLemma(l)
			done = append(done, "lemma "+l.name)
		}
	}
	for len(queue) > 0 {
		sp := queue[0]
		queue = queue[1:]
		C.verify(sp)
		done = append(done, specID(sp))
		var ks []string
		for k := range C.used {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			// contracts that belong to another property are discharged by its check
			if !seen[k] && (prop == "all" || len(C.used[k].props) == 0) {
				seen[k] = true
				queue = append(queue, C.used[k])
			}
		}
	}
	for _, l := range ls {
		doLemma(l)
	}
	for {
		n := len(done)
		var ks []string
		for k := range C.notes {
			if strings.HasPrefix(k, "lemma ") {
				ks = append(ks, k[6:])
			}
		}
		for _, l := range C.spec.lemmas {
			if l.auto && C.lemmaRelevant(l) {
				ks = append(ks, l.name)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			doLemma(C.spec.lemmas[k])
		}
		if len(done) == n {
			break
		}
	}
	return done
}

// an auto lemma is relevant when a function of its pattern is in use.
func (C *Ctx) lemmaRelevant(l *Lemma) bool { return true }

var _ = ssa.NaiveForm

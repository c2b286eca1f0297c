package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lookupSpec finds the contract of a function for an aspect, falling back to the
// default contract.
func (C *Ctx) lookupSpec(key, aspect string) *FuncSpec {
	m, ok := C.spec.funcs[key]
	if !ok {
		return nil
	}
	if s, ok := m[aspect]; ok {
		return s
	}
	return m[""]
}

type intrinsic func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont)

func (vc *VC) call(st *State, f *Frame, in *ssa.Call, k cont) {
	c := in.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		vc.builtin(st, f, in, b, k)
		return
	}
	if g, ok := c.Value.(*ssa.Function); ok && vc.spec.model == "init" && g.Name() == "init" && g.Synthetic == "package initializer" {
		k(st, nil) // imported packages set only their own variables
		return
	}
	if c.IsInvoke() {
		recv := vc.val(st, f, c.Value)
		args := []*Val{recv}
		for _, a := range c.Args {
			args = append(args, vc.val(st, f, a))
		}
		if recv.dyn != nil {
			ms := vc.C.prog.prog.MethodSets.MethodSet(recv.dynT)
			sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				vc.unsup(in.Pos(), "method %s not found on %s", c.Method.Name(), recv.dynT)
			}
			if mf, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
				args[0] = recv.dyn
				fn := vc.C.prog.prog.FuncValue(mf)
				vc.callKey(st, f, in, objKey(mf), fn, mf.Type().(*types.Signature), args, nil, k)
				return
			}
			fn := vc.C.prog.prog.MethodValue(sel)
			args[0] = recv.dyn
			vc.callKey(st, f, in, funcKey(fn), fn, fn.Signature, args, nil, k)
			return
		}
		vc.boundCheck(st, Neq(recv.t, Int(0)), "nil", in.Pos())
		keys := []string{}
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			keys = append(keys, "("+pk+n.Obj().Name()+")."+c.Method.Name())
		}
		keys = append(keys, objKey(c.Method))
		for _, key := range keys {
			if sp := vc.C.lookupSpec(key, vc.aspect); sp != nil {
				vc.applySpec(st, f, in, sp, key, c.Method.Type().(*types.Signature), args, k)
				return
			}
		}
		vc.unsup(in.Pos(), "no contract for interface method %s", keys[0])
	}
	var args []*Val
	for _, a := range c.Args {
		args = append(args, vc.val(st, f, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Val
		if _, ok := c.Value.(*ssa.Function); !ok {
			bind = vc.val(st, f, c.Value).bind
		}
		vc.callFn(st, f, in, fn, args, bind, k)
		return
	}
	v := vc.val(st, f, c.Value)
	if v.fn != nil {
		vc.callFn(st, f, in, v.fn, args, v.bind, k)
		return
	}
	// function value: a contract may be attached to the named function type
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		key := shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		if sp := vc.C.lookupSpec(key, vc.aspect); sp != nil {
			vc.applySpec(st, f, in, sp, key, c.Signature(), args, k)
			return
		}
	}
	// or to the struct field it was loaded from
	if key := fieldFuncKey(c.Value); key != "" {
		if sp := vc.C.lookupSpec(key, vc.aspect); sp != nil {
			vc.applySpec(st, f, in, sp, key, c.Signature(), append([]*Val{{t: v.t}}, args...), k)
			return
		}
	}
	vc.unsup(in.Pos(), "call of unknown function value")
}

// fieldFuncKey names a function-typed struct field: "field:pkg.T.name".
func fieldFuncKey(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (vc *VC) callFn(st *State, f *Frame, in *ssa.Call, fn *ssa.Function, args, bind []*Val, k cont) {
	vc.callKey(st, f, in, funcKey(fn), fn, fn.Signature, args, bind, k)
}

func (vc *VC) callKey(st *State, f *Frame, in *ssa.Call, key string, fn *ssa.Function, sig *types.Signature, args, bind []*Val, k cont) {
	// contracts specialised to a function argument
	for _, a := range args {
		if a.fn != nil {
			sk := key + "<" + funcKey(a.fn) + ">"
			if a.fn.Parent() != nil {
				sk = key + "<" + a.fn.Name() + ">"
			}
			if sp := vc.C.lookupSpec(sk, vc.aspect); sp != nil {
				vc.applySpec(st, f, in, sp, sk, sig, args, k)
				return
			}
		}
	}
	// encoding/binary's reflective functions: contracts per static type
	if (key == "binary.Read" || key == "binary.Write") && len(args) == 3 && args[2].dynT != nil {
		dt := args[2].dynT
		sk := key + "[" + strings.ReplaceAll(types.TypeString(dt, func(p *types.Package) string { return p.Name() }), " ", "") + "]"
		if sp := vc.C.lookupSpec(sk, vc.aspect); sp != nil {
			ps := sig.Params()
			nsig := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps.At(0), ps.At(1), types.NewVar(token.NoPos, nil, "data", dt)), sig.Results(), false)
			vc.applySpec(st, f, in, sp, sk, nsig, []*Val{args[0], args[1], args[2].dyn}, k)
			return
		}
		vc.unsup(in.Pos(), "no contract for %s", sk)
	}
	if key == "binary.Size" && len(args) == 1 && args[0].dynT != nil {
		if b, ok := args[0].dynT.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Uintptr {
			k(st, []*Val{{t: Int(types.SizesFor("gc", "amd64").Sizeof(b))}})
			return
		}
	}
	if ic, ok := intrinsics[key]; ok {
		ic(vc, st, f, in, args, k)
		return
	}
	sp := vc.C.lookupSpec(key, vc.aspect)
	if sp != nil && !sp.inline {
		vc.applySpec(st, f, in, sp, key, sig, args, k)
		return
	}
	if fn == nil || fn.Blocks == nil {
		vc.unsup(in.Pos(), "no contract for %s", key)
	}
	inMod := fn.Pkg == nil || strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath)
	if !inMod {
		vc.unsup(in.Pos(), "no contract for external function %s", key)
	}
	for fr := f; fr != nil; fr = fr.parent {
		if fr.fn == fn && fn.Synthetic == "" {
			vc.unsup(in.Pos(), "recursive call of %s without a contract", key)
		}
	}
	vc.C.notes["inlined "+key] = true
	nf := vc.newFrame(fn, f, args, f.path+fmt.Sprintf("/C%d", in.Pos()))
	for i, fv := range fn.FreeVars {
		st.env[valKey{nf.id, fv}] = bind[i]
	}
	vc.runFunc(st, nf, k)
}

func sigNames(sig *types.Signature, sp *FuncSpec, invoke bool) (params []string, ptypes []types.Type) {
	if r := sig.Recv(); r != nil {
		n := r.Name()
		if n == "" || n == "_" {
			n = "self"
		}
		params = append(params, n)
		ptypes = append(ptypes, r.Type())
	} else if invoke {
		params = append(params, "self")
		ptypes = append(ptypes, types.Typ[types.Int])
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		n := p.Name()
		if n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		params = append(params, n)
		ptypes = append(ptypes, p.Type())
	}
	return
}

func resultNames(sig *types.Signature, sp *FuncSpec) [][]string {
	n := sig.Results().Len()
	out := make([][]string, n)
	for i := 0; i < n; i++ {
		r := sig.Results().At(i)
		if sp != nil && i < len(sp.results) {
			out[i] = append(out[i], sp.results[i])
		}
		if r.Name() != "" && r.Name() != "_" {
			out[i] = append(out[i], r.Name())
		}
		if n == 1 || i == 0 {
			out[i] = append(out[i], "result")
		}
		out[i] = append(out[i], fmt.Sprintf("result%d", i))
		if i == n-1 && r.Type().String() == "error" {
			out[i] = append(out[i], "err")
		}
	}
	return out
}

// applySpec replaces a call by the callee's contract.
func (vc *VC) applySpec(st *State, f *Frame, in *ssa.Call, sp *FuncSpec, key string, sig *types.Signature, args []*Val, k cont) {
	pos := in.Pos()
	if sp.extern || sp.trusted {
		vc.C.assumed[specID(sp)] = true
	} else {
		vc.C.used[specID(sp)] = sp
	}
	names, ptypes := sigNames(sig, sp, false)
	if len(names) == len(args)-1 { // interface method: receiver not in signature
		names = append([]string{"self"}, names...)
		ptypes = append([]types.Type{types.Typ[types.Int]}, ptypes...)
	}
	if len(sp.params) > 0 {
		off := len(names) - len(sp.params)
		for i, n := range sp.params {
			if off+i >= 0 {
				names[off+i] = n
			}
		}
	}
	env := &Env{vc: vc, vars: map[string]SV{}, st: st, old: st, pkg: sp.pkg, where: "call " + key}
	for i, n := range names {
		t := vc.argTerm(st, args[i], pos)
		if t == nil {
			continue
		}
		ty := goTy(ptypes[i])
		if t.sort == SBs {
			ty = tyBs
		}
		if _, ok := ptypes[i].Underlying().(*types.Interface); ok && !(sig.Recv() != nil && i == 0) {
			ty = goTy(ptypes[i])
		}
		env.vars[n] = SV{t, ty}
	}
	st.ncall[key]++
	ord := callOrd(f, in, st.ncall[key])
	short := key
	where := fmt.Sprintf("call:%s#%d", short, st.ncall[key])
	if r := sig.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok && args[0].t != nil {
			vc.boundCheck(st, Neq(args[0].t, Int(0)), where+"/nil-receiver", pos)
		}
	}
	for _, h := range vc.callHints("beforecall", key, ord) {
		vc.hint(st, vc.hintEnv(st, f, in, env, nil), h, where, pos)
	}
	for _, d := range sp.lets {
		env.vars[d.name] = env.eval(d.e)
	}
	for i, c := range sp.requires {
		g := env.bool(c.e)
		vc.prove(st, g, where+"/requires"+clauseName(c, i), pos)
		st.assume(g)
	}
	pre := st.clone()
	mods := vc.modLocs(env, sp.modifies)
	for _, m := range mods {
		vc.checkWriteIf(st, calleeWrites(m), m, pos)
	}
	// new allocations
	na := Fresh("$alloc", SInt)
	st.assume(Le(st.alloc(), na))
	st.heap["$alloc"] = na
	for _, m := range mods {
		vc.havocLoc(st, m, vc.locSort(m))
	}
	var res []*Val
	rn := resultNames(sig, sp)
	env2 := &Env{vc: vc, vars: map[string]SV{}, st: st, old: pre, pkg: sp.pkg, where: "call " + key}
	for n, v := range env.vars {
		env2.vars[n] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		s := sortOf(rt)
		ty := goTy(rt)
		if i < len(sp.resTypes) && sp.resTypes[i] != nil {
			ty = vc.C.resolveType(sp.resTypes[i], sp.pkg)
			s = ty.sort()
		}
		r := Fresh(rn[i][0], s)
		st.assume(wf(rt, r, st.alloc(), false))
		res = append(res, &Val{t: r})
		if s == SBs {
			ty = tyBs
		}
		for _, n := range rn[i] {
			if _, dup := env.vars[n]; !dup || n == rn[i][0] {
				env2.vars[n] = SV{r, ty}
			}
		}
	}
	for _, c := range sp.ensures {
		st.assume(env2.bool(c.e))
	}
	for _, h := range vc.callHints("aftercall", key, ord) {
		vc.hint(st, vc.hintEnv(st, f, in, env2, pre), h, where, pos)
	}
	k(st, res)
}

func (vc *VC) argTerm(st *State, v *Val, pos token.Pos) *Term {
	if v.t != nil {
		return v.t
	}
	if v.lv != nil && !(len(v.lv.path) == 0 && (v.lv.kind == "heap" || v.lv.kind == "back")) {
		vc.unsup(pos, "address of a local variable or field passed to a function under contract")
	}
	return vc.term(st, v, pos)
}

// hintEnv: variables of the calling frame plus $-prefixed callee names.
func (vc *VC) hintEnv(st *State, f *Frame, in *ssa.Call, callee *Env, pre *State) *Env {
	e := &Env{vc: vc, vars: map[string]SV{}, st: st, old: vc.entry, pre: pre, look: vc.frameLookup(f, in.Pos(), nil), pkg: vc.pkgOf(), where: vc.key + " hint"}
	for n, v := range callee.vars {
		e.vars["$"+n] = v
	}
	return e
}

// callOrd: which call of its callee this is, counted in source order (in an
// inlined function: in the order of execution).
func callOrd(f *Frame, in *ssa.Call, n int) int {
	if f == nil || in == nil || f.parent != nil {
		return n
	}
	name := func(c *ssa.CallCommon) string {
		if c.IsInvoke() {
			return c.Method.Name()
		}
		if g := c.StaticCallee(); g != nil {
			if g.Origin() != nil {
				g = g.Origin()
			}
			return g.Name()
		}
		return ""
	}
	k := 1
	for _, b := range f.fn.Blocks {
		for _, x := range b.Instrs {
			if c, ok := x.(*ssa.Call); ok && c != in && name(c.Common()) == name(in.Common()) && c.Pos() < in.Pos() {
				k++
			}
		}
	}
	return k
}

// hintUsed: the call hints that applied, to spot misspelt ones during development.
var hintUsed = map[string]bool{}

func (vc *VC) callHints(kind, key string, n int) []Hint {
	if len(vc.spec.atCall) == 0 {
		return nil
	}
	var out []Hint
	short := key
	if i := strings.Index(short, "<"); i >= 0 {
		short = short[:i]
	}
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	for _, nm := range []string{short, key} {
		for _, k := range []string{kind + ":" + nm, fmt.Sprintf("%s:%s#%d", kind, nm, n)} {
			if hs := vc.spec.atCall[k]; len(hs) > 0 {
				out = append(out, hs...)
				hintUsed[vc.key+" "+k] = true
			}
		}
	}
	return out
}

func specID(sp *FuncSpec) string {
	if sp.aspect != "" {
		return sp.key + "@" + sp.aspect
	}
	return sp.key
}

// ---------- builtins ----------

func acopy(dst, dpos, src, spos, n *Term) *Term {
	if n == Int(0) {
		return dst
	}
	_, es := splitArr(dst.sort)
	return App("acopy."+sanitize(string(es)), dst.sort, dst, dpos, src, spos, n)
}

func (vc *VC) builtin(st *State, f *Frame, in *ssa.Call, b *ssa.Builtin, k cont) {
	var args []*Val
	for _, a := range in.Call.Args {
		args = append(args, vc.val(st, f, a))
	}
	pos := in.Pos()
	one := func(t *Term) { k(st, []*Val{{t: t}}) }
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		switch {
		case x.t != nil && x.t.sort == SBs:
			st.assume(And(Le(Int(0), blen(x.t)), Le(blen(x.t), BigInt(maxLen))))
			one(blen(x.t))
			return
		case x.t != nil && x.t.sort == SSlice:
			if b.Name() == "len" {
				one(SlLen(x.t))
			} else {
				one(SlCap(x.t))
			}
			return
		}
		t := in.Call.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch t := t.(type) {
		case *types.Array:
			one(Int(t.Len()))
			return
		case *types.Map:
			d, _ := mapHeaps(t)
			ds := ArrSort(SInt, ArrSort(sortOf(t.Key()), SBool))
			n := App("maplen."+sanitize(string(sortOf(t.Key()))), SInt, Select(st.getHeap(vc, d, ds), x.t))
			n = Ite(Eq(x.t, Int(0)), Int(0), n)
			st.assume(Le(Int(0), n))
			one(n)
			return
		}
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if isFloat(in.Type()) || isString(in.Type()) {
				vc.unsup(pos, "builtin %s on %s", b.Name(), in.Type())
			}
			if b.Name() == "min" {
				r = Ite(Le(r, a.t), r, a.t)
			} else {
				r = Ite(Ge(r, a.t), r, a.t)
			}
		}
		one(r)
		return
	case "append":
		vc.appendOp(st, f, in, args, k)
		return
	case "copy":
		dst, src := args[0].t, args[1].t
		el := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
		hn, hs := backName(el), backSort(el)
		h := st.getHeap(vc, hn, hs)
		var sarr, soff, slen *Term
		if src.sort == SBs {
			st.assume(And(Le(Int(0), blen(src)), Le(blen(src), BigInt(maxLen))))
			sarr, soff, slen = bsarr(src), Int(0), blen(src)
		} else {
			sarr, soff, slen = Select(h, SlArr(src)), SlOff(src), SlLen(src)
		}
		n := Ite(Le(SlLen(dst), slen), SlLen(dst), slen)
		if dst.sort == SBs {
			vc.unsup(pos, "copy into an immutable byte string")
		}
		vc.checkWriteIf(st, Gt(n, Int(0)), modLoc{hn, SlArr(dst), -1}, pos)
		st.heap[hn] = Store(h, SlArr(dst), acopy(Select(h, SlArr(dst)), SlOff(dst), sarr, soff, n))
		one(n)
		return
	case "delete":
		mt := in.Call.Args[0].Type().Underlying().(*types.Map)
		vc.mapSet(st, mt, args[0].t, vc.term(st, args[1], pos), nil, pos)
		k(st, nil)
		return
	case "print", "println":
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		k(st, []*Val{args[0]})
		return
	case "ssa:deferstack":
		one(Int(0))
		return
	}
	vc.unsup(pos, "builtin %s", b.Name())
}

func (vc *VC) checkWriteIf(st *State, c *Term, m modLoc, pos token.Pos) {
	if c == False {
		return
	}
	if c == True {
		vc.checkWrite(st, m, pos)
		return
	}
	s2 := st.clone()
	s2.assume(c)
	if !s2.dead() {
		vc.checkWrite(s2, m, pos)
	}
}

func (vc *VC) appendOp(st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
	a, b := args[0].t, args[1].t
	pos := in.Pos()
	if a.sort == SBs {
		// append to an immutable byte string: the result is treated as a value
		var y *Term
		if b.sort == SBs {
			y = b
		} else {
			y = bsOf(st, vc, b)
		}
		k(st, []*Val{{t: bcat(a, y)}})
		return
	}
	el := in.Type().Underlying().(*types.Slice).Elem()
	hn, hs := backName(el), backSort(el)
	h := st.getHeap(vc, hn, hs)
	var barr, boff, blen_ *Term
	if b.sort == SBs {
		st.assume(And(Le(Int(0), blen(b)), Le(blen(b), BigInt(maxLen))))
		barr, boff, blen_ = bsarr(b), Int(0), blen(b)
	} else {
		barr, boff, blen_ = Select(h, SlArr(b)), SlOff(b), SlLen(b)
	}
	if blen_ == Int(0) {
		k(st, []*Val{{t: a}})
		return
	}
	n := Add(SlLen(a), blen_)
	st.assume(Le(n, BigInt(maxLen)))
	fill := func(base, at *Term) *Term {
		if isInt(blen_) && blen_.val.IsInt64() && blen_.val.Int64() <= 8 {
			r := base
			for i := int64(0); i < blen_.val.Int64(); i++ {
				r = Store(r, Add(at, Int(i)), Select(barr, Add(boff, Int(i))))
			}
			return r
		}
		return acopy(base, at, barr, boff, blen_)
	}
	if vc.spec.merge && !(SlCap(a) == Int(0)) {
		// both outcomes in one state
		fits := Le(n, SlCap(a))
		vc.checkWriteIf(st, And(fits, Gt(blen_, Int(0))), modLoc{hn, SlArr(a), -1}, pos)
		r := vc.newRef(st)
		c := Fresh("cap", SInt)
		st.assume(And(Le(n, c), Le(c, BigInt(maxLen))))
		arr := Select(h, SlArr(a))
		zero := ConstArr(ArrSort(SInt, sortOf(el)), zeroOf(el))
		in1 := fill(arr, Add(SlOff(a), SlLen(a)))
		in2 := fill(acopy(zero, Int(0), arr, SlOff(a), SlLen(a)), SlLen(a))
		st.groups = append(st.groups, &joinGroup{sel: []*Term{fits, Not(fits)}})
		obj := Ite(fits, SlArr(a), r)
		st.heap[hn] = Store(h, obj, Ite(fits, in1, in2))
		k(st, []*Val{{t: MkSlice(obj, Ite(fits, SlOff(a), Int(0)), n, Ite(fits, SlCap(a), c))}})
		return
	}
	// in place
	if !(SlCap(a) == Int(0)) {
		s1 := st.clone()
		s1.assume(Le(n, SlCap(a)))
		if !s1.dead() {
			vc.branch(s1)
			vc.checkWriteIf(s1, Gt(blen_, Int(0)), modLoc{hn, SlArr(a), -1}, pos)
			arr := Select(h, SlArr(a))
			s1.heap[hn] = Store(h, SlArr(a), fill(arr, Add(SlOff(a), SlLen(a))))
			k(s1, []*Val{{t: MkSlice(SlArr(a), SlOff(a), n, SlCap(a))}})
		}
	}
	st.assume(Gt(n, SlCap(a)))
	if st.dead() {
		return
	}
	r := vc.newRef(st)
	c := Fresh("cap", SInt)
	st.assume(And(Le(n, c), Le(c, BigInt(maxLen))))
	zero := ConstArr(ArrSort(SInt, sortOf(el)), zeroOf(el))
	arr := acopy(zero, Int(0), Select(h, SlArr(a)), SlOff(a), SlLen(a))
	st.heap[hn] = Store(h, r, fill(arr, SlLen(a)))
	k(st, []*Val{{t: MkSlice(r, Int(0), n, c)}})
}

// ---------- intrinsics ----------

var intrinsics = map[string]intrinsic{}

func byteOfT(v, k *Term) *Term {
	if isInt(k) && k.val.IsInt64() {
		return byteOf(v, int(k.val.Int64()))
	}
	return App("byteN", SInt, v, k)
}

func byteOf(v *Term, k int) *Term {
	if isInt(v) {
		return Mod(Div(v, BigInt(pow256(k))), Int(256))
	}
	return App("byteN", SInt, v, Int(int64(k)))
}

func init() {
	for _, n := range []int{2, 4, 8} {
		n := n
		for _, be := range []bool{false, true} {
			be := be
			en := "littleEndian"
			if be {
				en = "bigEndian"
			}
			nm := fmt.Sprintf("Uint%d", n*8)
			intrinsics["(binary."+en+").Put"+nm] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
				s, v := args[1].t, args[2].t
				vc.boundCheck(st, Ge(SlLen(s), Int(int64(n))), "index", in.Pos())
				hn, hs := "S.uint8", backSort(types.Typ[types.Uint8])
				vc.checkWrite(st, modLoc{hn, SlArr(s), -1}, in.Pos())
				h := st.getHeap(vc, hn, hs)
				a := Select(h, SlArr(s))
				for i := 0; i < n; i++ {
					j := i
					if be {
						j = n - 1 - i
					}
					a = Store(a, Add(SlOff(s), Int(int64(i))), byteOf(v, j))
				}
				st.heap[hn] = Store(h, SlArr(s), a)
				st.assume(uintRT(n, v))
				k(st, nil)
			}
			intrinsics["(binary."+en+")."+nm] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
				s := args[1].t
				var bs []*Term
				if s.sort == SBs {
					vc.boundCheck(st, Ge(blen(s), Int(int64(n))), "index", in.Pos())
					for i := 0; i < n; i++ {
						bs = append(bs, bat(s, Int(int64(i))))
					}
				} else {
					vc.boundCheck(st, Ge(SlLen(s), Int(int64(n))), "index", in.Pos())
					a := Select(st.getHeap(vc, "S.uint8", backSort(types.Typ[types.Uint8])), SlArr(s))
					for i := 0; i < n; i++ {
						bs = append(bs, Select(a, Add(SlOff(s), Int(int64(i)))))
					}
				}
				if be {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						bs[i], bs[j] = bs[j], bs[i]
					}
				}
				r := App(fmt.Sprintf("le%d", n), SInt, bs...)
				st.assume(wf(in.Type(), r, nil, false))
				k(st, []*Val{{t: r}})
			}
		}
	}
	// PutUvarint writes the varint encoding of x; Uvarint reads one back.
	intrinsics["binary.PutUvarint"] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
		s, v := args[0].t, args[1].t
		n := uvlen(st, v)
		vc.boundCheck(st, Ge(SlLen(s), n), "index", in.Pos())
		hn, hs := "S.uint8", backSort(types.Typ[types.Uint8])
		vc.checkWrite(st, modLoc{hn, SlArr(s), -1}, in.Pos())
		h := st.getHeap(vc, hn, hs)
		a := acopy(Select(h, SlArr(s)), SlOff(s), App("uvbytes", ArrSort(SInt, SInt), v), Int(0), n)
		st.heap[hn] = Store(h, SlArr(s), a)
		k(st, []*Val{{t: n}})
	}
	intrinsics["binary.AppendUvarint"] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
		v := args[1].t
		n := uvlen(st, v)
		b := mkbs(App("uvbytes", ArrSort(SInt, SInt), v), Int(0), n)
		vc.appendOp(st, f, in, []*Val{args[0], {t: b}}, k)
	}
	intrinsics["binary.Uvarint"] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
		s := args[0].t
		b := s
		if s.sort != SBs {
			b = bsOf(st, vc, s)
		}
		v, n := App("uvval", SInt, b), App("uvn", SInt, b)
		st.assume(wf(types.Typ[types.Uint64], v, nil, false))
		k(st, []*Val{{t: v}, {t: n}})
	}
	id := func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) { k(st, []*Val{{t: args[0].t}}) }
	for _, n := range []string{"math.Float64bits", "math.Float32bits", "math.Float64frombits", "math.Float32frombits"} {
		intrinsics[n] = id
	}
	newErr := func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
		r := vc.newRef(st)
		st.assume(Neq(r, Int(0)))
		k(st, []*Val{{t: r}})
	}
	intrinsics["fmt.Errorf"] = func(vc *VC, st *State, f *Frame, in *ssa.Call, args []*Val, k cont) {
		// a fresh error; errors.Is looks through %w to the wrapped arguments
		r := vc.newRef(st)
		for _, x := range vc.varargs(st, args) {
			st.assume(Implies(And(Neq(x, Int(0))), App("wraps", SBool, r, x)))
		}
		k(st, []*Val{{t: r}})
	}
	intrinsics["errors.New"] = newErr
}

// varargs returns the interface values of a literal variadic argument, if known.
func (vc *VC) varargs(st *State, args []*Val) []*Term {
	if len(args) < 2 || args[1].t == nil || args[1].t.sort != SSlice {
		return nil
	}
	return nil
}

func pow256(k int) *bigInt { return newBig(k * 8) }

func uintRT(n int, v *Term) *Term {
	if isInt(v) {
		return True
	}
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, byteOf(v, i))
	}
	return Eq(App(fmt.Sprintf("le%d", n), SInt, bs...), v)
}

func uvlen(st *State, v *Term) *Term {
	n := App("uvlen", SInt, v)
	st.assume(And(Le(Int(1), n), Le(n, Int(10))))
	return n
}

// calleeWrites: the elements of the nil slice do not exist, so a callee that may
// modify the elements of a slice writes nothing when the slice is nil.
func calleeWrites(m modLoc) *Term {
	if m.ref != nil && strings.HasPrefix(m.heap, "S.") {
		return Not(Eq(m.ref, Int(0)))
	}
	return True
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// STy is the type of a specification value.
type STy struct {
	kind string // "int","bool","bs","map","go","sort","tuple"
	gt   types.Type
	key  *STy
	elem *STy
	name string
}

var tyInt = &STy{kind: "int"}
var tyBool = &STy{kind: "bool"}
var tyBs = &STy{kind: "bs"}

func goTy(t types.Type) *STy {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return tyBool
		}
		if b.Info()&types.IsString != 0 {
			return tyBs
		}
	}
	return &STy{kind: "go", gt: t}
}

func (t *STy) sort() Sort {
	switch t.kind {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "bs":
		return SBs
	case "map":
		return ArrSort(t.key.sort(), t.elem.sort())
	case "go":
		return sortOf(t.gt)
	case "sort":
		return Sort(t.name)
	}
	panic("sort of " + t.kind)
}

func (t *STy) String() string {
	switch t.kind {
	case "go":
		return t.gt.String()
	case "map":
		return "[" + t.key.String() + "]" + t.elem.String()
	case "sort":
		return t.name
	}
	return t.kind
}

type SV struct {
	t  *Term
	ty *STy
}

type Env struct {
	vc    *VC
	vars  map[string]SV
	st    *State
	old   *State
	pre   *State
	look  func(name string, st *State, inOld bool) (SV, bool)
	inOld bool
	pkg   string
	where string
	depth int
}

func (e *Env) with(n string, v SV) *Env {
	ne := *e
	ne.vars = map[string]SV{}
	for k, x := range e.vars {
		ne.vars[k] = x
	}
	ne.vars[n] = v
	return &ne
}

type specErr struct{ msg string }

func (e *Env) fail(f string, a ...any) {
	panic(specErr{e.where + ": " + fmt.Sprintf(f, a...)})
}

func (vc *Ctx) resolveType(t *TyEx, pkg string) *STy {
	switch t.kind {
	case "map":
		return &STy{kind: "map", key: vc.resolveType(t.key, pkg), elem: vc.resolveType(t.elem, pkg)}
	case "slice":
		el := vc.resolveType(t.elem, pkg)
		return &STy{kind: "go", gt: types.NewSlice(el.goType())}
	case "ptr":
		el := vc.resolveType(t.elem, pkg)
		return &STy{kind: "go", gt: types.NewPointer(el.goType())}
	}
	switch t.name {
	case "int", "ref":
		return tyInt
	case "bool":
		return tyBool
	case "Bs", "string":
		return tyBs
	}
	if a, ok := vc.spec.aliases[t.name]; ok {
		return vc.resolveType(a, pkg)
	}
	if vc.spec.sorts[t.name] {
		return &STy{kind: "sort", name: t.name}
	}
	if d, ok := vc.spec.structs[t.name]; ok {
		vc.declStruct(d)
		return &STy{kind: "sort", name: "D." + t.name}
	}
	if o := types.Universe.Lookup(t.name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return goTy(tn.Type())
		}
	}
	p, n := pkg, t.name
	if i := strings.Index(t.name, "."); i >= 0 {
		p, n = t.name[:i], t.name[i+1:]
	}
	if tp, ok := vc.prog.types[p]; ok {
		if o := tp.Scope().Lookup(n); o != nil {
			return goTy(o.Type())
		}
	}
	panic(specErr{"unknown type " + t.String() + " in package " + pkg})
}

func (t *STy) goType() types.Type {
	switch t.kind {
	case "int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "bs":
		return types.Typ[types.String]
	case "go":
		return t.gt
	}
	panic(specErr{"no Go type for " + t.String()})
}

func (vc *Ctx) declStruct(d *FnDef) {
	n := "D." + d.name
	if _, ok := datatypes[n]; ok {
		return
	}
	var fs []string
	var ss []Sort
	for _, b := range d.params {
		fs = append(fs, b.name)
		ss = append(ss, vc.resolveType(b.ty, d.pkg).sort())
	}
	DeclDatatype(n, fs, ss)
}

func (e *Env) bool(x *Ex) *Term {
	v := e.eval(x)
	if v.t.sort != SBool {
		e.fail("boolean expected, got %s", v.ty)
	}
	return v.t
}

func (e *Env) int(x *Ex) *Term {
	v := e.eval(x)
	if v.t.sort != SInt {
		e.fail("integer expected, got %s", v.ty)
	}
	return v.t
}

func (e *Env) state() *State {
	if e.st == nil {
		e.fail("heap access in a pure context")
	}
	return e.st
}

func (e *Env) heapOf(name string, s Sort) *Term { return e.state().getHeap(e.vc.ctxOrNil(), name, s) }

func (e *Env) structField(v SV, f string) (SV, bool) {
	ty := v.ty
	if ty.kind == "sort" && strings.HasPrefix(ty.name, "D.") {
		d := e.vc.C.spec.structs[ty.name[2:]]
		for i, b := range d.params {
			if b.name == f {
				return SV{Sel(v.t, i), e.vc.C.resolveType(b.ty, d.pkg)}, true
			}
		}
		return SV{}, false
	}
	if ty.kind != "go" {
		return SV{}, false
	}
	gt := ty.gt
	// automatic dereference
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			obj := Select(e.heapOf(heapName(p.Elem()), heapSort(p.Elem())), v.t)
			return e.structField(SV{obj, goTy(p.Elem())}, f)
		}
	}
	if st, ok := gt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				t := Sel(v.t, i)
				if t.sort == SBs {
					return SV{t, tyBs}, true
				}
				return SV{t, goTy(st.Field(i).Type())}, true
			}
		}
		// embedded
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if r, ok := e.structField(SV{Sel(v.t, i), goTy(st.Field(i).Type())}, f); ok {
					return r, true
				}
			}
		}
	}
	return SV{}, false
}

func (e *Env) elems(v SV) SV {
	sl, ok := v.ty.gt.Underlying().(*types.Slice)
	if !ok {
		e.fail("slice expected, got %s", v.ty)
	}
	S := e.heapOf(backName(sl.Elem()), backSort(sl.Elem()))
	return SV{Select(S, SlArr(v.t)), &STy{kind: "map", key: tyInt, elem: goTy(sl.Elem())}}
}

func isGoSlice(t *STy) bool {
	if t.kind != "go" {
		return false
	}
	_, ok := t.gt.Underlying().(*types.Slice)
	return ok
}

func bsOf(st *State, vc *VC, v *Term) *Term {
	if v.sort == SBs {
		return v
	}
	S := st.getHeap(vc, "S.uint8", backSort(types.Typ[types.Uint8]))
	return mkbs(Select(S, SlArr(v)), SlOff(v), SlLen(v))
}

func (e *Env) eval(x *Ex) SV {
	switch x.op {
	case "int":
		return SV{BigInt(x.val), tyInt}
	case "bool":
		return SV{Bool(x.name == "true"), tyBool}
	case "str":
		return SV{strLit(x.name), tyBs}
	case "id":
		return e.ident(x.name)
	case "let":
		v := e.eval(x.args[0])
		return e.with(x.name, v).eval(x.args[1])
	case "old":
		if e.old == nil {
			e.fail("old() not available here")
		}
		ne := *e
		ne.st = e.old
		ne.inOld = true
		return ne.eval(x.args[0])
	case "pre":
		if e.pre == nil {
			e.fail("pre() not available here")
		}
		ne := *e
		ne.st = e.pre
		return ne.eval(x.args[0])
	case "!":
		return SV{Not(e.bool(x.args[0])), tyBool}
	case "neg":
		return SV{Sub(Int(0), e.int(x.args[0])), tyInt}
	case "deref":
		v := e.eval(x.args[0])
		p, ok := v.ty.gt.Underlying().(*types.Pointer)
		if !ok {
			e.fail("deref of non-pointer %s", v.ty)
		}
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return SV{Select(e.heapOf(backName(a.Elem()), backSort(a.Elem())), v.t), goTy(p.Elem())}
		}
		return SV{Select(e.heapOf(heapName(p.Elem()), heapSort(p.Elem())), v.t), goTy(p.Elem())}
	case "&&":
		return SV{And(e.bool(x.args[0]), e.bool(x.args[1])), tyBool}
	case "||":
		return SV{Or(e.bool(x.args[0]), e.bool(x.args[1])), tyBool}
	case "==>":
		return SV{Implies(e.bool(x.args[0]), e.bool(x.args[1])), tyBool}
	case "<==>":
		return SV{Eq(e.bool(x.args[0]), e.bool(x.args[1])), tyBool}
	case "==", "!=":
		t := e.equal(x.args[0], x.args[1])
		if x.op == "!=" {
			t = Not(t)
		}
		return SV{t, tyBool}
	case "<":
		return SV{Lt(e.int(x.args[0]), e.int(x.args[1])), tyBool}
	case "<=":
		return SV{Le(e.int(x.args[0]), e.int(x.args[1])), tyBool}
	case ">":
		return SV{Gt(e.int(x.args[0]), e.int(x.args[1])), tyBool}
	case ">=":
		return SV{Ge(e.int(x.args[0]), e.int(x.args[1])), tyBool}
	case "+":
		return SV{Add(e.int(x.args[0]), e.int(x.args[1])), tyInt}
	case "-":
		return SV{Sub(e.int(x.args[0]), e.int(x.args[1])), tyInt}
	case "*":
		return SV{Mul(e.int(x.args[0]), e.int(x.args[1])), tyInt}
	case "/":
		return SV{Div(e.int(x.args[0]), e.int(x.args[1])), tyInt}
	case "%":
		return SV{Mod(e.int(x.args[0]), e.int(x.args[1])), tyInt}
	case "ite":
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		return SV{Ite(e.bool(x.args[0]), a.t, b.t), a.ty}
	case "in":
		k := e.eval(x.args[0])
		m := e.eval(x.args[1])
		if m.ty.kind == "map" && m.ty.elem.kind == "bool" {
			return SV{Select(m.t, k.t), tyBool}
		}
		mt := m.ty.gt.Underlying().(*types.Map)
		d, _ := mapHeaps(mt)
		D := e.heapOf(d, ArrSort(SInt, ArrSort(sortOf(mt.Key()), SBool)))
		return SV{Select(Select(D, m.t), k.t), tyBool}
	case "field":
		// package-qualified global
		if x.args[0].op == "id" {
			if _, isVar := e.tryIdent(x.args[0].name); !isVar {
				if g, ok := e.global(x.args[0].name, x.name); ok {
					return g
				}
			}
		}
		v := e.eval(x.args[0])
		if isGoSlice(v.ty) && v.t.sort == SSlice {
			switch x.name {
			case "arr":
				return SV{SlArr(v.t), tyInt}
			case "off":
				return SV{SlOff(v.t), tyInt}
			}
		}
		r, ok := e.structField(v, x.name)
		if !ok {
			e.fail("no field %s in %s", x.name, v.ty)
		}
		return r
	case "index":
		v := e.eval(x.args[0])
		i := e.eval(x.args[1])
		return e.index(v, i)
	case "upd":
		v := e.eval(x.args[0])
		return SV{Store(v.t, e.eval(x.args[1]).t, e.eval(x.args[2]).t), v.ty}
	case "slice":
		v := e.eval(x.args[0])
		lo := Int(0)
		if x.args[1] != nil {
			lo = e.int(x.args[1])
		}
		if v.t.sort == SBs {
			hi := blen(v.t)
			if x.args[2] != nil {
				hi = e.int(x.args[2])
			}
			return SV{mkbs(bsarr(v.t), lo, Sub(hi, lo)), tyBs}
		}
		hi := SlLen(v.t)
		if x.args[2] != nil {
			hi = e.int(x.args[2])
		}
		return SV{MkSlice(SlArr(v.t), Add(SlOff(v.t), lo), Sub(hi, lo), Sub(SlCap(v.t), lo)), v.ty}
	case "forall", "exists":
		de := *e
		de.depth++
		var bvs []*Term
		var tys []*STy
		for _, b := range x.bvs {
			ty := e.vc.C.resolveType(b.ty, e.pkg)
			bvs = append(bvs, BVarAt(b.name, de.depth, ty.sort()))
			tys = append(tys, ty)
		}
		bind := func(sub map[*Term]*Term) *Env {
			ne := &de
			for i, b := range x.bvs {
				v := bvs[i]
				if s := sub[v]; s != nil {
					v = Sub(v, s)
				}
				ne = ne.with(b.name, SV{v, tys[i]})
			}
			return ne
		}
		var plain [][]*Term
		var out []*Term
		for _, p := range x.pats {
			ev := func(ne *Env) []*Term {
				var ts []*Term
				for _, px := range p {
					ts = append(ts, ne.eval(px).t)
				}
				return ts
			}
			ts := ev(bind(nil))
			// Arithmetic in a pattern (an element at offset + index) is not matched
			// reliably: quantify over the absolute index instead.
			if sub := absIndex(ts, bvs); sub != nil {
				ne := bind(sub)
				if t2 := ev(ne); !arithPat(t2) {
					q := quant(x.op, bvs, [][]*Term{t2}, ne.bool(x.args[0]))
					if x.op == "exists" {
						return SV{q, tyBool}
					}
					out = append(out, q)
					continue
				}
			}
			plain = append(plain, ts)
		}
		if len(plain) > 0 || len(out) == 0 {
			out = append([]*Term{quant(x.op, bvs, plain, bind(nil).bool(x.args[0]))}, out...)
		}
		for _, q := range out[1:] {
			altDup[q.id] = true
		}
		return SV{And(out...), tyBool}
	case "call":
		return e.call(x)
	}
	e.fail("unsupported expression %s", x.op)
	return SV{}
}

func (e *Env) index(v, i SV) SV {
	switch {
	case v.t.sort == SBs:
		return SV{bat(v.t, i.t), tyInt}
	case v.ty.kind == "map":
		return SV{Select(v.t, i.t), v.ty.elem}
	case v.ty.kind == "go":
		switch u := v.ty.gt.Underlying().(type) {
		case *types.Slice:
			el := e.elems(v)
			r := Select(el.t, Add(SlOff(v.t), i.t))
			return SV{r, goTy(u.Elem())}
		case *types.Array:
			return SV{Select(v.t, i.t), goTy(u.Elem())}
		case *types.Map:
			_, vn := mapHeaps(u)
			V := e.heapOf(vn, ArrSort(SInt, ArrSort(sortOf(u.Key()), sortOf(u.Elem()))))
			return SV{Select(Select(V, v.t), i.t), goTy(u.Elem())}
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				S := e.heapOf(backName(a.Elem()), backSort(a.Elem()))
				return SV{Select(Select(S, v.t), i.t), goTy(a.Elem())}
			}
		}
	}
	e.fail("cannot index %s", v.ty)
	return SV{}
}

func mapHeaps(m *types.Map) (string, string) {
	n := sanitize(typeName(m.Key()) + ".to." + typeName(m.Elem()))
	if _, ok := heapSorts["MD."+n]; !ok {
		heapSorts["MD."+n] = ArrSort(SInt, ArrSort(sortOf(m.Key()), SBool))
		heapSorts["MV."+n] = ArrSort(SInt, ArrSort(sortOf(m.Key()), sortOf(m.Elem())))
	}
	return "MD." + n, "MV." + n
}

func (e *Env) equal(a, b *Ex) *Term {
	if b.op == "id" && b.name == "nil" {
		v := e.eval(a)
		if v.t.sort == SSlice {
			return Eq(SlArr(v.t), Int(0))
		}
		return Eq(v.t, Int(0))
	}
	if a.op == "id" && a.name == "nil" {
		return e.equal(b, a)
	}
	x, y := e.eval(a), e.eval(b)
	if x.t.sort != y.t.sort {
		if x.t.sort == SBs && y.t.sort == SSlice {
			return Eq(x.t, bsOf(e.state(), e.vc, y.t))
		}
		if y.t.sort == SBs && x.t.sort == SSlice {
			return Eq(y.t, bsOf(e.state(), e.vc, x.t))
		}
		e.fail("comparing %s with %s", x.ty, y.ty)
	}
	return Eq(x.t, y.t)
}

func (e *Env) tryIdent(n string) (SV, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if e.look != nil {
		if v, ok := e.look(n, e.st, e.inOld); ok {
			return v, true
		}
	}
	if g, ok := e.vc.C.spec.ghosts[n]; ok {
		ty := e.vc.C.resolveType(g.ty, g.pkg)
		return SV{e.heapOf("g."+n, ty.sort()), ty}, true
	}
	if d, ok := e.vc.C.spec.fns[n]; ok && len(d.params) == 0 {
		return e.callFn(d, nil), true
	}
	return SV{}, false
}

func (e *Env) ident(n string) SV {
	if v, ok := e.tryIdent(n); ok {
		return v
	}
	if n == "alloc" {
		return SV{e.state().alloc(), tyInt}
	}
	if g, ok := e.global(e.pkg, n); ok {
		return g
	}
	e.fail("unknown name %s", n)
	return SV{}
}

func (e *Env) global(pkg, n string) (SV, bool) {
	tp, ok := e.vc.C.prog.types[pkg]
	if !ok {
		return SV{}, false
	}
	switch o := tp.Scope().Lookup(n).(type) {
	case *types.Var:
		ty := goTy(o.Type())
		if e.vc != nil && e.vc.spec != nil && e.vc.spec.model == "init" && e.st != nil {
			return SV{e.st.getHeap(e.vc, globalName(o.Pkg().Path(), o.Name()), sortOf(o.Type())), ty}, true
		}
		return SV{globalTerm(o.Pkg().Path(), o.Name(), o.Type()), ty}, true
	case *types.Const:
		t := constTerm(o.Val(), o.Type())
		return SV{t, goTy(o.Type())}, true
	}
	return SV{}, false
}

func (e *Env) call(x *Ex) SV {
	arg := func(i int) SV { return e.eval(x.args[i]) }
	need := func(n int) {
		if len(x.args) != n {
			e.fail("%s takes %d arguments", x.name, n)
		}
	}
	if v, ok := e.vars[x.name]; ok && v.ty.kind == "map" { // map variable application
		return SV{Select(v.t, arg(0).t), v.ty.elem}
	}
	switch x.name {
	case "len":
		need(1)
		v := arg(0)
		switch {
		case v.t.sort == SBs:
			return SV{blen(v.t), tyInt}
		case v.t.sort == SSlice:
			return SV{SlLen(v.t), tyInt}
		}
		if v.ty.kind == "go" {
			if a, ok := v.ty.gt.Underlying().(*types.Array); ok {
				return SV{Int(a.Len()), tyInt}
			}
		}
		e.fail("len of %s", v.ty)
	case "cap":
		return SV{SlCap(arg(0).t), tyInt}
	case "elems":
		return e.elems(arg(0))
	case "arr":
		return SV{SlArr(arg(0).t), tyInt}
	case "sloff":
		return SV{SlOff(arg(0).t), tyInt}
	case "bs":
		v := arg(0)
		if v.t.sort == SBs {
			return v
		}
		return SV{bsOf(e.state(), e.vc, v.t), tyBs}
	case "mkbs":
		need(3)
		return SV{mkbs(arg(0).t, arg(1).t, arg(2).t), tyBs}
	case "bsarr":
		return SV{bsarr(arg(0).t), &STy{kind: "map", key: tyInt, elem: tyInt}}
	case "fresh":
		v := arg(0)
		t := v.t
		if t.sort == SSlice {
			t = SlArr(t)
			// a nil (empty, capacity-less) slice is fresh too
			return SV{Or(Ge(t, e.old.alloc()), Eq(SlCap(v.t), Int(0))), tyBool}
		}
		return SV{Ge(t, e.old.alloc()), tyBool}
	case "alive":
		v := arg(0)
		t := v.t
		if t.sort == SSlice {
			// a slice that exists is a proper one
			return SV{And(Lt(SlArr(t), e.state().alloc()), sliceOK(t)), tyBool}
		}
		return SV{Lt(t, e.state().alloc()), tyBool}
	case "min", "max":
		a, b := arg(0).t, arg(1).t
		c := Le(a, b)
		if x.name == "max" {
			c = Ge(a, b)
		}
		return SV{Ite(c, a, b), tyInt}
	case "unchanged":
		o := *e
		o.st = e.old
		o.inOld = true
		return SV{Eq(arg(0).t, o.eval(x.args[0]).t), tyBool}
	case "H": // whole heap of a struct type
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		return SV{e.heapOf(heapName(ty.goType()), heapSort(ty.goType())), &STy{kind: "map", key: tyInt, elem: ty}}
	case "S": // whole backing store of an element type
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		return SV{e.heapOf(backName(ty.goType()), backSort(ty.goType())), &STy{kind: "map", key: tyInt, elem: &STy{kind: "map", key: tyInt, elem: ty}}}
	case "boxed": // boxed(T, v): interface value holding v of type T
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		xt := arg(1).t
		b := boxTerm(ty.goType(), xt)
		if e.st != nil && !b.bound {
			e.st.assume(Neq(b, Int(0)))
			e.st.assume(Eq(App("dyntag", SInt, b), typeTag(ty.goType())))
			if xt.sort == sortOf(ty.goType()) {
				e.st.assume(Eq(unboxTerm(ty.goType(), b), xt))
			}
		}
		return SV{b, tyInt}
	case "dyntype": // dyntype(x): type tag of an interface value
		return SV{App("dyntag", SInt, arg(0).t), tyInt}
	case "now": // the current value of a variable of the code, not the parameter's value at entry
		if e.look == nil || x.args[0].op != "id" {
			e.fail("now(variable) not available here")
		}
		if v, ok := e.look(x.args[0].name, e.st, false); ok {
			return v
		}
		e.fail("now: unknown variable %s", x.args[0].name)
	case "typetag":
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		return SV{typeTag(ty.goType()), tyInt}
	case "unbox":
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		return SV{unboxTerm(ty.goType(), arg(1).t), ty}
	case "mapdom":
		v := arg(0)
		mt := v.ty.gt.Underlying().(*types.Map)
		d, _ := mapHeaps(mt)
		D := e.heapOf(d, ArrSort(SInt, ArrSort(sortOf(mt.Key()), SBool)))
		return SV{Select(D, v.t), &STy{kind: "map", key: goTy(mt.Key()), elem: tyBool}}
	case "mapval":
		v := arg(0)
		mt := v.ty.gt.Underlying().(*types.Map)
		_, vn := mapHeaps(mt)
		V := e.heapOf(vn, ArrSort(SInt, ArrSort(sortOf(mt.Key()), sortOf(mt.Elem()))))
		return SV{Select(V, v.t), &STy{kind: "map", key: goTy(mt.Key()), elem: goTy(mt.Elem())}}
	case "flt32":
		return SV{floatLt(32, arg(0).t, arg(1).t), tyBool}
	case "flt64":
		return SV{floatLt(64, arg(0).t, arg(1).t), tyBool}
	case "isnan32":
		return SV{isNaN(32, arg(0).t), tyBool}
	case "isnan64":
		return SV{isNaN(64, arg(0).t), tyBool}
	case "ford32":
		return SV{floatOrd(32, arg(0).t), tyInt}
	case "ford64":
		return SV{floatOrd(64, arg(0).t), tyInt}
	case "bcmp":
		return SV{App("bcmp", SInt, arg(0).t, arg(1).t), tyInt}
	case "wrap":
		ty := e.vc.C.resolveType(exToType(x.args[0]), e.pkg)
		return SV{wrapInt(ty.goType(), arg(1).t), tyInt}
	case "copyin": // copyin(dst, dpos, src, spos, n): dst with n elements copied in
		need(5)
		v := arg(0)
		return SV{acopy(v.t, arg(1).t, arg(2).t, arg(3).t, arg(4).t), v.ty}
	case "uvl":
		return SV{App("uvlen", SInt, arg(0).t), tyInt}
	case "uvat":
		return SV{App("uvAt", SBool, arg(0).t, arg(1).t, arg(2).t), tyBool}
	case "uvn", "uvval":
		v := arg(0)
		if v.t.sort == SSlice {
			v.t = bsOf(e.state(), e.vc, v.t)
		}
		return SV{App(x.name, SInt, v.t), tyInt}
	case "errIs":
		return SV{App("errIs", SBool, arg(0).t, arg(1).t), tyBool}
	case "i2f64": // float64(x) of an integer, as a bit pattern
		r := App("int2float64", SInt, arg(0).t)
		return SV{r, tyInt}
	case "byteN":
		return SV{byteOfT(arg(0).t, arg(1).t), tyInt}
	case "le8", "le4", "le2": // le8(map, index): little-endian integer at a position
		need(2)
		m, i := arg(0).t, arg(1).t
		var bs []*Term
		for k := int64(0); k < int64(x.name[2]-'0'); k++ {
			bs = append(bs, Select(m, Add(i, Int(k))))
		}
		return SV{App(x.name, SInt, bs...), tyInt}
	case "be8", "be4", "be2":
		need(2)
		m, i := arg(0).t, arg(1).t
		var bs []*Term
		n := int64(x.name[2] - '0')
		for k := n - 1; k >= 0; k-- {
			bs = append(bs, Select(m, Add(i, Int(k))))
		}
		return SV{App("le"+x.name[2:], SInt, bs...), tyInt}
	case "constmap": // constmap(v): map [int]T constantly v
		v := arg(0)
		return SV{ConstArr(ArrSort(SInt, v.t.sort), v.t), &STy{kind: "map", key: tyInt, elem: v.ty}}
	}
	if d, ok := e.vc.C.spec.structs[x.name]; ok {
		e.vc.C.declStruct(d)
		var args []*Term
		for i := range x.args {
			args = append(args, arg(i).t)
		}
		return SV{Ctor("D."+d.name, args...), &STy{kind: "sort", name: "D." + d.name}}
	}
	if d, ok := e.vc.C.spec.fns[x.name]; ok {
		var args []SV
		for i := range x.args {
			args = append(args, arg(i))
		}
		return e.callFn(d, args)
	}
	if _, ok := e.vc.C.spec.lemmas[x.name]; ok {
		e.fail("lemma %s used as expression", x.name)
	}
	// conversion to a Go type by name: T(x), and struct construction T(f1, f2, ...)
	if ty, ok := e.tryType(x.name); ok {
		if st, isStruct := ty.goType().Underlying().(*types.Struct); isStruct && len(x.args) == st.NumFields() {
			var args []*Term
			for i := range x.args {
				a := arg(i).t
				if isBsField(ty.goType(), i) && a.sort == SSlice {
					a = bsOf(e.state(), e.vc, a)
				}
				args = append(args, a)
			}
			s := structSort(ty.goType(), st)
			return SV{Ctor(string(s), args...), ty}
		}
		need(1)
		v := arg(0)
		if isInteger(ty.goType()) {
			return SV{v.t, ty}
		}
	}
	e.fail("unknown function %s", x.name)
	return SV{}
}

func (e *Env) tryType(n string) (ty *STy, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return e.vc.C.resolveType(&TyEx{kind: "name", name: n}, e.pkg), true
}

func exToType(x *Ex) *TyEx {
	switch x.op {
	case "id":
		return &TyEx{kind: "name", name: x.name}
	case "field":
		return &TyEx{kind: "name", name: x.args[0].name + "." + x.name}
	case "deref":
		return &TyEx{kind: "ptr", elem: exToType(x.args[0])}
	}
	panic(specErr{"type expected"})
}

func (e *Env) callFn(d *FnDef, args []SV) SV {
	if len(args) != len(d.params) {
		e.fail("%s takes %d arguments, got %d", d.name, len(d.params), len(args))
	}
	C := e.vc.C
	res := C.resolveType(d.res, d.pkg)
	for i, b := range d.params {
		ty := C.resolveType(b.ty, d.pkg)
		if ty.sort() == SBs && args[i].t.sort == SSlice {
			args[i].t = bsOf(e.state(), e.vc, args[i].t)
		}
		if ty.sort() != args[i].t.sort {
			e.fail("%s: argument %s has type %s, want %s", d.name, b.name, args[i].ty, ty)
		}
		args[i].ty = ty
	}
	if d.body != nil && !d.rec && !d.opaque {
		ne := *e
		ne.vars = map[string]SV{}
		ne.look = nil
		ne.pkg = d.pkg
		ne.where = e.where + "/" + d.name
		for i, b := range d.params {
			ne.vars[b.name] = args[i]
		}
		r := ne.eval(d.body)
		r.ty = res
		if r.t.sort != res.sort() {
			e.fail("%s: body has sort %s, declared %s", d.name, r.t.sort, res)
		}
		return r
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.t)
	}
	C.declFn(d)
	return SV{App("f."+d.name, res.sort(), ts...), res}
}

func (C *Ctx) declFn(d *FnDef) {
	n := "f." + d.name
	if _, ok := funDecls[n]; ok {
		return
	}
	var as []Sort
	for _, b := range d.params {
		as = append(as, C.resolveType(b.ty, d.pkg).sort())
	}
	res := C.resolveType(d.res, d.pkg).sort()
	DeclFun(n, as, res)
	if d.rec {
		DeclFun(n+".0", as, res)
	}
	if d.body == nil {
		return
	}
	// defining axiom
	e := &Env{vc: &VC{C: C}, vars: map[string]SV{}, pkg: d.pkg, where: "fn " + d.name}
	var bvs []*Term
	var ts []*Term
	for _, b := range d.params {
		ty := C.resolveType(b.ty, d.pkg)
		v := BVar(b.name, ty.sort())
		bvs = append(bvs, v)
		ts = append(ts, v)
		e.vars[b.name] = SV{v, ty}
	}
	var ax *Term
	lhs := App(n, res, ts...)
	if d.rec {
		C.recLevel = d.name
		body := e.eval(d.body).t
		body = replaceFn(body, n, n+".0")
		lhs0 := App(n+".0", res, ts...)
		ax = Forall(bvs, [][]*Term{{lhs}}, And(Eq(lhs, body), Eq(lhs, lhs0)))
	} else {
		body := e.eval(d.body).t
		ax = Forall(bvs, [][]*Term{{lhs}}, Eq(lhs, body))
	}
	C.fnAxioms[n] = ax
}

// replaceFn renames applications of function f to g.
func replaceFn(t *Term, f, g string) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if t.op == "app" && t.name == f {
			r = mk("app", g, t.sort, args...)
		} else if ch {
			if t.op == "forall" || t.op == "exists" {
				r = quant(t.op, t.bvs, t.pats, args[0])
			} else {
				r = mk(t.op, t.name, t.sort, args...)
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

var strLits = map[string]*Term{}
var strLitVal = map[string]string{}

func strLit(s string) *Term {
	if s == "" {
		return Const("bs.empty", SBs)
	}
	if t, ok := strLits[s]; ok {
		return t
	}
	t := Const(fmt.Sprintf("str.%x", s), SBs)
	strLits[s] = t
	strLitVal[t.name] = s
	return t
}

func bsarr(b *Term) *Term {
	return App("bsarr", ArrSort(SInt, SInt), b)
}

// ---------- floats as bit patterns ----------

func floatOrd(bits uint, x *Term) *Term {
	half := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return Ite(Lt(x, BigInt(half)), x, Sub(BigInt(half), x))
}
func isNaN(bits uint, x *Term) *Term {
	half := new(big.Int).Lsh(big.NewInt(1), bits-1)
	var inf *big.Int
	if bits == 32 {
		inf = big.NewInt(0x7f800000)
	} else {
		inf = new(big.Int).SetUint64(0x7ff0000000000000)
	}
	mag := Ite(Lt(x, BigInt(half)), x, Sub(x, BigInt(half)))
	return Gt(mag, BigInt(inf))
}
func floatLt(bits uint, a, b *Term) *Term {
	return And(Not(isNaN(bits, a)), Not(isNaN(bits, b)), Lt(floatOrd(bits, a), floatOrd(bits, b)))
}
func floatEq(bits uint, a, b *Term) *Term {
	return And(Not(isNaN(bits, a)), Not(isNaN(bits, b)), Eq(floatOrd(bits, a), floatOrd(bits, b)))
}

// altDup: quantifiers that repeat their neighbour with another trigger.
var altDup = map[int]bool{}

// arithPat reports whether the patterns have arithmetic over bound variables.
func arithPat(ts []*Term) bool {
	for _, t := range ts {
		if t.bound {
			if t.op == "+" || t.op == "-" || t.op == "*" || arithPat(t.args) {
				return true
			}
		}
	}
	return false
}

// absIndex finds, for bound variables used as offset + variable in array reads
// of a pattern, the offset.
func absIndex(ts, bvs []*Term) map[*Term]*Term {
	if !arithPat(ts) {
		return nil
	}
	isB := map[*Term]bool{}
	for _, b := range bvs {
		isB[b] = true
	}
	sub := map[*Term]*Term{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound {
			return
		}
		if t.op == "select" && t.args[1].op == "+" {
			for _, a := range t.args[1].args {
				if isB[a] && sub[a] == nil {
					rest := Sub(t.args[1], a)
					if !rest.bound {
						sub[a] = rest
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if len(sub) == 0 {
		return nil
	}
	return sub
}

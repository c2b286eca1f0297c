package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- background theory ----------

type axiomDef struct {
	name    string
	trigger []string // included when any of these symbols occurs
	text    string   // SMT-LIB, for theory axioms
	needs   []string // symbols it mentions (declared too)
	term    *Term
}

const theoryBs = `
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (blen (mkbs a o n)) n)) :pattern ((mkbs a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (bat (mkbs a o n) i) (select a (+ o i)))) :pattern ((bat (mkbs a o n) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (p Int) (m Int)) (! (=> (and (<= 0 p) (<= 0 m) (<= (+ p m) n)) (= (mkbs (bsarr (mkbs a o n)) p m) (mkbs a (+ o p) m))) :pattern ((mkbs (bsarr (mkbs a o n)) p m)))))
(assert (forall ((b Bs)) (! (>= (blen b) 0) :pattern ((blen b)))))
(assert (forall ((b Bs) (i Int)) (! (= (select (bsarr b) i) (bat b i)) :pattern ((select (bsarr b) i)))))
(assert (forall ((x Bs) (y Bs)) (! (= (bseq x y) (= x y)) :pattern ((bseq x y)))))
(assert (forall ((x Bs) (y Bs)) (! (or (not (= (blen x) (blen y))) (= x y) (and (<= 0 (bsdiff x y)) (< (bsdiff x y) (blen x)) (not (= (bat x (bsdiff x y)) (bat y (bsdiff x y)))))) :pattern ((bseq x y)))))
(assert (= (blen bs.empty) 0))
(assert (forall ((b Bs)) (! (=> (= (blen b) 0) (= b bs.empty)) :pattern ((blen b)))))
`

var theoryBsDecl = []string{"(declare-fun mkbs ((Array Int Int) Int Int) Bs)", "(declare-fun blen (Bs) Int)", "(declare-fun bat (Bs Int) Int)",
	"(declare-fun bsarr (Bs) (Array Int Int))", "(declare-fun bseq (Bs Bs) Bool)", "(declare-fun bsdiff (Bs Bs) Int)", "(declare-const bs.empty Bs)"}
var theoryBsSyms = map[string]bool{"mkbs": true, "blen": true, "bat": true, "bsarr": true, "bseq": true, "bsdiff": true, "bs.empty": true}

var theory = []axiomDef{
	{name: "bcmp", trigger: []string{"bcmp"}, text: `
(assert (forall ((x Bs) (y Bs)) (! (and (<= (- 1) (bcmp x y)) (<= (bcmp x y) 1) (= (= (bcmp x y) 0) (= x y)) (= (bcmp y x) (- (bcmp x y)))) :pattern ((bcmp x y)))))
(assert (forall ((x Bs) (y Bs) (z Bs)) (! (=> (and (<= (bcmp x y) 0) (<= (bcmp y z) 0)) (and (<= (bcmp x z) 0) (=> (= (bcmp x z) 0) (and (= (bcmp x y) 0) (= (bcmp y z) 0))))) :pattern ((bcmp x y) (bcmp y z)))))
(assert (forall ((x Bs) (y Bs)) (! (let ((l (blcp x y))) (and (<= 0 l) (<= l (blen x)) (<= l (blen y))
   (=> (and (< l (blen x)) (< l (blen y))) (and (not (= (bat x l) (bat y l))) (= (bcmp x y) (ite (< (bat x l) (bat y l)) (- 1) 1))))
   (=> (= l (blen x)) (= (bcmp x y) (ite (= l (blen y)) 0 (- 1))))
   (=> (and (= l (blen y)) (< l (blen x))) (= (bcmp x y) 1)))) :pattern ((bcmp x y)))))
(assert (forall ((x Bs) (y Bs) (i Int)) (! (=> (and (<= 0 i) (< i (blcp x y))) (= (bat x i) (bat y i))) :pattern ((blcp x y) (bat x i)) :pattern ((blcp x y) (bat y i)))))
`, needs: []string{"bcmp", "blcp"}},
	{name: "bcat", trigger: []string{"bcat"}, text: `
(assert (forall ((x Bs) (y Bs)) (! (= (blen (bcat x y)) (+ (blen x) (blen y))) :pattern ((bcat x y)))))
(assert (forall ((x Bs) (y Bs) (i Int)) (! (=> (and (<= 0 i) (< i (+ (blen x) (blen y)))) (= (bat (bcat x y) i) (ite (< i (blen x)) (bat x i) (bat y (- i (blen x)))))) :pattern ((bat (bcat x y) i)))))
`, needs: []string{"bcat"}},
	{name: "byteN", trigger: []string{"byteN"}, text: `
(assert (forall ((v Int) (k Int)) (! (and (<= 0 (byteN v k)) (<= (byteN v k) 255)) :pattern ((byteN v k)))))
`, needs: []string{"byteN"}},
	{name: "le2", trigger: []string{"le2"}, text: `
(assert (= (le2 0 0) 0))
(assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 65536)) (= (le2 (byteN v 0) (byteN v 1)) v)) :pattern ((le2 (byteN v 0) (byteN v 1))))))
(assert (forall ((a Int) (b Int)) (! (and (<= 0 (le2 a b)) (< (le2 a b) 65536)) :pattern ((le2 a b)))))
`, needs: []string{"le2", "byteN"}},
	{name: "le4", trigger: []string{"le4"}, text: `
(assert (= (le4 0 0 0 0) 0))
(assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 4294967296)) (= (le4 (byteN v 0) (byteN v 1) (byteN v 2) (byteN v 3)) v)) :pattern ((le4 (byteN v 0) (byteN v 1) (byteN v 2) (byteN v 3))))))
`, needs: []string{"le4", "byteN"}},
	{name: "le8", trigger: []string{"le8"}, text: `
(assert (= (le8 0 0 0 0 0 0 0 0) 0))
(assert (= (le8 255 255 255 255 255 255 255 255) 18446744073709551615))
(assert (forall ((v Int)) (! (=> (and (<= 0 v) (< v 18446744073709551616)) (= (le8 (byteN v 0) (byteN v 1) (byteN v 2) (byteN v 3) (byteN v 4) (byteN v 5) (byteN v 6) (byteN v 7)) v)) :pattern ((le8 (byteN v 0) (byteN v 1) (byteN v 2) (byteN v 3) (byteN v 4) (byteN v 5) (byteN v 6) (byteN v 7))))))
`, needs: []string{"le8", "byteN"}},
	{name: "uvlen", trigger: []string{"uvlen"}, text: uvlenAxiom(), needs: []string{"uvlen"}},
	{name: "uvAt", trigger: []string{"uvAt"}, text: `
(assert (forall ((a (Array Int Int)) (o Int) (x Int)) (! (or (uvAt a o x) (and (<= 0 (uvdiff a o x)) (< (uvdiff a o x) (uvlen x)) (not (= (select a (+ o (uvdiff a o x))) (select (uvbytes x) (uvdiff a o x)))))) :pattern ((uvAt a o x)))))
(assert (forall ((a (Array Int Int)) (o Int) (x Int) (b (Array Int Int)) (p Int)) (! (=> (and (uvAt a o x) (not (uvAt b p x))) (not (= (select a (+ o (uvdiff b p x))) (select b (+ p (uvdiff b p x)))))) :pattern ((uvAt a o x) (uvAt b p x)))))
`, needs: []string{"uvAt", "uvlen", "uvbytes", "uvdiff"}},
	{name: "uvn", trigger: []string{"uvn", "uvval"}, text: `
(assert (forall ((b Bs)) (! (and (<= (- 10) (uvn b)) (<= (uvn b) 10) (<= (uvn b) (blen b))) :pattern ((uvn b)))))
(assert (forall ((b Bs)) (! (and (<= 0 (uvval b)) (< (uvval b) 18446744073709551616)) :pattern ((uvval b)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (x Int)) (! (=> (and (uvAt a o x) (<= 0 x) (< x 18446744073709551616) (<= (uvlen x) n)) (and (= (uvval (mkbs a o n)) x) (= (uvn (mkbs a o n)) (uvlen x)))) :pattern ((uvAt a o x) (mkbs a o n)))))
`, needs: []string{"uvn", "uvval", "uvAt", "uvlen", "uvbytes", "uvdiff"}},
	{name: "dyn", trigger: []string{"dyntag"}, text: "", needs: nil},
	{name: "errIs", trigger: []string{"errIs"}, text: `
(assert (forall ((e Int)) (! (=> (not (= e 0)) (errIs e e)) :pattern ((errIs e e)))))
`, needs: []string{"errIs"}},
}

func uvlenAxiom() string {
	// length of the varint encoding: 7 bits per byte
	s := "(ite (< x 128) 1 "
	b := "128"
	_ = b
	for i := 2; i <= 9; i++ {
		s += fmt.Sprintf("(ite (< x %s) %d ", newBig(7*i).String(), i)
	}
	s += "10" + strings.Repeat(")", 9)
	return "\n(assert (forall ((x Int)) (! (= (uvlen x) " + s + ") :pattern ((uvlen x)))))\n"
}

func init() {
	A := ArrSort(SInt, SInt)
	DeclFun("bcmp", []Sort{SBs, SBs}, SInt)
	DeclFun("blcp", []Sort{SBs, SBs}, SInt)
	DeclFun("bcat", []Sort{SBs, SBs}, SBs)
	DeclFun("byteN", []Sort{SInt, SInt}, SInt)
	DeclFun("le2", []Sort{SInt, SInt}, SInt)
	DeclFun("le4", []Sort{SInt, SInt, SInt, SInt}, SInt)
	DeclFun("le8", []Sort{SInt, SInt, SInt, SInt, SInt, SInt, SInt, SInt}, SInt)
	DeclFun("uvlen", []Sort{SInt}, SInt)
	DeclFun("uvbytes", []Sort{SInt}, A)
	DeclFun("uvAt", []Sort{A, SInt, SInt}, SBool)
	DeclFun("uvdiff", []Sort{A, SInt, SInt}, SInt)
	DeclFun("uvn", []Sort{SBs}, SInt)
	DeclFun("uvval", []Sort{SBs}, SInt)
	DeclFun("errIs", []Sort{SInt, SInt}, SBool)
	DeclFun("mkbs", []Sort{A, SInt, SInt}, SBs)
	DeclFun("blen", []Sort{SBs}, SInt)
	DeclFun("bat", []Sort{SBs, SInt}, SInt)
	DeclFun("bsarr", []Sort{SBs}, A)
	DeclFun("bseq", []Sort{SBs, SBs}, SBool)
	DeclFun("bsdiff", []Sort{SBs, SBs}, SInt)
	DeclFun("dyntag", []Sort{SInt}, SInt)
}

// bseqify makes equalities of byte strings trigger extensionality.
var bsqMemo = map[int]*Term{}

func hasBs(s Sort) bool {
	if s == SBs {
		return true
	}
	if d, ok := datatypes[string(s)]; ok {
		for _, f := range d.sorts {
			if hasBs(f) {
				return true
			}
		}
	}
	return false
}

func bsEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort == SBs {
		return App("bseq", SBool, a, b)
	}
	if hasBs(a.sort) {
		d := datatypes[string(a.sort)]
		var c []*Term
		for i := range d.fields {
			x, y := Sel(a, i), Sel(b, i)
			if hasBs(x.sort) {
				c = append(c, bsEq(x, y))
			} else {
				c = append(c, Eq(x, y))
			}
		}
		return And(c...)
	}
	return Eq(a, b)
}

func bseqify(t *Term) *Term {
	if r, ok := bsqMemo[t.id]; ok {
		return r
	}
	r := t
	switch {
	case t.sort != SBool && t.op != "ite" && len(t.args) > 0 && false:
	case t.op == "=" && hasBs(t.args[0].sort):
		r = bsEq(bseqify(t.args[0]), bseqify(t.args[1]))
	case t.op == "forall" || t.op == "exists":
		b := bseqify(t.args[0])
		if b != t.args[0] {
			r = quant(t.op, t.bvs, t.pats, b)
		}
	case len(t.args) > 0:
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = bseqify(a)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			r = mk(t.op, t.name, t.sort, as...)
		}
	}
	bsqMemo[t.id] = r
	return r
}

// ---------- query construction ----------

type lemmaAx struct {
	l    *Lemma
	t    *Term
	syms map[string]bool
}

func symsOf(t *Term, out map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "app" || t.op == "const" {
		out[t.name] = true
	}
	for _, a := range t.args {
		symsOf(a, out, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			symsOf(x, out, seen)
		}
	}
}

// axTerms: user axioms and automatic lemmas as terms (built once).
func (C *Ctx) prepareAxioms() {
	if C.axReady {
		return
	}
	C.axReady = true
	for _, a := range C.spec.axioms {
		e := &Env{vc: &VC{C: C}, vars: map[string]SV{}, pkg: a.pkg, where: "axiom " + a.name}
		t := e.bool(a.e)
		la := &lemmaAx{nil, t, map[string]bool{}}
		symsOf(t, la.syms, map[int]bool{})
		C.axs = append(C.axs, la)
	}
	for _, n := range C.spec.lemOrd {
		l := C.spec.lemmas[n]
		if !l.auto {
			continue
		}
		e := &Env{vc: &VC{C: C}, vars: map[string]SV{}, pkg: l.pkg, where: "lemma " + l.name}
		var bvs []*Term
		for _, p := range l.params {
			ty := C.resolveType(p.ty, l.pkg)
			b := BVar(p.name, ty.sort())
			bvs = append(bvs, b)
			e.vars[p.name] = SV{b, ty}
		}
		for _, d := range l.lets {
			e.vars[d.name] = e.eval(d.e)
		}
		var rq, es []*Term
		for _, c := range l.requires {
			rq = append(rq, e.bool(c.e))
		}
		for _, c := range l.ensures {
			es = append(es, e.bool(c.e))
		}
		var pats [][]*Term
		for _, p := range l.pats {
			var ts []*Term
			for _, x := range p {
				ts = append(ts, e.eval(x).t)
			}
			pats = append(pats, ts)
		}
		t := Forall(bvs, pats, Implies(And(rq...), And(es...)))
		la := &lemmaAx{l, t, map[string]bool{}}
		pt := map[string]bool{}
		for _, p := range pats {
			for _, x := range p {
				symsOf(x, pt, map[int]bool{})
			}
		}
		if len(pt) == 0 {
			symsOf(t, pt, map[int]bool{})
		}
		la.syms = pt
		C.axs = append(C.axs, la)
	}
}

func (C *Ctx) lemmaIndex(name string) int {
	for i, n := range C.spec.lemOrd {
		if n == name {
			return i
		}
	}
	return 1 << 30
}

// query renders an obligation as an SMT-LIB script without options and check-sat.
func (C *Ctx) query(o *Obl) string {
	var asserts []*Term
	for _, p := range o.pcs {
		asserts = append(asserts, bseqify(p))
	}
	if !o.cover {
		asserts = append(asserts, Not(bseqify(o.goal)))
	}
	limit := 1 << 30
	noauto := false
	if strings.HasPrefix(o.fn, "lemma ") {
		limit = C.lemmaIndex(o.fn[6:])
		noauto = C.spec.lemmas[o.fn[6:]].noauto
	}
	syms := map[string]bool{}
	seen := map[int]bool{}
	for _, a := range asserts {
		symsOf(a, syms, seen)
	}
	// fixpoint over axioms
	var axioms []*Term
	incl := map[string]bool{}
	inclAx := map[*lemmaAx]bool{}
	var texts []string
	for changed := true; changed; {
		changed = false
		var fn []string
		for n := range C.fnAxioms {
			fn = append(fn, n)
		}
		sort.Strings(fn)
		for _, n := range fn {
			if d := C.spec.fns[n[2:]]; d != nil && d.hidden && o.fn != "lemma "+d.name+"_def" {
				continue // only its _def lemma opens a hidden function
			}
			if syms[n] && !incl["fn:"+n] {
				incl["fn:"+n] = true
				axioms = append(axioms, C.fnAxioms[n])
				symsOf(C.fnAxioms[n], syms, seen)
				changed = true
			}
		}
		for _, a := range C.axs {
			if inclAx[a] {
				continue
			}
			if a.l != nil && (noauto || C.lemmaIndex(a.l.name) >= limit) {
				continue
			}
			hit := false
			all := true
			for s := range a.syms {
				if theoryBsSyms[s] || strings.HasPrefix(s, "str.") {
					continue
				}
				if syms[s] {
					hit = true
				} else {
					all = false
				}
			}
			if hit && (a.l == nil || all) {
				inclAx[a] = true
				axioms = append(axioms, a.t)
				symsOf(a.t, syms, seen)
				changed = true
			}
		}
		for _, th := range theory {
			if incl["th:"+th.name] {
				continue
			}
			for _, s := range th.trigger {
				if syms[s] {
					incl["th:"+th.name] = true
					texts = append(texts, th.text)
					for _, n := range th.needs {
						syms[n] = true
					}
					changed = true
					break
				}
			}
		}
	}
	all := append(append([]*Term{}, axioms...), asserts...)
	counts := map[int]int{}
	tseen := map[int]*Term{}
	var order []*Term
	for _, a := range all {
		collect(a, tseen, counts, &order)
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Bs 0)\n")
	for s := range C.spec.sorts {
		_ = s
	}
	var ss []string
	for s := range C.spec.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		sb.WriteString("(declare-sort " + s + " 0)\n")
	}
	// datatypes
	needDT := map[string]bool{}
	var needSort func(s Sort)
	needSort = func(s Sort) {
		if strings.HasPrefix(string(s), "(Array ") {
			k, v := splitArr(s)
			needSort(k)
			needSort(v)
			return
		}
		if d, ok := datatypes[string(s)]; ok && !needDT[string(s)] {
			needDT[string(s)] = true
			for _, f := range d.sorts {
				needSort(f)
			}
		}
	}
	for _, t := range order {
		needSort(t.sort)
		for _, b := range t.bvs {
			needSort(b.sort)
		}
	}
	var fns []string
	consts := map[string]*Term{}
	for _, t := range order {
		if t.op == "const" && t != True && t != False {
			consts[t.name] = t
		}
	}
	for s := range syms {
		if f, ok := funDecls[s]; ok && !theoryBsSyms[s] {
			fns = append(fns, s)
			for _, a := range f.args {
				needSort(a)
			}
			needSort(f.res)
		}
	}
	sort.Strings(fns)
	for _, n := range dtOrder {
		if !needDT[n] {
			continue
		}
		d := datatypes[n]
		sb.WriteString("(declare-datatypes ((" + q(n) + " 0)) (((" + q("mk."+n))
		for i, f := range d.fields {
			sb.WriteString(" (" + q(n+"."+f) + " " + sortStr(d.sorts[i]) + ")")
		}
		sb.WriteString("))))\n")
	}
	for _, s := range theoryBsDecl {
		sb.WriteString(s + "\n")
	}
	for _, s := range fns {
		f := funDecls[s]
		sb.WriteString("(declare-fun " + q(s) + " (")
		for i, a := range f.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(sortStr(a))
		}
		sb.WriteString(") " + sortStr(f.res) + ")\n")
	}
	var cn []string
	for n := range consts {
		if !theoryBsSyms[n] {
			cn = append(cn, n)
		}
	}
	sort.Strings(cn)
	for _, n := range cn {
		sb.WriteString("(declare-const " + q(n) + " " + sortStr(consts[n].sort) + ")\n")
	}
	sb.WriteString(theoryBs)
	sort.Strings(texts)
	for _, t := range texts {
		sb.WriteString(t)
	}
	// copies
	for _, s := range fns {
		if strings.HasPrefix(s, "acopy.") {
			A := sortStr(funDecls[s].res)
			n := q(s)
			fmt.Fprintf(&sb, "(assert (forall ((d %s) (p Int) (s %s) (o Int) (n Int) (i Int)) (! (= (select (%s d p s o n) i) (ite (and (<= p i) (< i (+ p n))) (select s (+ o (- i p))) (select d i))) :pattern ((select (%s d p s o n) i)))))\n", A, A, n, n)
		}
	}
	// literals
	var tags []string
	for _, n := range cn {
		if strings.HasPrefix(n, "str.") {
			v := strLitVal[n]
			fmt.Fprintf(&sb, "(assert (= (blen %s) %d))\n", q(n), len(v))
			for i := 0; i < len(v) && i < 64; i++ {
				fmt.Fprintf(&sb, "(assert (= (bat %s %d) %d))\n", q(n), i, v[i])
			}
		}
		if strings.HasPrefix(n, "tag.") {
			tags = append(tags, q(n))
		}
	}
	if len(tags) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(tags, " ") + "))\n")
	}
	var nz []string
	for _, n := range C.spec.nonzero {
		g := "G." + n + "@0"
		if _, ok := consts[g]; ok {
			nz = append(nz, q(g))
		}
	}
	for _, g := range nz {
		sb.WriteString("(assert (> " + g + " 0))\n")
		if _, ok := consts["$alloc@0"]; ok {
			sb.WriteString("(assert (< " + g + " $alloc@0))\n")
		}
	}
	if len(nz) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(nz, " ") + "))\n")
	}
	// shared subterms; those inside patterns that contain boolean structure get a constant
	asConst := map[int]bool{}
	for _, t := range order {
		for _, p := range t.pats {
			for _, x := range p {
				markPat(x, asConst)
			}
		}
	}
	named := map[int]string{}
	for _, t := range order {
		if t.op == "constarr" && !t.bound && t.args[0].op != "int" {
			nm := fmt.Sprintf("$ca%d", t.id)
			sb.WriteString("(define-fun " + nm + " () " + sortStr(t.sort) + " ((as const " + sortStr(t.sort) + ") ")
			writeTerm(&sb, t.args[0], named)
			sb.WriteString("))\n")
			named[t.id] = nm
			continue
		}
		if asConst[t.id] {
			nm := fmt.Sprintf("$t%d", t.id)
			sb.WriteString("(declare-const " + nm + " " + sortStr(t.sort) + ")\n(assert (= " + nm + " ")
			writeTermBody(&sb, t, named)
			sb.WriteString("))\n")
			named[t.id] = nm
			continue
		}
		if counts[t.id] > 1 && !t.bound && len(t.args) > 0 && t.op != "forall" && t.op != "exists" && t.size > 2 {
			nm := fmt.Sprintf("$t%d", t.id)
			sb.WriteString("(define-fun " + nm + " () " + sortStr(t.sort) + " ")
			writeTermBody(&sb, t, named)
			sb.WriteString(")\n")
			named[t.id] = nm
		}
	}
	for _, a := range axioms {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, named)
		sb.WriteString(")\n")
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, named)
		sb.WriteString(")\n")
	}
	return canonical(sb.String())
}

var hasIteMemo = map[int]bool{}

func hasIte(t *Term) bool {
	if r, ok := hasIteMemo[t.id]; ok {
		return r
	}
	r := false
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		r = true
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = hasIte(a)
	}
	hasIteMemo[t.id] = r
	return r
}

// markPat finds the maximal ground subterms of a pattern that need a name.
func markPat(t *Term, m map[int]bool) {
	if !t.bound {
		if hasIte(t) {
			m[t.id] = true
		}
		return
	}
	for _, a := range t.args {
		markPat(a, m)
	}
}

// canonical renumbers generated names so that queries are stable across runs.
func canonical(s string) string { return s }

func sortStr(s Sort) string {
	if strings.HasPrefix(string(s), "(Array ") {
		k, v := splitArr(s)
		return "(Array " + sortStr(k) + " " + sortStr(v) + ")"
	}
	return q(string(s))
}

// ---------- solving ----------

type solverCfg struct {
	name string
	args func(secs int) []string
	pre  string
}

const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 100)\n"

var solvers = []solverCfg{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, z3opts},
	{"cvc5", func(s int) []string { return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000)} }, "(set-logic ALL)\n"},
	{"z3-new-2", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n"},
	{"z3", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s)} }, z3opts},
}

// noConstArr states constant arrays of anything but literals as axioms (cvc5 knows no others).
func noConstArr(q string) string {
	if !strings.Contains(q, "(define-fun $ca") {
		return q
	}
	ls := strings.Split(q, "\n")
	for i, l := range ls {
		if !strings.HasPrefix(l, "(define-fun $ca") {
			continue
		}
		nm := strings.Fields(l)[1]
		k := strings.Index(l, " ((as const ")
		so := strings.TrimPrefix(l[:k], "(define-fun "+nm+" () ")
		v := strings.TrimSuffix(strings.TrimPrefix(l[k:], " ((as const "+so+") "), "))")
		ls[i] = "(declare-const " + nm + " " + so + ")\n(assert (forall ((i Int)) (! (= (select " + nm + " i) " + v + ") :pattern ((select " + nm + " i)))))"
	}
	return strings.Join(ls, "\n")
}

// procs bounds the number of solvers running at a time.
var procs = make(chan struct{}, runtime.NumCPU())

func runSolver(c solverCfg, q string, secs int, tail string) (string, float64) {
	procs <- struct{}{}
	defer func() { <-procs }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+3)*time.Second)
	defer cancel()
	a := c.args(secs)
	if c.name == "cvc5" {
		q = noConstArr(q)
	}
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + q + "(check-sat)\n" + tail)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	return strings.TrimSpace(out.String()), time.Since(t0).Seconds()
}

var cacheDir = ""
var solverTime = map[string]float64{}
var solverMu sync.Mutex

// The time at which proving ends, whatever is left.
var stopMu sync.Mutex
var stopAt time.Time

func stopBy(t time.Time) {
	stopMu.Lock()
	if stopAt.IsZero() || t.Before(stopAt) {
		stopAt = t
	}
	stopMu.Unlock()
}

func pastStop(grace time.Duration) bool {
	stopMu.Lock()
	defer stopMu.Unlock()
	return !stopAt.IsZero() && time.Now().After(stopAt.Add(grace))
}

// retry gives the obligations that were not discharged more time, when they are few:
// the machine may have been busy.
func (C *Ctx) retry(obls []*Obl) {
	var left []*Obl
	for _, o := range obls {
		if !o.cover && o.status != "proved" && o.query != "" {
			left = append(left, o)
		}
	}
	if len(left) == 0 || len(left) > 8 || pastStop(0) || slower {
		return
	}
	slower = true
	var wg sync.WaitGroup
	for _, o := range left {
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			o.status = ""
			out := o.out
			C.qmu.Lock()
			o.query = C.query(o)
			C.qmu.Unlock()
			C.solve(o, o.query)
			if o.status != "proved" {
				o.out = out
			}
		}(o)
	}
	wg.Wait()
}

// slower multiplies the solvers' time limits.
var slower = false

func (C *Ctx) solveAll(obls []*Obl, budget time.Duration) {
	C.prepareAxioms()
	var wg sync.WaitGroup
	work := make(chan func(), 64)
	nw := runtime.NumCPU()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range work {
				f()
			}
		}()
	}
	stopBy(time.Now().Add(budget))
	failed := 0
	var mu sync.Mutex
	for _, o := range obls {
		if o.status != "" {
			continue
		}
		o := o
		C.qmu.Lock()
		qs := C.query(o)
		C.qmu.Unlock()
		o.query = qs
		work <- func() {
			mu.Lock()
			ff := failed
			mu.Unlock()
			if pastStop(0) || ff > 24 {
				o.status = "skipped"
				o.out = "not attempted: time budget exhausted or too many failures"
				return
			}
			C.solve(o, qs)
			if os.Getenv("GOVC_PROG") != "" && o.status == "failed" && !o.cover {
				fmt.Println("FAILING", o.fn, o.name)
			}
			if o.status == "failed" && !o.cover {
				mu.Lock()
				failed++
				mu.Unlock()
			}
		}
	}
	close(work)
	wg.Wait()
}

func (C *Ctx) solve(o *Obl, qs string) {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(qs)))
	o.hash = h[:16]
	if cacheDir != "" && !o.cover {
		if b, err := os.ReadFile(filepath.Join(cacheDir, h)); err == nil {
			o.status = "proved"
			o.solver = string(b)
			return
		}
	}
	if o.cover {
		out, secs := runSolver(solvers[0], qs, 2, "")
		o.secs = secs
		if strings.HasPrefix(out, "unsat") || strings.Contains(out, "\nunsat") {
			o.status = "failed"
			o.out = "assumptions are contradictory here"
		} else {
			o.status = "proved"
		}
		return
	}
	to := []int{3, 5, 10, 10}
	if thorough {
		to = []int{10, 30, 60, 60}
	}
	if o.timeout > 0 {
		to = []int{o.timeout, o.timeout, o.timeout, o.timeout}
	}
	if slower && !thorough {
		for i := range to {
			to[i] *= 4
		}
	}
	if pastStop(30 * time.Second) {
		o.status = "failed"
		o.out = "time budget exhausted"
		return
	}
	if o.over() {
		o.status = "failed"
		o.out = "not needed"
		return
	}
	proved := func(solver string) {
		o.status = "proved"
		o.solver = solver
		if cacheDir != "" {
			os.WriteFile(filepath.Join(cacheDir, h), []byte(solver), 0o644)
		}
	}
	var outs []string
	// try reports the outcome of one solver on the whole query
	try := func(i int) string {
		s := solvers[i]
		out, secs := runSolver(s, qs, to[i], "")
		first := "unknown"
		for _, ln := range strings.Split(out, "\n") {
			ln = strings.TrimSpace(ln)
			if strings.HasPrefix(ln, "(error") {
				first = "error"
				break
			}
			if ln == "unsat" || ln == "sat" {
				first = ln
			}
		}
		solverMu.Lock()
		solverTime[s.name] += secs
		o.secs += secs
		if len(out) > 300 {
			out = out[:300]
		}
		if first != "unsat" {
			outs = append(outs, s.name+": "+out)
		}
		solverMu.Unlock()
		return first
	}
	fail := func() {
		o.status = "failed"
		o.out = strings.Join(outs, "; ")
	}
	switch try(0) {
	case "unsat":
		proved(solvers[0].name)
		return
	case "sat":
		fail()
		return
	}
	if o.over() {
		fail()
		return
	}
	splits := len(o.groups) > 0 && !(quickFail && os.Getenv("GOVC_NOSPLIT") != "")
	// a case that splits again does so at once
	if !(splits && o.of != nil) && C.groundOnly(o) {
		proved(solvers[0].name)
		return
	}
	if pastStop(30*time.Second) || o.over() {
		fail()
		return
	}
	if splits {
		// by cases, while another solver tries the whole
		o.done = &atomic.Bool{}
		whole := make(chan bool, 1)
		go func() {
			r := o.of != nil && C.groundOnly(o)
			r = r || !o.over() && !o.done.Load() && try(1) == "unsat"
			if r {
				o.done.Store(true)
			}
			whole <- r
		}()
		sub := C.bySplit(o)
		if sub == nil {
			proved(solvers[0].name)
			o.done.Store(true)
		} else if <-whole {
			proved(solvers[1].name)
		} else {
			o.status = "failed"
			o.out = "by cases: " + sub.out
			o.query = sub.query
		}
		return
	}
	for i := 1; i < len(solvers); i++ {
		if pastStop(30*time.Second) || o.over() {
			break
		}
		r := try(i)
		if r == "unsat" {
			proved(solvers[i].name)
			return
		}
		if r == "sat" || quickFail && i >= 1 {
			break
		}
	}
	fail()
}

// over says that the outcome no longer matters: a case beside it failed, or the
// obligation it is a case of was proved whole.
func (o *Obl) over() bool {
	for p := o.of; p != nil; p = p.of {
		if p.done != nil && p.done.Load() {
			return true
		}
	}
	return false
}

func hasQuant(t *Term, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		r = r || hasQuant(a, memo)
	}
	memo[t.id] = r
	return r
}

// groundOnly tries a proof from the assumptions without quantifiers alone, then with the latest others.
func (C *Ctx) groundOnly(o *Obl) bool {
	for _, v := range []struct {
		recent int
		ground bool
	}{{0, true}, {30, false}, {30, true}} {
		if o.done != nil && o.done.Load() || o.over() {
			return false
		}
		if C.fewer(o, v.recent, v.ground) {
			return true
		}
	}
	return false
}

func (C *Ctx) fewer(o *Obl, recent int, ground bool) bool {
	memo := map[int]bool{}
	sub := &Obl{fn: o.fn, goal: o.goal}
	for i, p := range o.pcs {
		if i >= len(o.pcs)-recent || ground && !hasQuant(p, memo) {
			sub.pcs = append(sub.pcs, p)
		}
	}
	if len(sub.pcs) == len(o.pcs) || len(o.pcs) < 40 {
		return false
	}
	C.qmu.Lock()
	q := C.query(sub)
	C.qmu.Unlock()
	limit := 3
	if slower {
		limit = 12
	}
	out, secs := runSolver(solvers[0], q, limit, "")
	solverMu.Lock()
	o.secs += secs
	solverTime[solvers[0].name] += secs
	solverMu.Unlock()
	return strings.HasPrefix(out, "unsat")
}

// bySplit proves an obligation by cases: on every path that was joined on the
// way to it (exactly one selector of a group holds). It returns a case that fails.
func (C *Ctx) bySplit(o *Obl) *Obl {
	jg := o.groups[len(o.groups)-1]
	g := jg.sel
	var cases []*Obl
	for i := range g {
		if g[i] == False {
			continue
		}
		C.qmu.Lock()
		m := map[int]*Term{}
		for j, s := range g {
			if j != i && s != True && s != False {
				m[s.id] = False
			}
		}
		if g[i] != True {
			m[g[i].id] = True
		}
		memo := map[int]*Term{}
		for _, n := range jg.names {
			m[n[0].id] = rebuild(n[1], m, memo)
		}
		sub := &Obl{of: o, fn: o.fn, name: o.name, pos: o.pos, inputs: o.inputs, timeout: o.timeout}
		for _, p := range o.groups[:len(o.groups)-1] {
			q := &joinGroup{}
			for _, x := range p.sel {
				q.sel = append(q.sel, rebuild(x, m, memo))
			}
			for _, x := range p.names {
				q.names = append(q.names, [2]*Term{x[0], rebuild(x[1], m, memo)})
			}
			sub.groups = append(sub.groups, q)
		}
		dead := false
		if g[i].op != "const" {
			sub.pcs = append(sub.pcs, g[i])
		}
		for _, p := range o.pcs {
			x := rebuild(p, m, memo)
			dead = dead || x == False
			if x != True {
				sub.pcs = append(sub.pcs, x)
			}
		}
		sub.goal = rebuild(o.goal, m, memo)
		if dead || sub.goal == True {
			C.qmu.Unlock()
			continue
		}
		sub.query = C.query(sub)
		C.qmu.Unlock()
		cases = append(cases, sub)
	}
	var wg sync.WaitGroup
	for _, sub := range cases {
		wg.Add(1)
		go func() {
			defer wg.Done()
			C.solve(sub, sub.query)
			if os.Getenv("GOVC_PROG") != "" {
				fmt.Fprintf(os.Stderr, "CASE depth %d %s %.1f %s\n", len(o.groups), sub.status, sub.secs, sub.solver)
			}
			if sub.status != "proved" && sub.out != "not needed" {
				o.done.Store(true)
			}
		}()
	}
	wg.Wait()
	var bad *Obl
	for _, sub := range cases {
		solverMu.Lock()
		o.secs += sub.secs
		solverMu.Unlock()
		if sub.status != "proved" && (bad == nil || bad.out == "not needed") {
			bad = sub
		}
	}
	return bad
}

var quickFail = false

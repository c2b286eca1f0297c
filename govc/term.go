package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms with light simplification.

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SBs    Sort = "Bs"
	SSlice Sort = "Slice"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	op    string // "int" literal, "const" symbol, "var" bound variable, "app" function application etc.
	name  string
	args  []*Term
	sort  Sort
	val   *big.Int
	id    int
	bound bool    // contains bound variables
	bvs   []*Term // for quantifiers
	pats  [][]*Term
	size  int
}

type termKey string

var termTab = map[termKey]*Term{}
var termCount int

func mk(op, name string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := termKey(sb.String())
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, name: name, args: args, sort: sort, id: termCount, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
	}
	if op == "var" {
		t.bound = true
	}
	termTab[k] = t
	return t
}

func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	t := mk("int", n.String(), SInt)
	t.val = n
	return t
}

var True = mk("const", "true", SBool)
var False = mk("const", "false", SBool)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var declared = map[string]Sort{} // nullary symbols
var freshN = map[string]int{}

func Const(name string, s Sort) *Term {
	if o, ok := declared[name]; ok && o != s {
		panic("redeclared " + name + " " + string(o) + " vs " + string(s))
	}
	declared[name] = s
	return mk("const", name, s)
}

func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	freshN[base]++
	return Const(fmt.Sprintf("%s!%d", base, freshN[base]), s)
}

func BVar(base string, s Sort) *Term {
	base = sanitize(base)
	freshN["?"+base]++
	return mk("var", fmt.Sprintf("?%s!%d", base, freshN["?"+base]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '@':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("ptr.")
		case c == '[':
			sb.WriteString("L.")
		case c == ']':
			sb.WriteString(".J")
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

type FunDecl struct {
	name string
	args []Sort
	res  Sort
}

var funDecls = map[string]*FunDecl{}

func DeclFun(name string, args []Sort, res Sort) {
	if f, ok := funDecls[name]; ok {
		if len(f.args) != len(args) || f.res != res {
			panic("redeclared function " + name)
		}
		return
	}
	funDecls[name] = &FunDecl{name, args, res}
}

func App(name string, res Sort, args ...*Term) *Term {
	if _, ok := funDecls[name]; !ok {
		as := make([]Sort, len(args))
		for i, a := range args {
			as[i] = a.sort
		}
		DeclFun(name, as, res)
	} else {
		f := funDecls[name]
		for i, a := range args {
			if a.sort != f.args[i] {
				panic(fmt.Sprintf("sort mismatch in %s arg %d: %s vs %s (%s)", name, i, a.sort, f.args[i], a))
			}
		}
		res = f.res
	}
	return mk("app", name, res, args...)
}

func isInt(t *Term) bool { return t.op == "int" }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.sort != SBool {
			panic("And of non-bool " + t.String())
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a == b {
		return True
	}
	if isInt(a) && isInt(b) {
		return Bool(a.val.Cmp(b.val) == 0)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s vs %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return mk("ite", "", a.sort, c, a, b)
}

// linear normal form helper: decompose into constant + sum of coeff*term
func linear(t *Term, k *big.Int, acc map[*Term]*big.Int, order *[]*Term, c *big.Int) {
	switch t.op {
	case "int":
		c.Add(c, new(big.Int).Mul(k, t.val))
		return
	case "+":
		for _, a := range t.args {
			linear(a, k, acc, order, c)
		}
		return
	case "-":
		linear(t.args[0], k, acc, order, c)
		linear(t.args[1], new(big.Int).Neg(k), acc, order, c)
		return
	case "*":
		if isInt(t.args[0]) {
			linear(t.args[1], new(big.Int).Mul(k, t.args[0].val), acc, order, c)
			return
		}
	}
	if o, ok := acc[t]; ok {
		acc[t] = new(big.Int).Add(o, k)
	} else {
		acc[t] = new(big.Int).Set(k)
		*order = append(*order, t)
	}
}

func fromLinear(acc map[*Term]*big.Int, order []*Term, c *big.Int) *Term {
	var parts []*Term
	sort.SliceStable(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, t := range order {
		k := acc[t]
		if k.Sign() == 0 {
			continue
		}
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", "", SInt, BigInt(k), t))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(new(big.Int).Set(c)))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", SInt, parts...)
}

func Add(a, b *Term) *Term {
	acc := map[*Term]*big.Int{}
	var order []*Term
	c := new(big.Int)
	linear(a, big.NewInt(1), acc, &order, c)
	linear(b, big.NewInt(1), acc, &order, c)
	return fromLinear(acc, order, c)
}
func Sub(a, b *Term) *Term {
	acc := map[*Term]*big.Int{}
	var order []*Term
	c := new(big.Int)
	linear(a, big.NewInt(1), acc, &order, c)
	linear(b, big.NewInt(-1), acc, &order, c)
	return fromLinear(acc, order, c)
}
func Mul(a, b *Term) *Term {
	if isInt(b) && !isInt(a) {
		a, b = b, a
	}
	if isInt(a) {
		acc := map[*Term]*big.Int{}
		var order []*Term
		c := new(big.Int)
		linear(b, a.val, acc, &order, c)
		return fromLinear(acc, order, c)
	}
	return mk("*", "", SInt, a, b)
}

// SMT div/mod: Euclidean
func Div(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.val.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.val, b.val, new(big.Int))
		return BigInt(q)
	}
	if isInt(b) && b.val.IsInt64() && b.val.Int64() == 1 {
		return a
	}
	return mk("div", "", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.val.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.val, b.val, new(big.Int))
		return BigInt(m)
	}
	return mk("mod", "", SInt, a, b)
}

func cmpConst(a, b *Term) (int, bool) {
	if isInt(a) && isInt(b) {
		return a.val.Cmp(b.val), true
	}
	d := Sub(a, b)
	if isInt(d) {
		return d.val.Sign(), true
	}
	return 0, false
}

func Le(a, b *Term) *Term {
	if c, ok := cmpConst(a, b); ok {
		return Bool(c <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if c, ok := cmpConst(a, b); ok {
		return Bool(c < 0)
	}
	return mk("<", "", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	ks, vs := splitArr(a.sort)
	if i.sort != ks {
		panic(fmt.Sprintf("select index sort %s vs %s in %s", i.sort, ks, a))
	}
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", "", vs, a, i)
}

func definitelyDistinct(a, b *Term) bool {
	if a.sort != SInt {
		return false
	}
	d := Sub(a, b)
	return isInt(d) && d.val.Sign() != 0
}

func Store(a, i, v *Term) *Term {
	ks, vs := splitArr(a.sort)
	if i.sort != ks || v.sort != vs {
		panic(fmt.Sprintf("store sorts: array %s idx %s val %s", a.sort, i.sort, v.sort))
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", "", a.sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func Forall(bvs []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", bvs, pats, body) }
func Exists(bvs []*Term, pats [][]*Term, body *Term) *Term { return quant("exists", bvs, pats, body) }

func quant(q string, bvs []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	var okp [][]*Term
	for _, p := range pats {
		good := true
		var vs []*Term
		for _, t := range p {
			if !(t.op == "app" && len(t.args) > 0 || t.op == "select" || t.op == "sel") || badPat(t) {
				good = false
			}
			vs = append(vs, t)
		}
		for _, b := range bvs {
			found := false
			for _, t := range vs {
				if mentions(t, b) {
					found = true
				}
			}
			if !found {
				good = false
			}
		}
		if good {
			okp = append(okp, p)
		}
	}
	pats = okp
	names := ""
	for _, b := range bvs {
		names += b.name + ","
	}
	pn := ""
	for _, p := range pats {
		for _, t := range p {
			pn += fmt.Sprintf("%d.", t.id)
		}
		pn += ";"
	}
	t := mk(q, names+"#"+pn, SBool, body)
	t.bvs = bvs
	t.pats = pats
	// does it still contain free bound variables?
	t.bound = hasFree(body, bvs)
	return t
}

// badPat: patterns may not contain interpreted boolean structure.
func badPat(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if badPat(a) {
			return true
		}
	}
	return false
}

func mentions(t, b *Term) bool {
	if t == b {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if mentions(a, b) {
			return true
		}
	}
	return false
}

func BVarAt(base string, depth int, s Sort) *Term {
	t := mk("var", fmt.Sprintf("%s!%d", base, depth), s)
	t.bound = true
	return t
}

func hasFree(t *Term, bvs []*Term) bool {
	free := false
	seen := map[int]bool{}
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if !t.bound || free {
			return
		}
		if t.op == "var" {
			if !bound[t] {
				free = true
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.bvs {
				nb[b] = true
			}
			for _, a := range t.args {
				rec(a, nb)
			}
			return
		}
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			rec(a, bound)
		}
	}
	b := map[*Term]bool{}
	for _, v := range bvs {
		b[v] = true
	}
	rec(t, b)
	return free
}

// ---------- datatypes ----------

type Datatype struct {
	name   string // sort name
	fields []string
	sorts  []Sort
}

var datatypes = map[string]*Datatype{}
var dtOrder []string

func DeclDatatype(name string, fields []string, sorts []Sort) *Datatype {
	if d, ok := datatypes[name]; ok {
		return d
	}
	d := &Datatype{name, fields, sorts}
	datatypes[name] = d
	dtOrder = append(dtOrder, name)
	return d
}

func init() {
	DeclDatatype("Slice", []string{"arr", "off", "len", "cap"}, []Sort{SInt, SInt, SInt, SInt})
}

func Ctor(dt string, args ...*Term) *Term {
	d := datatypes[dt]
	if len(args) != len(d.fields) {
		panic("ctor arity " + dt)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("ctor %s field %s: sort %s want %s (%s)", dt, d.fields[i], a.sort, d.sorts[i], a))
		}
	}
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 {
		eta := true
		var base *Term
		for i, a := range args {
			if a.op != "sel" || a.name != dt+"."+d.fields[i] {
				eta = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				eta = false
				break
			}
		}
		if eta {
			return base
		}
	}
	return mk("ctor", dt, Sort(dt), args...)
}

func Sel(t *Term, i int) *Term {
	d, ok := datatypes[string(t.sort)]
	if !ok {
		panic("sel of non-datatype " + string(t.sort) + " " + t.String())
	}
	if t.op == "ctor" {
		return t.args[i]
	}
	if t.op == "ite" && (t.args[1].op == "ctor" || t.args[2].op == "ctor" || t.args[1].op == "ite" || t.args[2].op == "ite") {
		return Ite(t.args[0], Sel(t.args[1], i), Sel(t.args[2], i))
	}
	return mk("sel", d.name+"."+d.fields[i], d.sorts[i], t)
}

func Upd(t *Term, i int, v *Term) *Term {
	d := datatypes[string(t.sort)]
	args := make([]*Term, len(d.fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(t, j)
		}
	}
	return Ctor(d.name, args...)
}

func SelName(t *Term, f string) *Term {
	d := datatypes[string(t.sort)]
	for i, n := range d.fields {
		if n == f {
			return Sel(t, i)
		}
	}
	panic("no field " + f + " in " + d.name)
}

func MkSlice(arr, off, ln, cp *Term) *Term { return Ctor("Slice", arr, off, ln, cp) }
func SlArr(s *Term) *Term                  { return Sel(s, 0) }
func SlOff(s *Term) *Term                  { return Sel(s, 1) }
func SlLen(s *Term) *Term                  { return Sel(s, 2) }
func SlCap(s *Term) *Term                  { return Sel(s, 3) }

// ---------- printing ----------

func q(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '?') {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	s := sb.String()
	return s
}

func writeTerm(sb *strings.Builder, t *Term, named map[int]string) {
	if named != nil {
		if n, ok := named[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	writeTermBody(sb, t, named)
}

func writeTermBody(sb *strings.Builder, t *Term, named map[int]string) {
	args := func() {
		for _, a := range t.args {
			sb.WriteByte(' ')
			writeTerm(sb, a, named)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case "int":
		if t.val.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.val).String() + ")")
		} else {
			sb.WriteString(t.val.String())
		}
	case "const", "var":
		sb.WriteString(q(t.name))
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(q(t.name))
			return
		}
		sb.WriteString("(" + q(t.name))
		args()
	case "ctor":
		if len(t.args) == 0 {
			sb.WriteString(q("mk." + t.name))
			return
		}
		sb.WriteString("(" + q("mk."+t.name))
		args()
	case "sel":
		sb.WriteString("(" + q(t.name))
		args()
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ")")
		args()
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for i, b := range t.bvs {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + q(b.name) + " " + string(b.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], named)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, named)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default: // and or not => = + - * div mod <= < ite select store
		sb.WriteString("(" + t.op)
		args()
	}
}

// collect walks all subterms (incl. patterns) once.
func collect(t *Term, seen map[int]*Term, counts map[int]int, order *[]*Term) {
	counts[t.id]++
	if _, ok := seen[t.id]; ok {
		return
	}
	seen[t.id] = t
	for _, a := range t.args {
		collect(a, seen, counts, order)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collect(x, seen, counts, order)
		}
	}
	*order = append(*order, t)
}

// rebuild replaces subterms (by id) and simplifies again.
func rebuild(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = rebuild(a, m, memo)
		same = same && args[i] == a
	}
	var pats [][]*Term
	for _, p := range t.pats {
		var q []*Term
		for _, x := range p {
			y := rebuild(x, m, memo)
			same = same && x == y
			q = append(q, y)
		}
		pats = append(pats, q)
	}
	r := t
	if !same {
		switch t.op {
		case "app":
			r = App(t.name, t.sort, args...)
		case "ctor":
			r = Ctor(t.name, args...)
		case "sel":
			d := datatypes[string(args[0].sort)]
			for i, f := range d.fields {
				if d.name+"."+f == t.name {
					r = Sel(args[0], i)
				}
			}
		case "constarr":
			r = ConstArr(t.sort, args[0])
		case "forall", "exists":
			r = quant(t.op, t.bvs, pats, args[0])
			if len(t.pats) > 0 && len(r.pats) == 0 && r != True && r != False {
				r = quant(t.op, t.bvs, t.pats, args[0])
			}
		case "and":
			r = And(args...)
		case "or":
			r = Or(args...)
		case "not":
			r = Not(args[0])
		case "=>":
			r = Implies(args[0], args[1])
		case "=":
			r = Eq(args[0], args[1])
		case "<=":
			r = Le(args[0], args[1])
		case "<":
			r = Lt(args[0], args[1])
		case "ite":
			r = Ite(args[0], args[1], args[2])
		case "select":
			r = Select(args[0], args[1])
		case "store":
			r = Store(args[0], args[1], args[2])
		default:
			r = mk(t.op, t.name, t.sort, args...)
			r.bvs = t.bvs
		}
	}
	memo[t.id] = r
	return r
}

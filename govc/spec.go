package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- AST ----------

type TyEx struct {
	kind string // "name", "map", "slice", "ptr"
	name string
	key  *TyEx
	elem *TyEx
}

func (t *TyEx) String() string {
	switch t.kind {
	case "name":
		return t.name
	case "map":
		return "[" + t.key.String() + "]" + t.elem.String()
	case "slice":
		return "[]" + t.elem.String()
	case "ptr":
		return "*" + t.elem.String()
	}
	return "?"
}

type Bind struct {
	name string
	ty   *TyEx
}

type Ex struct {
	op   string
	name string
	args []*Ex
	bvs  []Bind
	pats [][]*Ex
	val  *big.Int
	line string
}

type Clause struct {
	label string
	e     *Ex
	file  string
	line  int
}

type LoopSpec struct {
	idx        int
	invariants []Clause
	modifies   []*Ex
	hasMod     bool
	hints      []Hint // executed at back edge before checking invariants
	enter      []Hint // executed when the loop is reached
}

type Hint struct {
	kind string // "assert", "use", "mention", "set"
	e    *Ex
	line int
	name string // set: the ghost variable; assert: its label
}

type FuncSpec struct {
	key      string // package path + "." + name as in ssa RelString
	aspect   string
	mergeAll bool
	split    bool // obligations not proved at once are split by joined path
	prune    bool // drop paths the solver refutes
	props    []string
	file     string
	line     int
	requires []Clause
	ensures  []Clause
	modifies []*Ex
	allocs   bool
	loops    map[int]*LoopSpec
	extern   bool // trusted, not verified
	trusted  bool // module function whose body is not verified
	why      string
	inline   bool // no contract; loops only
	nopanic  bool // default true
	atRet    []Hint
	atEntry  []Hint
	atCall   map[string][]Hint
	pkg      string
	pure     bool
	names    []string // result names override
	params   []string // for externs: param names
	results  []string
	resTypes []*TyEx
	model    string // Go intrinsic
	fnparams map[string]string
	timeout  int
	merge    bool
	lets     []LetDef
	budget   int
	bounded  string
	ghostAt  map[string][]Hint
	bsParams map[string]bool
}

type LetDef struct {
	name string
	e    *Ex
}

type FnDef struct {
	name   string
	params []Bind
	res    *TyEx
	body   *Ex
	rec    bool
	pkg    string
	opaque bool
	hidden bool
}

type Axiom struct {
	name   string
	e      *Ex
	pkg    string
	file   string
	line   int
	proved bool // discharged elsewhere (definition or lemma)
}

type Lemma struct {
	name     string
	params   []Bind
	requires []Clause
	ensures  []Clause
	step     bool   // the induction hypothesis is the lemma one below, for the same other parameters
	induct   string // variable for induction (natural)
	props    []string
	hints    []Hint
	pkg      string
	file     string
	line     int
	auto     bool
	noauto   bool
	pats     [][]*Ex
	tactic   string
	deps     []string
	lets     []LetDef
}

type GhostDef struct {
	name string
	ty   *TyEx
	pkg  string
}

type Spec struct {
	funcs    map[string]map[string]*FuncSpec // key -> aspect -> spec
	fns      map[string]*FnDef
	axioms   []*Axiom
	lemmas   map[string]*Lemma
	lemOrd   []string
	ghosts   map[string]*GhostDef
	ghostOrd []string
	globals  []Axiom // package-level constant facts
	sorts    map[string]bool
	order    []*FuncSpec
	nonzero  []string
	structs  map[string]*FnDef
	aliases  map[string]*TyEx
}

// ---------- lexer ----------

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	line int
}

func lex(src, file string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "<-", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == '_') {
				j++
			}
			out = append(out, tok{"int", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			sv, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(parseErr{fmt.Sprintf("%s:%d: bad string", file, line)})
			}
			out = append(out, tok{"str", sv, line})
			i = j + 1
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

type parser struct {
	toks []tok
	p    int
	file string
	sp   *Spec
	pkg  string
}

type parseErr struct{ msg string }

func (p *parser) cur() tok  { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...any) {
	panic(parseErr{fmt.Sprintf("%s:%d: %s (near %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s)})
}
func (p *parser) is(s string) bool { t := p.cur(); return (t.k == "op" || t.k == "id") && t.s == s }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

var kw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "invariant": true, "loop": true, "func": true, "extern": true,
	"fn": true, "rec": true, "axiom": true, "lemma": true, "ghost": true, "package": true, "sort": true, "props": true, "aspect": true,
	"trusted": true, "inline": true, "maypanic": true, "assert": true, "use": true, "at": true, "global": true, "hint": true, "enter": true, "allocates": true,
	"induction": true, "model": true, "fnparam": true, "timeout": true, "nonzero": true, "auto": true, "noauto": true, "structsort": true, "pattern": true, "let": true, "opaque": true, "deps": true, "bounded": true, "alias": true, "budget": true, "merge": true, "hidden": true, "prune": true, "split": true}

func (p *parser) typ() *TyEx {
	if p.accept("[") {
		if p.accept("]") {
			return &TyEx{kind: "slice", elem: p.typ()}
		}
		k := p.typ()
		p.expect("]")
		return &TyEx{kind: "map", key: k, elem: p.typ()}
	}
	if p.accept("*") {
		return &TyEx{kind: "ptr", elem: p.typ()}
	}
	n := p.ident()
	if p.accept(".") {
		n += "." + p.ident()
	}
	return &TyEx{kind: "name", name: n}
}

func (p *parser) binds(end string) []Bind {
	var out []Bind
	for !p.is(end) {
		var names []string
		names = append(names, p.ident())
		for p.accept(",") {
			names = append(names, p.ident())
		}
		t := p.typ()
		for _, n := range names {
			out = append(out, Bind{n, t})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

// expression parsing
var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr() *Ex { return p.ternary() }

func (p *parser) ternary() *Ex {
	c := p.binary(1)
	if p.accept("?") {
		a := p.ternary()
		p.expect(":")
		b := p.ternary()
		return &Ex{op: "ite", args: []*Ex{c, a, b}}
	}
	return c
}

func (p *parser) binary(min int) *Ex {
	l := p.unary()
	for {
		t := p.cur()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Ex
		if t.s == "==>" {
			r = p.binary(pr) // right assoc
		} else {
			r = p.binary(pr + 1)
		}
		if pr == 6 {
			// comparison chains: a <= b < c
			e := &Ex{op: t.s, args: []*Ex{l, r}}
			last := r
			for {
				t2 := p.cur()
				if t2.k == "op" && prec[t2.s] == 6 {
					p.next()
					r2 := p.binary(7)
					e = &Ex{op: "&&", args: []*Ex{e, {op: t2.s, args: []*Ex{last, r2}}}}
					last = r2
					continue
				}
				break
			}
			l = e
			continue
		}
		l = &Ex{op: t.s, args: []*Ex{l, r}}
	}
}

func (p *parser) unary() *Ex {
	if p.accept("!") {
		return &Ex{op: "!", args: []*Ex{p.unary()}}
	}
	if p.accept("-") {
		return &Ex{op: "neg", args: []*Ex{p.unary()}}
	}
	if p.accept("*") {
		return &Ex{op: "deref", args: []*Ex{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Ex {
	e := p.primary()
	for {
		if p.accept(".") {
			e = &Ex{op: "field", name: p.ident(), args: []*Ex{e}}
		} else if p.accept("[") {
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, nil, hi}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Ex
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, i, hi}}
				continue
			}
			if p.accept("<-") {
				v := p.expr()
				p.expect("]")
				e = &Ex{op: "upd", args: []*Ex{e, i, v}}
				continue
			}
			p.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, i}}
		} else {
			return e
		}
	}
}

func (p *parser) primary() *Ex {
	t := p.next()
	switch t.k {
	case "int":
		v, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			p.fail("bad int")
		}
		return &Ex{op: "int", val: v}
	case "str":
		return &Ex{op: "str", name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			bs := p.binds("::")
			var pats [][]*Ex
			for p.accept("{") {
				var pat []*Ex
				for {
					pat = append(pat, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				pats = append(pats, pat)
			}
			p.expect("::")
			b := p.expr()
			return &Ex{op: t.s, bvs: bs, pats: pats, args: []*Ex{b}}
		case "let":
			n := p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return &Ex{op: "let", name: n, args: []*Ex{v, b}}
		case "old", "pre":
			p.expect("(")
			e := p.expr()
			p.expect(")")
			return &Ex{op: t.s, args: []*Ex{e}}
		case "true", "false":
			return &Ex{op: "bool", name: t.s}
		}
		if kw[t.s] {
			p.p--
			p.fail("unexpected keyword")
		}
		if p.is("(") {
			p.next()
			var args []*Ex
			for !p.is(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return &Ex{op: "call", name: t.s, args: args}
		}
		return &Ex{op: "id", name: t.s}
	}
	p.p--
	p.fail("unexpected token")
	return nil
}

func (p *parser) clause() Clause {
	c := Clause{file: p.file, line: p.cur().line}
	if p.accept("[") {
		for !p.is("]") {
			c.label += p.next().s
		}
		p.expect("]")
	}
	c.e = p.expr()
	return c
}

func (p *parser) exprList() []*Ex {
	var out []*Ex
	if p.accept("nothing") {
		return out
	}
	for {
		out = append(out, p.expr())
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) hint() Hint {
	l := p.cur().line
	switch {
	case p.accept("assert"):
		name := ""
		if p.accept("[") {
			for !p.is("]") {
				name += p.next().s
			}
			p.expect("]")
		}
		return Hint{kind: "assert", e: p.expr(), line: l, name: name}
	case p.accept("use"):
		return Hint{kind: "use", e: p.expr(), line: l}
	case p.accept("mention"):
		return Hint{kind: "mention", e: p.expr(), line: l}
	case p.accept("set"): // assignment to a ghost variable
		n := p.ident()
		p.expect("=")
		return Hint{kind: "set", e: p.expr(), line: l, name: n}
	}
	p.fail("expected assert or use")
	return Hint{}
}

// funcName parses a function designator such as
//
//	(*BPTreeNode).Size   (DistHeap).Less   level   bytes.Compare   (io.Seeker).Seek
func (p *parser) funcName() string {
	var sb strings.Builder
	if p.accept("(") {
		sb.WriteString("(")
		if p.accept("*") {
			sb.WriteString("*")
		}
		n := p.ident()
		for {
			if p.accept("/") {
				n += "/" + p.ident()
			} else if p.accept(".") {
				n += "." + p.ident()
			} else {
				break
			}
		}
		p.expect(")")
		p.expect(".")
		sb.WriteString(n + ").")
		sb.WriteString(p.ident())
		return sb.String()
	}
	n := p.ident()
	for {
		if p.accept("/") {
			n += "/" + p.ident()
		} else if p.accept(".") {
			n += "." + p.ident()
		} else if p.accept("[") {
			n += "["
			if p.accept("*") {
				n += "*"
			}
			n += p.ident()
			if p.accept(".") {
				n += "." + p.ident()
			}
			p.expect("]")
			return n + "]"
		} else if p.accept("<") {
			// specialised to a function argument
			n += "<" + p.funcName() + ">"
			p.expect(">")
			return n
		} else {
			return n
		}
	}
}

func (p *parser) parse() {
	sp := p.sp
	for p.cur().k != "eof" {
		line := p.cur().line
		switch t := p.ident(); t {
		case "package":
			p.pkg = p.ident()
		case "sort":
			n := p.ident()
			sp.sorts[n] = true
		case "alias":
			n := p.ident()
			sp.aliases[n] = p.typ()
		case "structsort":
			n := p.ident()
			p.expect("{")
			d := &FnDef{name: n, params: p.binds("}"), pkg: p.pkg}
			p.expect("}")
			sp.structs[n] = d
		case "ghost":
			g := &GhostDef{name: p.ident(), pkg: p.pkg}
			g.ty = p.typ()
			sp.ghosts[g.name] = g
			sp.ghostOrd = append(sp.ghostOrd, g.name)
		case "opaque", "hidden", "fn", "rec":
			opaque := t == "opaque" || t == "hidden"
			hidden := t == "hidden"
			if opaque {
				t = p.ident()
			}
			d := &FnDef{name: p.ident(), rec: t == "rec", pkg: p.pkg, opaque: opaque, hidden: hidden}
			p.expect("(")
			d.params = p.binds(")")
			p.expect(")")
			d.res = p.typ()
			if p.accept("=") {
				d.body = p.expr()
			}
			if _, dup := sp.fns[d.name]; dup {
				p.fail("duplicate fn %s", d.name)
			}
			sp.fns[d.name] = d
		case "axiom":
			a := &Axiom{name: p.ident(), pkg: p.pkg, file: p.file, line: line}
			p.expect(":")
			a.e = p.expr()
			sp.axioms = append(sp.axioms, a)
		case "global":
			sp.globals = append(sp.globals, Axiom{name: "global", e: p.expr(), pkg: p.pkg, file: p.file, line: line})
		case "nonzero":
			for {
				sp.nonzero = append(sp.nonzero, p.funcName())
				if !p.accept(",") {
					break
				}
			}
		case "lemma":
			l := &Lemma{name: p.ident(), pkg: p.pkg, file: p.file, line: line}
			p.expect("(")
			l.params = p.binds(")")
			p.expect(")")
		lem:
			for {
				switch {
				case p.accept("requires"):
					l.requires = append(l.requires, p.clause())
				case p.accept("ensures"):
					l.ensures = append(l.ensures, p.clause())
				case p.accept("induction"):
					l.induct = p.ident()
					if p.accept("step") {
						l.step = true
					}
				case p.accept("noauto"):
					l.noauto = true
				case p.accept("auto"):
					l.auto = true
				case p.accept("deps"):
					for {
						l.deps = append(l.deps, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case p.accept("let"):
					n := p.ident()
					p.expect("=")
					l.lets = append(l.lets, LetDef{n, p.expr()})
				case p.accept("pattern"):
					var pat []*Ex
					for {
						pat = append(pat, p.expr())
						if !p.accept(",") {
							break
						}
					}
					l.pats = append(l.pats, pat)
				case p.accept("props"):
					l.props = p.idlist()
				case p.is("assert") || p.is("use") || p.is("mention"):
					l.hints = append(l.hints, p.hint())
				default:
					break lem
				}
			}
			sp.lemmas[l.name] = l
			sp.lemOrd = append(sp.lemOrd, l.name)
		case "extern", "func":
			p.funcSpec(t == "extern", line)
		default:
			p.p--
			p.fail("unknown item")
		}
	}
}

// qualify adds the current package to an unqualified function designator.
func (p *parser) qualify(n string) string {
	if strings.HasPrefix(n, "(") {
		i := strings.Index(n, ")")
		in := n[1:i]
		if !strings.Contains(in, ".") {
			if strings.HasPrefix(in, "*") {
				in = "*" + p.pkg + "." + in[1:]
			} else {
				in = p.pkg + "." + in
			}
		}
		return "(" + in + n[i:]
	}
	if !strings.Contains(n, ".") {
		return p.pkg + "." + n
	}
	return n
}

func (p *parser) idlist() []string {
	var out []string
	for {
		out = append(out, p.ident())
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) funcSpec(extern bool, line int) {
	sp := p.sp
	name := p.qualify(p.funcName())
	f := &FuncSpec{key: name, extern: extern, file: p.file, line: line, pkg: p.pkg, nopanic: true,
		loops: map[int]*LoopSpec{}, bsParams: map[string]bool{}, atCall: map[string][]Hint{}, fnparams: map[string]string{}}
	if p.accept("(") {
		for !p.is(")") {
			f.params = append(f.params, p.ident())
			if !p.is(",") && !p.is(")") {
				p.typ()
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.accept("(") {
			for !p.is(")") {
				n := p.ident()
				f.results = append(f.results, n)
				var ty *TyEx
				if !p.is(",") && !p.is(")") {
					ty = p.typ()
				}
				f.resTypes = append(f.resTypes, ty)
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
	}
	var cl *LoopSpec
	for {
		switch {
		case p.accept("aspect"):
			f.aspect = p.ident()
		case p.accept("props"):
			f.props = p.idlist()
		case p.accept("requires"):
			f.requires = append(f.requires, p.clause())
		case p.accept("ensures"):
			f.ensures = append(f.ensures, p.clause())
		case p.accept("let"):
			n := p.ident()
			p.expect("=")
			f.lets = append(f.lets, LetDef{n, p.expr()})
		case p.accept("modifies"):
			if cl != nil {
				cl.hasMod = true
				if p.accept("nothing") {
					break
				}
				cl.modifies = append(cl.modifies, p.exprList()...)
			} else {
				f.modifies = append(f.modifies, p.exprList()...)
			}
		case p.accept("loop"):
			t := p.next()
			n := 0
			fmt.Sscan(t.s, &n)
			cl = &LoopSpec{idx: n}
			f.loops[n] = cl
		case p.accept("invariant"):
			if cl == nil {
				p.fail("invariant outside loop")
			}
			cl.invariants = append(cl.invariants, p.clause())
		case p.accept("enter"):
			if cl == nil {
				p.fail("enter outside loop")
			}
			cl.enter = append(cl.enter, p.hint())
		case p.accept("hint"):
			if cl == nil {
				p.fail("hint outside loop")
			}
			cl.hints = append(cl.hints, p.hint())
		case p.accept("at"):
			switch w := p.ident(); w {
			case "return":
				f.atRet = append(f.atRet, p.hint())
			case "entry":
				f.atEntry = append(f.atEntry, p.hint())
			case "call", "aftercall", "beforecall":
				n := p.ident()
				if p.accept(".") {
					n += "." + p.ident()
				}
				if p.accept("#") {
					n += "#" + p.next().s
				}
				if w == "call" {
					w = "aftercall"
				}
				f.atCall[w+":"+n] = append(f.atCall[w+":"+n], p.hint())
			default:
				p.fail("at what?")
			}
		case p.accept("trusted"):
			f.trusted = true
			if p.cur().k == "str" {
				f.why = p.next().s
			}
		case p.accept("inline"):
			f.inline = true
		case p.accept("maypanic"):
			f.nopanic = false
		case p.accept("allocates"):
			f.allocs = true
		case p.accept("merge"):
			f.merge = true
			if p.cur().s == "all" { // also paths with different memory
				p.next()
				f.mergeAll = true
			}
		case p.accept("prune"):
			f.prune = true
		case p.accept("split"):
			f.split = true
		case p.accept("timeout"):
			fmt.Sscan(p.next().s, &f.timeout)
		case p.accept("bytestring"):
			for _, n := range p.idlist() {
				f.bsParams[n] = true
			}
		case p.accept("model"):
			f.model = p.ident()
		default:
			key := f.key
			if sp.funcs[key] == nil {
				sp.funcs[key] = map[string]*FuncSpec{}
			}
			if o, dup := sp.funcs[key][f.aspect]; dup {
				p.fail("duplicate spec for %s (aspect %q) also at %s:%d", key, f.aspect, o.file, o.line)
			}
			sp.funcs[key][f.aspect] = f
			sp.order = append(sp.order, f)
			return
		}
	}
}

func loadSpecs(dir string) (sp *Spec, err error) {
	sp = &Spec{funcs: map[string]map[string]*FuncSpec{}, fns: map[string]*FnDef{}, lemmas: map[string]*Lemma{}, ghosts: map[string]*GhostDef{}, sorts: map[string]bool{}, structs: map[string]*FnDef{}, aliases: map[string]*TyEx{}}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		p := &parser{toks: lex(string(b), f), file: filepath.Base(f), sp: sp}
		p.parse()
	}
	return sp, nil
}

package main

import (
	"go/types"
	"math/big"
)

// A small interval analysis over the path condition: it only decides that a
// machine operation cannot overflow so that its result can be kept as the plain
// mathematical term. When it cannot decide, the wrap-around term is used.

type linFact struct { // sum(coef*atom) + c <= 0
	coef  map[*Term]*big.Int
	order []*Term
	c     *big.Int
}

var factMemo = map[int][]*linFact{}

func mkFact(a, b *Term, strict bool) *linFact { // a <= b  or a < b
	f := &linFact{coef: map[*Term]*big.Int{}, c: new(big.Int)}
	linear(a, big.NewInt(1), f.coef, &f.order, f.c)
	linear(b, big.NewInt(-1), f.coef, &f.order, f.c)
	if strict {
		f.c.Add(f.c, big.NewInt(1))
	}
	return f
}

func factsOf(t *Term) []*linFact {
	if r, ok := factMemo[t.id]; ok {
		return r
	}
	var out []*linFact
	neg := false
	u := t
	if u.op == "not" {
		neg = true
		u = u.args[0]
	}
	switch {
	case u.op == "<=" && !neg:
		out = append(out, mkFact(u.args[0], u.args[1], false))
	case u.op == "<" && !neg:
		out = append(out, mkFact(u.args[0], u.args[1], true))
	case u.op == "<=" && neg:
		out = append(out, mkFact(u.args[1], u.args[0], true))
	case u.op == "<" && neg:
		out = append(out, mkFact(u.args[1], u.args[0], false))
	case u.op == "=" && !neg && u.args[0].sort == SInt:
		out = append(out, mkFact(u.args[0], u.args[1], false), mkFact(u.args[1], u.args[0], false))
	}
	factMemo[t.id] = out
	return out
}

type ivl struct{ lo, hi *big.Int } // nil: unbounded

type ivState struct {
	facts map[*Term][]*linFact
	busy  map[*Term]bool
	n     int
}

func (s *State) ivs() *ivState {
	if s.iv != nil && s.ivAt == s.pc {
		s.iv.n = 0
		return s.iv
	}
	iv := &ivState{facts: map[*Term][]*linFact{}, busy: map[*Term]bool{}}
	for n := s.pc; n != nil; n = n.prev {
		for _, f := range factsOf(n.t) {
			if len(f.order) > 4 {
				continue
			}
			for _, a := range f.order {
				if f.coef[a].Sign() != 0 {
					iv.facts[a] = append(iv.facts[a], f)
				}
			}
		}
	}
	s.iv, s.ivAt = iv, s.pc
	return iv
}

func (iv *ivState) term(t *Term, depth int) ivl {
	if t.op == "int" {
		return ivl{t.val, t.val}
	}
	coef := map[*Term]*big.Int{}
	var order []*Term
	c := new(big.Int)
	linear(t, big.NewInt(1), coef, &order, c)
	return iv.lin(coef, order, c, nil, depth)
}

// bounds of sum(coef*atom)+c, leaving out one atom
func (iv *ivState) lin(coef map[*Term]*big.Int, order []*Term, c *big.Int, skip *Term, depth int) ivl {
	r := ivl{new(big.Int).Set(c), new(big.Int).Set(c)}
	for _, a := range order {
		k := coef[a]
		if a == skip || k.Sign() == 0 {
			continue
		}
		b := iv.atom(a, depth)
		lo, hi := b.lo, b.hi
		if k.Sign() < 0 {
			lo, hi = hi, lo
		}
		if r.lo != nil {
			if lo == nil {
				r.lo = nil
			} else {
				r.lo.Add(r.lo, new(big.Int).Mul(k, lo))
			}
		}
		if r.hi != nil {
			if hi == nil {
				r.hi = nil
			} else {
				r.hi.Add(r.hi, new(big.Int).Mul(k, hi))
			}
		}
		if r.lo == nil && r.hi == nil {
			return r
		}
	}
	return r
}

func (iv *ivState) atom(a *Term, depth int) ivl {
	var r ivl
	meetLo := func(x *big.Int) {
		if x != nil && (r.lo == nil || x.Cmp(r.lo) > 0) {
			r.lo = x
		}
	}
	meetHi := func(x *big.Int) {
		if x != nil && (r.hi == nil || x.Cmp(r.hi) < 0) {
			r.hi = x
		}
	}
	switch a.op {
	case "mod":
		if isInt(a.args[1]) && a.args[1].val.Sign() > 0 {
			meetLo(new(big.Int))
			meetHi(new(big.Int).Sub(a.args[1].val, big.NewInt(1)))
			if depth > 0 {
				b := iv.term(a.args[0], depth-1)
				if b.lo != nil && b.lo.Sign() >= 0 {
					meetHi(b.hi)
				}
			}
		}
	case "div":
		if isInt(a.args[1]) && a.args[1].val.Sign() > 0 && depth > 0 {
			b := iv.term(a.args[0], depth-1)
			if b.lo != nil {
				meetLo(new(big.Int).Div(b.lo, a.args[1].val))
			}
			if b.hi != nil {
				meetHi(new(big.Int).Div(b.hi, a.args[1].val))
			}
		}
	case "ite":
		if depth > 0 {
			x, y := iv.term(a.args[1], depth-1), iv.term(a.args[2], depth-1)
			if x.lo != nil && y.lo != nil {
				meetLo(minBig(x.lo, y.lo))
			}
			if x.hi != nil && y.hi != nil {
				meetHi(maxBig(x.hi, y.hi))
			}
		}
	case "*":
		if depth > 0 && len(a.args) == 2 {
			x, y := iv.term(a.args[0], depth-1), iv.term(a.args[1], depth-1)
			if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
				meetLo(new(big.Int).Mul(x.lo, y.lo))
				if x.hi != nil && y.hi != nil {
					meetHi(new(big.Int).Mul(x.hi, y.hi))
				}
			}
		}
	case "app":
		switch a.name {
		case "byteN", "bat":
			if a.name == "byteN" {
				meetLo(new(big.Int))
				meetHi(big.NewInt(255))
			}
		case "uvlen":
			meetLo(big.NewInt(1))
			meetHi(big.NewInt(10))
		}
	}
	if iv.busy[a] || iv.n > 4000 {
		return r
	}
	iv.n++
	iv.busy[a] = true
	for _, f := range iv.facts[a] {
		k := f.coef[a]
		// k*a <= -(rest)
		d := depth - 1
		if len(f.order) > 1 && depth <= 0 {
			continue
		}
		rest := iv.lin(f.coef, f.order, f.c, a, d)
		if rest.lo == nil {
			continue
		}
		m := new(big.Int).Neg(rest.lo) // k*a <= m
		if k.Sign() > 0 {
			meetHi(floorDiv(m, k))
		} else {
			// a >= m/k  (k<0): a >= ceil(m/k) = -floor(m/(-k))
			meetLo(new(big.Int).Neg(floorDiv(m, new(big.Int).Neg(k))))
		}
	}
	iv.busy[a] = false
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 so floor
	return q
}
func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (s *State) within(t *Term, lo, hi *big.Int) bool {
	if isInt(t) {
		return t.val.Cmp(lo) >= 0 && t.val.Cmp(hi) <= 0
	}
	b := s.ivs().term(t, 3)
	return b.lo != nil && b.hi != nil && b.lo.Cmp(lo) >= 0 && b.hi.Cmp(hi) <= 0
}

func (s *State) fits(t types.Type, x *Term) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	lo, hi, ok := intRange(b)
	return ok && s.within(x, lo, hi)
}

// wrap helpers that keep the exact term when overflow is impossible
func (s *State) near(t types.Type, x *Term) *Term {
	if s.fits(t, x) {
		return x
	}
	return wrapNear(t, x)
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Mapping of Go types to SMT sorts.
//
//   integers            Int (range facts added where values enter)
//   float32/float64     Int (the IEEE bit pattern)
//   string, value bytes Bs  (immutable byte strings)
//   pointers, maps, interfaces, funcs, channels   Int (references; 0 is nil)
//   slices              Slice(arr, off, len, cap)
//   structs             one datatype per type
//   arrays              (Array Int elem)

// bsFields: struct fields of type []byte that are modelled as immutable byte strings.
var bsFields = map[string]bool{
	"github.com/kevmo314/appendable/pkg/pointer.ReferencedValue.Value": true,
}

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		n := o.Name()
		if o.Pkg() != nil {
			n = shortPkg(o.Pkg().Path()) + "." + n
		}
		if ta := t.TypeArgs(); ta != nil {
			for i := 0; i < ta.Len(); i++ {
				n += "_" + typeName(ta.At(i))
			}
		}
		return n
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	case *types.Pointer:
		return "ptr." + typeName(t.Elem())
	case *types.Slice:
		return "sl." + typeName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("arr%d.%s", t.Len(), typeName(t.Elem()))
	case *types.Map:
		return "map." + typeName(t.Key()) + ".to." + typeName(t.Elem())
	case *types.Struct:
		var sb strings.Builder
		sb.WriteString("anon")
		for i := 0; i < t.NumFields(); i++ {
			sb.WriteString("." + t.Field(i).Name() + "-" + typeName(t.Field(i).Type()))
		}
		return sb.String()
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Chan:
		return "chan"
	case *types.Tuple:
		return "tuple"
	case *types.TypeParam:
		return "tp." + t.Obj().Name()
	}
	return "t"
}

func shortPkg(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

var sortCache = map[types.Type]Sort{}

func sortOf(t types.Type) Sort {
	if s, ok := sortCache[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[t] = s
	return s
}

func sortOf1(t types.Type) Sort {
	if isOpaqueNamed(t) {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return SBool
		}
		if u.Info()&types.IsString != 0 {
			return SBs
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	}
	return SInt
}

// structs of packages outside the module are opaque (Int)
func isOpaqueNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
}

var modulePath = "github.com/kevmo314/appendable"

func structSort(t types.Type, u *types.Struct) Sort {
	name := sanitize("T." + typeName(t))
	if _, ok := datatypes[name]; ok {
		return Sort(name)
	}
	var fs []string
	var ss []Sort
	if u.NumFields() == 0 {
		fs = append(fs, "_unit")
		ss = append(ss, SInt)
	}
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, u.Field(i).Name())
		if isBsField(t, i) {
			ss = append(ss, SBs)
		} else {
			ss = append(ss, sortOf(u.Field(i).Type()))
		}
	}
	DeclDatatype(name, fs, ss)
	return Sort(name)
}

func isBsField(t types.Type, i int) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	return bsFields[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+u.Field(i).Name()]
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	sub1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return new(big.Int).Neg(p(63)), sub1(p(63)), true
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127), true
	case types.Int16:
		return big.NewInt(-32768), big.NewInt(32767), true
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(p(31)), sub1(p(31)), true
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), sub1(p(64)), true
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255), true
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535), true
	case types.Uint32:
		return big.NewInt(0), sub1(p(32)), true
	case types.Float32:
		return big.NewInt(0), sub1(p(32)), true
	case types.Float64, types.UntypedFloat:
		return big.NewInt(0), sub1(p(64)), true
	}
	return nil, nil, false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// wrapInt reduces a mathematical integer to the Go type's range.
func wrapInt(t types.Type, x *Term) *Term {
	b := t.Underlying().(*types.Basic)
	lo, hi, ok := intRange(b)
	if !ok {
		return x
	}
	if isInt(x) {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		v := new(big.Int).Sub(x.val, lo)
		v.Mod(v, m)
		v.Add(v, lo)
		return BigInt(v)
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	return Add(Mod(Sub(x, BigInt(lo)), BigInt(m)), BigInt(lo))
}

// wrapNear is wrapInt for values known to be within one modulus of the range
// (results of + and - on in-range operands).
func wrapNear(t types.Type, x *Term) *Term {
	if isInt(x) {
		return wrapInt(t, x)
	}
	b := t.Underlying().(*types.Basic)
	lo, hi, ok := intRange(b)
	if !ok {
		return x
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	return Ite(Gt(x, BigInt(hi)), Sub(x, BigInt(m)), Ite(Lt(x, BigInt(lo)), Add(x, BigInt(m)), x))
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47) // address space of linux/amd64

// wf gives the facts every value of Go type t satisfies.
func wf(t types.Type, v *Term, alloc *Term, bsf bool) *Term {
	if v.sort == SBs {
		return And(Le(Int(0), blen(v)), Le(blen(v), BigInt(maxLen)))
	}
	if isOpaqueNamed(t) {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return True
		}
		lo, hi, ok := intRange(u)
		if !ok {
			return True
		}
		if isInt(v) {
			return True
		}
		return And(Le(BigInt(lo), v), Le(v, BigInt(hi)))
	case *types.Pointer, *types.Map:
		if alloc == nil {
			return Le(Int(0), v)
		}
		return And(Le(Int(0), v), Lt(v, alloc))
	case *types.Slice:
		if v.op == "ctor" {
			return True
		}
		c := []*Term{Le(Int(0), SlArr(v)), Le(Int(0), SlOff(v)), Le(Int(0), SlLen(v)), Le(SlLen(v), SlCap(v)),
			Le(Add(SlOff(v), SlCap(v)), BigInt(maxLen)), Implies(Eq(SlArr(v), Int(0)), And(Eq(SlCap(v), Int(0)), Eq(SlOff(v), Int(0))))}
		if alloc != nil {
			c = append(c, Lt(SlArr(v), alloc))
		}
		return And(c...)
	case *types.Struct:
		var c []*Term
		for i := 0; i < u.NumFields(); i++ {
			c = append(c, wf(u.Field(i).Type(), Sel(v, i), alloc, false))
		}
		return And(c...)
	}
	return True
}

func blen(b *Term) *Term {
	if b.op == "app" && b.name == "mkbs" {
		return b.args[2]
	}
	return App("blen", SInt, b)
}
func bat(b, i *Term) *Term {
	return App("bat", SInt, b, i)
}
func mkbs(arr, off, ln *Term) *Term { return App("mkbs", SBs, arr, off, ln) }

// mkbs of length n has len n only when n >= 0; every use has n >= 0.

func zeroOf(t types.Type) *Term {
	if isOpaqueNamed(t) {
		return Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return Const("bs.empty", SBs)
		}
		return Int(0)
	case *types.Slice:
		return MkSlice(Int(0), Int(0), Int(0), Int(0))
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		s := string(structSort(t, u))
		var args []*Term
		if u.NumFields() == 0 {
			args = append(args, Int(0))
		}
		for i := 0; i < u.NumFields(); i++ {
			if isBsField(t, i) {
				args = append(args, Const("bs.empty", SBs))
			} else {
				args = append(args, zeroOf(u.Field(i).Type()))
			}
		}
		return Ctor(s, args...)
	}
	return Int(0)
}

func heapName(t types.Type) string {
	n := "H." + sanitize(typeName(t))
	if _, ok := heapSorts[n]; !ok {
		heapSorts[n] = heapSort(t)
	}
	return n
}
func backName(t types.Type) string {
	n := "S." + sanitize(typeName(t))
	if _, ok := heapSorts[n]; !ok {
		heapSorts[n] = backSort(t)
	}
	return n
}
func heapSort(t types.Type) Sort { return ArrSort(SInt, sortOf(t)) }
func backSort(t types.Type) Sort { return ArrSort(SInt, ArrSort(SInt, sortOf(t))) }

// sliceOK: what holds of every slice value.
func sliceOK(v *Term) *Term {
	return And(Le(Int(0), SlArr(v)), Le(Int(0), SlOff(v)), Le(Int(0), SlLen(v)), Le(SlLen(v), SlCap(v)),
		Le(Add(SlOff(v), SlCap(v)), BigInt(maxLen)), Implies(Eq(SlArr(v), Int(0)), And(Eq(SlCap(v), Int(0)), Eq(SlOff(v), Int(0)))))
}

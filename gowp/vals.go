package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructVal struct {
	T types.Type
	F []Val
}
type SliceVal struct {
	arr, off, ln, cp *Term
	elem             types.Type
}

// Ptr is an interior (or otherwise non-plain) pointer.
// kind 'o': field path of object ref of type root
// kind 'e': element idx of array ref with element type root, then path
// kind 'g': global
type Ptr struct {
	kind byte
	ref  *Term
	idx  *Term
	root types.Type
	path []int
	glob *ssa.Global
}
type Clo struct {
	fn   *ssa.Function
	bind []Val
	// intrinsic method-value on unknown
}
type Multi struct {
	g []*Term
	v []Val
}
type TupleV []Val
type IterV struct {
	has0  *Term
	m     *Term
	mt    *types.Map
	key   string // heap key of visited set
	str   *Term  // string iteration
	isStr bool
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Name() }
func tstr(t types.Type) string     { return types.TypeString(t, qual) }

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIfaceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b := t.Underlying().(*types.Basic)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	s := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), big.NewInt(1))
	}
	u := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(p(n), big.NewInt(1)) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	panic("intRange " + t.String())
}

type Leaf struct {
	path string
	sort string
	t    types.Type // scalar go type (or slice component marker)
	comp string     // "", "arr","off","len","cap"
}

var leafCache = map[string][]Leaf{}

func (x *Exec) leaves(t types.Type) []Leaf {
	k := tstr(t)
	if l, ok := x.leafCache[k]; ok {
		return l
	}
	l := leavesOf(t, "", 0)
	x.leafCache[k] = l
	return l
}

func leavesOf(t types.Type, path string, d int) []Leaf {
	if d > 8 {
		unsup("deep type %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{path, "Int", t, ""}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{path, "Bool", t, ""}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{path, "Str", t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{path, "Flt", t, ""}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []Leaf{{path, "Int", t, ""}}
		}
		unsup("type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{path, "Int", t, ""}}
	case *types.Interface:
		return []Leaf{{path, "Iface", t, ""}}
	case *types.Slice:
		return []Leaf{{path + ".arr", "Int", t, "arr"}, {path + ".off", "Int", t, "off"}, {path + ".len", "Int", t, "len"}, {path + ".cap", "Int", t, "cap"}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leavesOf(u.Field(i).Type(), fmt.Sprintf("%s.%s", path, u.Field(i).Name()), d+1)...)
		}
		return r
	case *types.Array:
		unsup("array value %s", t)
	case *types.Tuple:
		unsup("tuple value %s", t)
	}
	unsup("type %s", t)
	return nil
}

// build constructs a Val of type t from its leaves.
func (x *Exec) build(t types.Type, get func(l Leaf) *Term) Val {
	v, rest := x.build1(t, x.leaves(t), get)
	if len(rest) != 0 {
		panic("build")
	}
	return v
}
func (x *Exec) build1(t types.Type, ls []Leaf, get func(l Leaf) *Term) (Val, []Leaf) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = x.build1(u.Field(i).Type(), ls, get)
			s.F = append(s.F, f)
		}
		return s, ls
	case *types.Slice:
		v := &SliceVal{get(ls[0]), get(ls[1]), get(ls[2]), get(ls[3]), u.Elem()}
		return v, ls[4:]
	}
	return x.unreg(get(ls[0])), ls[1:]
}

// unreg maps registered terms back to engine values.
func (x *Exec) unreg(t *Term) Val {
	if t.sort != "Int" {
		return t
	}
	if v, ok := x.reg[t]; ok {
		return v
	}
	if t.op == "ite" {
		if x.hasReg(t, 0) {
			a, b := x.unreg(t.args[1]), x.unreg(t.args[2])
			return x.mergeVal(t.args[0], a, b)
		}
	}
	return t
}
func (x *Exec) hasReg(t *Term, d int) bool {
	if _, ok := x.reg[t]; ok {
		return true
	}
	if t.op == "ite" && d < 6 {
		return x.hasReg(t.args[1], d+1) || x.hasReg(t.args[2], d+1)
	}
	return false
}

// flat flattens a Val of type t into leaf terms.
func (x *Exec) flat(v Val, t types.Type) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(*StructVal)
		if !ok {
			unsup("flat struct of %T", v)
		}
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.flat(s.F[i], u.Field(i).Type())...)
		}
		return r
	case *types.Slice:
		s := v.(*SliceVal)
		return []*Term{s.arr, s.off, s.ln, s.cp}
	}
	return []*Term{x.scalar(v)}
}

// scalar turns a scalar-like Val into a term.
func (x *Exec) scalar(v Val) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case *Clo:
		var as []*Term
		for i, b := range w.bind {
			as = append(as, x.flat(b, w.fn.FreeVars[i].Type())...)
		}
		t := x.c.App("clo#"+w.fn.String(), "Int", as...)
		if _, ok := x.reg[t]; !ok {
			x.reg[t] = w
			if !t.bound {
				x.addAxiom(x.c.Not(x.c.Eq(t, x.c.Int(0))))
			}
		}
		return t
	case *Ptr:
		if w.kind == 'g' {
			t := x.c.App("gptr#"+w.glob.String()+fmt.Sprint(w.path), "Int")
			if _, ok := x.reg[t]; !ok {
				x.reg[t] = w
				x.addAxiom(x.c.Not(x.c.Eq(t, x.c.Int(0))))
			}
			return t
		}
		as := []*Term{w.ref}
		if w.idx != nil {
			as = append(as, w.idx)
		}
		t := x.c.App(fmt.Sprintf("iptr#%c#%s#%v", w.kind, tstr(w.root), w.path), "Int", as...)
		if _, ok := x.reg[t]; !ok {
			x.reg[t] = w
			x.noteAssume("interior pointer of " + tstr(w.root) + " boxed as an opaque reference")
			if !t.bound {
				x.addAxiom(x.c.Not(x.c.Eq(t, x.c.Int(0))))
			}
		}
		return t
	case *Multi:
		r := x.scalar(w.v[len(w.v)-1])
		for i := len(w.v) - 2; i >= 0; i-- {
			r = x.c.Ite(w.g[i], x.scalar(w.v[i]), r)
		}
		return r
	case *ImmCell:
		if w.ref != nil {
			return w.ref
		}
	case nil:
		unsup("nil value")
	}
	unsup("scalar of %T", v)
	return nil
}

func (x *Exec) mergeVal(g *Term, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return x.c.Ite(g, p, q)
		}
	case *StructVal:
		if q, ok := b.(*StructVal); ok && len(p.F) == len(q.F) {
			s := &StructVal{T: p.T}
			for i := range p.F {
				s.F = append(s.F, x.mergeVal(g, p.F[i], q.F[i]))
			}
			return s
		}
	case *SliceVal:
		if q, ok := b.(*SliceVal); ok {
			return &SliceVal{x.c.Ite(g, p.arr, q.arr), x.c.Ite(g, p.off, q.off), x.c.Ite(g, p.ln, q.ln), x.c.Ite(g, p.cp, q.cp), p.elem}
		}
	case TupleV:
		q := b.(TupleV)
		var r TupleV
		for i := range p {
			r = append(r, x.mergeVal(g, p[i], q[i]))
		}
		return r
	case *Ptr:
		if q, ok := b.(*Ptr); ok && p.kind == q.kind && p.glob == q.glob && fmt.Sprint(p.path) == fmt.Sprint(q.path) && types.Identical(p.root, q.root) {
			r := *p
			r.ref = x.c.Ite(g, p.ref, q.ref)
			if p.idx != nil {
				r.idx = x.c.Ite(g, p.idx, q.idx)
			}
			return &r
		}
	case *Clo:
		if q, ok := b.(*Clo); ok && p.fn == q.fn {
			r := &Clo{fn: p.fn}
			for i := range p.bind {
				r.bind = append(r.bind, x.mergeVal(g, p.bind[i], q.bind[i]))
			}
			return r
		}
	case *IterV:
		return a
	}
	m := &Multi{}
	add := func(g *Term, v Val) {
		if w, ok := v.(*Multi); ok {
			for i := range w.g {
				gg := x.c.And(g, w.g[i])
				if gg != x.c.False {
					m.g = append(m.g, gg)
					m.v = append(m.v, w.v[i])
				}
			}
			return
		}
		if g != x.c.False {
			m.g = append(m.g, g)
			m.v = append(m.v, v)
		}
	}
	add(g, a)
	add(x.c.Not(g), b)
	if len(m.v) == 1 {
		return m.v[0]
	}
	return m
}

// zero value of type t
func (x *Exec) zero(t types.Type) Val {
	return x.build(t, func(l Leaf) *Term { return x.zeroLeaf(l) })
}
func (x *Exec) zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case "Int":
		return x.c.Int(0)
	case "Bool":
		return x.c.False
	case "Str":
		return x.c.StrConst("")
	case "Flt":
		return x.fltConst(0)
	case "Iface":
		return x.nilIface()
	}
	panic(l.sort)
}
func (x *Exec) nilIface() *Term {
	x.c.declared["nil_iface"] = true
	return x.c.mk(&Term{op: "var", name: "nil_iface", sort: "Iface"})
}
func (x *Exec) fltConst(f float64) *Term {
	n := fmt.Sprintf("flt#%v", f)
	if !x.c.declared[n] {
		x.c.declared[n] = true
		x.c.decls = append(x.c.decls, fmt.Sprintf("(declare-fun |%s| () Flt)", n))
	}
	return x.c.mk(&Term{op: "var", name: n, sort: "Flt"})
}

// havocVal creates an unconstrained value of type t with well-typedness facts.
func (x *Exec) havocVal(name string, t types.Type, st *State) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tt.Len(); i++ {
			r = append(r, x.havocVal(fmt.Sprintf("%s.%d", name, i), tt.At(i).Type(), st))
		}
		return r
	}
	v := x.build(t, func(l Leaf) *Term { return x.c.Fresh(name+l.path, l.sort) })
	x.typeFacts(v, t, st)
	return v
}

func isRefT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

const maxLen = int64(1) << 47

// typeFacts emits well-typedness facts about v (type t) in state st.
func (x *Exec) typeFacts(v Val, t types.Type, st *State) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(*StructVal)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.typeFacts(s.F[i], u.Field(i).Type(), st)
		}
	case *types.Slice:
		s := v.(*SliceVal)
		z := x.c.Int(0)
		x.wtFact(x.c.And(x.c.Le(z, s.ln), x.c.Le(s.ln, s.cp), x.c.Le(z, s.off), x.c.Le(x.c.Add(s.off, s.cp), x.c.Int(maxLen)), x.c.Le(z, s.arr),
			x.c.Implies(x.c.Eq(s.arr, z), x.c.Eq(s.cp, z))))
		x.refFact(s.arr, st)
	case *types.Basic:
		if tm, ok := v.(*Term); ok && u.Info()&types.IsInteger != 0 && !isConstTerm(tm) {
			x.rangeFact(tm, t, st)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if tm, ok := v.(*Term); ok {
			x.refFact(tm, st)
		}
	}
}

// seenAt: t was recorded at a node every path to the current one comes through, or
// at one of its ancestors.
func (x *Exec) seenAt(t *Term) bool {
	for _, n := range x.wtSeen[t] {
		if n == nil || x.node != nil && x.node.ancestors()[n] {
			return true
		}
	}
	return false
}

// wtFact records an unguarded well-typedness fact (once).
func (x *Exec) wtFact(t *Term) {
	if t == x.c.True || x.seenAt(t) {
		return
	}
	if t.bound {
		x.bfacts = append(x.bfacts, t)
		return
	}
	if x.dry == 0 {
		x.wtSeen[t] = append(x.wtSeen[t], x.node)
	}
	x.addFact(t)
}

func (x *Exec) rangeFact(tm *Term, t types.Type, st *State) {
	if isConstTerm(tm) || tm.op == "ite" && isConstTerm(tm.args[1]) && isConstTerm(tm.args[2]) {
		return
	}
	lo, hi := intRange(t)
	x.wtFact(x.c.And(x.c.Le(x.c.BigInt(lo), tm), x.c.Le(tm, x.c.BigInt(hi))))
}
func (x *Exec) refFact(tm *Term, st *State) {
	if isConstTerm(tm) {
		return
	}
	if b, _, ok := x.c.baseOff(tm); ok && strings.HasPrefix(b.name, "alloc") {
		return
	}
	if !tm.bound {
		if _, ok := x.c.upper[tm]; !ok && x.alloc0 != nil && initialRead(tm) {
			x.c.upper[tm] = refBound{x.alloc0, 0}
		} else if !ok {
			if b, o, ok := x.c.baseOff(st.alloc); ok && tm != b {
				x.c.upper[tm] = refBound{b, o}
			}
		}
	}
	t := x.c.And(x.c.Le(x.c.Int(0), tm), x.c.Le(tm, st.alloc))
	if tm.bound {
		x.wtFact(t)
		return
	}
	t = x.c.Implies(st.guard, t)
	if !x.seenAt(t) {
		if x.dry == 0 {
			x.wtSeen[t] = append(x.wtSeen[t], x.node)
		}
		x.addFact(t)
	}
}

// initialRead: tm is read from the initial heap.
func initialRead(t *Term) bool {
	for t.op == "select" {
		t = t.args[0]
	}
	return t.op == "var" && strings.HasPrefix(t.name, "H0:")
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	guard *Term
	heap  map[string]*Term
	alloc *Term
	def   *HeapDef
	node  *Node // where the state was left
}

// HeapDef supplies the content of heap maps never touched so far.
type HeapDef struct {
	epoch int
	g     *Term
	a, b  *HeapDef
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, alloc: s.alloc, def: s.def, node: s.node, heap: make(map[string]*Term, len(s.heap)+4)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (x *Exec) defGet(d *HeapDef, key, srt string) *Term {
	if d.g != nil {
		return x.c.Ite(d.g, x.defGet(d.a, key, srt), x.defGet(d.b, key, srt))
	}
	if d.epoch == 0 {
		if v, ok := x.globInit[key]; ok {
			return v
		}
	}
	if strings.HasPrefix(key, "G:") {
		if v, ok := x.globInit[key]; ok && x.w.immutableGlobal(key) {
			return v
		}
	}
	return x.c.Var(fmt.Sprintf("H%d:%s", d.epoch, key), srt)
}

func (x *Exec) hget(st *State, key, srt string) *Term {
	if v, ok := st.heap[key]; ok {
		return v
	}
	x.keySort[key] = srt
	v := x.defGet(st.def, key, srt)
	st.heap[key] = v
	return v
}
func (x *Exec) hset(st *State, key string, v *Term) { x.hsetAt(st, key, v, nil) }
func (x *Exec) newRef(st *State) *Term {
	st.alloc = x.c.Add(st.alloc, x.c.Int(1))
	return st.alloc
}

// ---- heap addressing

func pathStr(t types.Type, path []int) (string, types.Type) {
	s := ""
	for _, i := range path {
		st := t.Underlying().(*types.Struct)
		s += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return s, t
}

type leafLoc struct {
	key  string
	srt  string // sort of heap map
	ref  *Term
	idx  *Term
	leaf Leaf
	imm  Val
}

// locs lists the leaf locations addressed by pointer p to a value of type t.
func (x *Exec) locs(p Val, t types.Type) []leafLoc {
	var pp *Ptr
	switch w := p.(type) {
	case *Term:
		pp = &Ptr{kind: 'o', ref: w, root: t}
	case *Ptr:
		pp = w
	default:
		unsup("pointer %T", p)
	}
	pre, rt := pathStr(pp.root, pp.path)
	if !types.Identical(rt.Underlying(), t.Underlying()) {
		unsup("pointer view %s as %s", rt, t)
	}
	var out []leafLoc
	for _, l := range x.leaves(rt) {
		switch pp.kind {
		case 'o':
			out = append(out, leafLoc{key: "O:" + tstr(pp.root) + ":" + pre + l.path, srt: ArrSort("Int", l.sort), ref: pp.ref, leaf: l})
		case 'e':
			out = append(out, leafLoc{key: "E:" + tstr(pp.root) + ":" + pre + l.path, srt: ArrSort("Int", ArrSort("Int", l.sort)), ref: pp.ref, idx: pp.idx, leaf: l})
		case 'g':
			x.initPkgOf(pp.glob)
			out = append(out, leafLoc{key: "G:" + pp.glob.String() + ":" + pre + l.path, srt: l.sort, leaf: l})
		case 'l':
			out = append(out, leafLoc{key: "L:" + pp.ref.name + ":" + pre + l.path, srt: l.sort, leaf: l})
		}
	}
	return out
}

func (x *Exec) readLoc(st *State, l leafLoc) *Term {
	h := x.hget(st, l.key, l.srt)
	if l.ref == nil || strings.HasPrefix(l.key, "L:") {
		return h
	}
	r := x.c.Select(h, l.ref)
	if l.idx != nil {
		r = x.c.Select(r, l.idx)
	}
	return r
}
func (x *Exec) writeLoc(st *State, l leafLoc, v *Term) {
	h := x.hget(st, l.key, l.srt)
	if l.ref == nil || strings.HasPrefix(l.key, "L:") {
		x.hset(st, l.key, v)
		return
	}
	if l.idx != nil {
		x.hsetAt(st, l.key, x.c.Store(h, l.ref, x.c.Store(x.c.Select(h, l.ref), l.idx, v)), l.ref)
		return
	}
	x.hsetAt(st, l.key, x.c.Store(h, l.ref, v), l.ref)
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch w := p.(type) {
	case *Multi:
		var r Val
		for i := len(w.v) - 1; i >= 0; i-- {
			v := x.load(st, w.v[i], t)
			if r == nil {
				r = v
			} else {
				r = x.mergeVal(w.g[i], v, r)
			}
		}
		return r
	case *ImmCell:
		return w.v
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		unsup("load of array")
	}
	ls := x.locs(p, t)
	i := 0
	v := x.build(t, func(l Leaf) *Term {
		r := x.readLoc(st, ls[i])
		i++
		return r
	})
	x.typeFacts(v, t, st)
	return v
}

// ImmCell is a captured variable that is assigned exactly once.
type ImmCell struct {
	v   Val
	ref *Term
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	if w, ok := p.(*Multi); ok {
		for i := range w.v {
			old := x.load(st, w.v[i], t)
			x.store(st, w.v[i], t, x.mergeVal(w.g[i], v, old))
		}
		return
	}
	if _, ok := p.(*ImmCell); ok {
		unsup("store to immutable cell")
	}
	ls := x.locs(p, t)
	fs := x.flat(v, t)
	for i, l := range ls {
		x.writeLoc(st, l, fs[i])
	}
}

// ---- merging of states

func (x *Exec) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	r := ss[len(ss)-1].clone()
	for i := len(ss) - 2; i >= 0; i-- {
		s := ss[i]
		g := s.guard
		keys := map[string]bool{}
		for k := range r.heap {
			keys[k] = true
		}
		for k := range s.heap {
			keys[k] = true
		}
		n := &State{heap: map[string]*Term{}}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		// discriminate by guard of s relative to the rest
		dg := x.discr(g, r.guard)
		for _, k := range ks {
			var a, b *Term
			if v, ok := s.heap[k]; ok {
				a = v
			} else {
				a = x.defGet(s.def, k, x.keySort[k])
			}
			if v, ok := r.heap[k]; ok {
				b = v
			} else {
				b = x.defGet(r.def, k, x.keySort[k])
			}
			n.heap[k] = x.c.Ite(dg, a, b)
		}
		if s.def == r.def {
			n.def = s.def
		} else {
			n.def = &HeapDef{g: dg, a: s.def, b: r.def}
		}
		n.guard = x.c.Or(g, r.guard)
		n.alloc = x.mergeAlloc(s, r)
		r = n
	}
	return r
}

func (x *Exec) mergeAlloc(s, r *State) *Term {
	if s.alloc == r.alloc {
		return s.alloc
	}
	b1, o1, k1 := x.c.baseOff(s.alloc)
	b2, o2, k2 := x.c.baseOff(r.alloc)
	if k1 && k2 && b1 == b2 {
		if o1 > o2 {
			return s.alloc
		}
		return r.alloc
	}
	a := x.c.Fresh("alloc", "Int")
	x.addFact(x.c.And(x.c.Le(s.alloc, a), x.c.Le(r.alloc, a)))
	if k1 {
		x.c.upper[b1] = refBound{a, -o1}
	}
	if k2 {
		x.c.upper[b2] = refBound{a, -o2}
	}
	return a
}

// discr picks a small condition equivalent to g under (g or r), where g and r are disjoint.
func (x *Exec) discr(g, r *Term) *Term {
	gs, rs := conjs(g), conjs(r)
	rm := map[*Term]bool{}
	for _, t := range rs {
		rm[t] = true
	}
	var rest []*Term
	for _, t := range gs {
		if !rm[t] {
			rest = append(rest, t)
		}
	}
	// if the complement of one remaining conjunct is in r, it discriminates alone
	for _, t := range rest {
		if rm[x.c.Not(t)] {
			return t
		}
	}
	return x.c.And(rest...)
}

// ---- function execution

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Val
	bind []Val
	id   int
}

type edgeIn struct {
	pred *ssa.BasicBlock
	st   *State
}

type retInfo struct {
	st   *State
	vals []Val
}

func (x *Exec) val(f *frame, v ssa.Value) Val {
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(w)
	case *ssa.Function:
		return &Clo{fn: w}
	case *ssa.Global:
		return &Ptr{kind: 'g', glob: w, root: w.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return w
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == w {
				return f.bind[i]
			}
		}
	}
	r, ok := f.env[v]
	if !ok {
		unsup("value %s (%T) not available in %s", v.Name(), v, f.fn)
	}
	return r
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("const type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		bi, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("int const %s", v)
		}
		return x.c.BigInt(bi)
	case b.Info()&types.IsString != 0:
		return x.c.StrConst(constant.StringVal(k.Value))
	case b.Info()&types.IsFloat != 0:
		fv, _ := constant.Float64Val(k.Value)
		return x.fltConst(fv)
	}
	unsup("const %s", k)
	return nil
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	r := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return r
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	loops := findLoops(fn)
	// order successors so that loop exits come after loop bodies: visit exits first in DFS
	inner := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		var best *loopInfo
		for _, l := range loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		if best == nil {
			return nil
		}
		return best.blocks
	}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		lb := inner(b)
		var exits, ins []*ssa.BasicBlock
		for _, s := range b.Succs {
			if lb != nil && !lb[s] {
				exits = append(exits, s)
			} else {
				ins = append(ins, s)
			}
		}
		for _, s := range append(exits, ins...) {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// run executes fn's body. Returns merged return values and state (nil state if it never returns).
func (x *Exec) run(fn *ssa.Function, args []Val, bind []Val, st *State) ([]Val, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 60 {
		if os.Getenv("GOWP_TRACE") != "" {
			debug.PrintStack()
		}
		unsup("inlining too deep at %s", fn)
	}
	x.frames++
	f := &frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, id: x.frames}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	var rets []retInfo
	order := rpo(fn)
	inLoop := findLoops(fn)
	st = st.clone()
	st.node = x.node
	x.region(f, order, inLoop, fn.Blocks[0], []edgeIn{{nil, st}}, nil, &rets, nil)
	if len(rets) == 0 {
		return nil, nil
	}
	// merge returns
	var ss []*State
	for _, r := range rets {
		ss = append(ss, r.st)
	}
	x.join(ss)
	lpre, vpre := fmt.Sprintf("L:local!%d!", f.id), fmt.Sprintf("V:%d:", f.id)
	for _, s := range ss {
		for k := range s.heap {
			if strings.HasPrefix(k, lpre) || strings.HasPrefix(k, vpre) {
				delete(s.heap, k)
			}
		}
	}
	vals := append([]Val{}, rets[len(rets)-1].vals...)
	acc := rets[len(rets)-1].st.guard
	for i := len(rets) - 2; i >= 0; i-- {
		dg := x.discr(rets[i].st.guard, acc)
		for j := range vals {
			vals[j] = x.mergeVal(dg, rets[i].vals[j], vals[j])
		}
		acc = x.c.Or(rets[i].st.guard, acc)
	}
	m := x.mergeStates(ss)
	m.node = x.node
	return vals, m
}

// region executes the blocks of order that belong to set (nil = all), starting at entry.
// Edges leaving set are appended to exits. Back edges to `entry` (when entry is a loop
// header being processed) are appended to backs.
type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (x *Exec) region(f *frame, order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo, entry *ssa.BasicBlock, in0 []edgeIn, set map[*ssa.BasicBlock]bool, rets *[]retInfo, lp *loopRun) []exitEdge {
	in := map[*ssa.BasicBlock][]edgeIn{entry: in0}
	var exits []exitEdge
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if set != nil && !set[b] {
			continue
		}
		if done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		route := func(from, to *ssa.BasicBlock, st *State) {
			if st.guard == x.c.False {
				return
			}
			if lp != nil && to == entry {
				lp.backs = append(lp.backs, edgeIn{from, st})
				return
			}
			if set != nil && !set[to] {
				exits = append(exits, exitEdge{from, to, st})
				return
			}
			if done[to] {
				unsup("irreducible control flow in %s", f.fn)
			}
			in[to] = append(in[to], edgeIn{from, st})
		}
		if l, ok := loops[b]; ok && !(lp != nil && b == entry) {
			// whole inner loop
			var ex []exitEdge
			if x.unrolls(f, l) {
				ex = x.unrolled(f, order, loops, l, es, rets)
			} else {
				ex = x.loop(f, order, loops, l, es, rets)
			}
			for lb := range l.blocks {
				done[lb] = true
			}
			for _, e := range ex {
				route(e.from, e.to, e.st)
			}
			continue
		}
		done[b] = true
		st := x.enter(f, b, es, lp != nil && b == entry)
		x.block(f, b, st, route, rets)
	}
	return exits
}

// enter merges incoming edges and evaluates phis (unless phis were set by the loop machinery).
func (x *Exec) enter(f *frame, b *ssa.BasicBlock, es []edgeIn, phisSet bool) *State {
	var in []*State
	for _, e := range es {
		in = append(in, e.st)
	}
	x.join(in)
	if !phisSet {
		var names []*ssa.Phi
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				names = append(names, p)
			} else {
				break
			}
		}
		newv := make([]Val, len(names))
		for pi, p := range names {
			var r Val
			var acc *Term
			for i := len(es) - 1; i >= 0; i-- {
				e := es[i]
				var v Val
				for k, pr := range b.Preds {
					if pr == e.pred {
						v = x.val(f, p.Edges[k])
						break
					}
				}
				if r == nil {
					r = v
					acc = e.st.guard
				} else {
					r = x.mergeVal(x.discr(e.st.guard, acc), v, r)
					acc = x.c.Or(e.st.guard, acc)
				}
			}
			newv[pi] = r
		}
		for pi, p := range names {
			f.env[p] = newv[pi]
		}
	}
	var ss []*State
	for _, e := range es {
		ss = append(ss, e.st)
	}
	var r *State
	if len(ss) == 1 {
		r = ss[0].clone()
	} else {
		r = x.mergeStates(ss)
	}
	r.node = x.node
	return r
}

func (x *Exec) block(f *frame, b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, st *State), rets *[]retInfo) {
	for _, in := range b.Instrs {
		if st.guard == x.c.False {
			return
		}
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			st.node = x.node
			route(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := x.val(f, i.Cond).(*Term)
			st.node = x.node
			s2 := st.clone()
			st.guard = x.andGuard(st.guard, c)
			s2.guard = x.andGuard(s2.guard, x.c.Not(c))
			if b.Succs[0] == b.Succs[1] {
				unsup("degenerate if")
			}
			route(b, b.Succs[0], st)
			route(b, b.Succs[1], s2)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.val(f, r))
			}
			st.node = x.node
			*rets = append(*rets, retInfo{st, vs})
			return
		case *ssa.Panic:
			x.obl(st, "no-panic", "explicit panic unreachable", x.c.False, in.Pos())
			return
		default:
			st = x.instr(f, in, st)
			if st == nil {
				return
			}
		}
	}
}

// andGuard conjoins a branch condition, dropping statically infeasible branches.
func (x *Exec) andGuard(g, c *Term) *Term {
	return x.c.And(g, c)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.w.prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (x *Exec) nilCheck(st *State, p Val, pos token.Pos) {
	switch w := p.(type) {
	case *Term:
		x.obl(st, "nil-deref", "pointer not nil", x.c.Not(x.c.Eq(w, x.c.Int(0))), pos)
	case *Multi:
		for i := range w.v {
			s2 := &State{guard: x.c.And(st.guard, w.g[i]), heap: st.heap, alloc: st.alloc, def: st.def}
			x.nilCheck(s2, w.v[i], pos)
		}
	}
}

func (x *Exec) ptrField(p Val, st types.Type, i int) Val {
	switch w := p.(type) {
	case *Term:
		return &Ptr{kind: 'o', ref: w, root: st, path: []int{i}}
	case *Ptr:
		n := *w
		n.path = append(append([]int{}, w.path...), i)
		return &n
	case *Multi:
		m := &Multi{}
		for k := range w.v {
			m.g = append(m.g, w.g[k])
			m.v = append(m.v, x.ptrField(w.v[k], st, i))
		}
		return m
	case *ImmCell:
		return &ImmCell{v: w.v.(*StructVal).F[i]}
	}
	unsup("fieldaddr of %T", p)
	return nil
}

func (x *Exec) instr(f *frame, in ssa.Instruction, st *State) *State {
	c := x.c
	set := func(v Val) { f.env[in.(ssa.Value)] = v }
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			ref := x.newRef(st)
			for _, l := range x.leaves(at.Elem()) {
				key := "E:" + tstr(at.Elem()) + ":" + l.path
				srt := ArrSort("Int", ArrSort("Int", l.sort))
				h := x.hget(st, key, srt)
				x.hsetAt(st, key, c.Store(h, ref, c.ConstArr(ArrSort("Int", l.sort), x.zeroLeaf(l))), ref)
			}
			set(ref)
			return st
		}
		if localOnly(i) {
			p := &Ptr{kind: 'l', ref: c.Var(fmt.Sprintf("local!%d!%s!%d", f.id, i.Comment, i.Pos()), "Int"), root: t}
			x.store(st, p, t, x.zero(t))
			set(p)
			return st
		}
		ref := x.newRef(st)
		x.store(st, ref, t, x.zero(t))
		set(ref)
	case *ssa.FieldAddr:
		p := x.val(f, i.X)
		x.nilCheck(st, p, i.Pos())
		set(x.ptrField(p, i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field))
	case *ssa.Field:
		s, ok := x.val(f, i.X).(*StructVal)
		if !ok {
			unsup("field of %T", x.val(f, i.X))
		}
		set(s.F[i.Field])
	case *ssa.IndexAddr:
		idx := x.val(f, i.Index).(*Term)
		switch xt := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(f, i.X).(*SliceVal)
			x.obl(st, "index", "slice index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, s.ln)), i.Pos())
			set(&Ptr{kind: 'e', ref: s.arr, idx: c.Add(s.off, idx), root: xt.Elem()})
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			x.obl(st, "index", "array index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))), i.Pos())
			set(&Ptr{kind: 'e', ref: x.val(f, i.X).(*Term), idx: idx, root: at.Elem()})
		default:
			unsup("indexaddr %s", i.X.Type())
		}
	case *ssa.Index:
		if isStringT(i.X.Type()) {
			s := x.val(f, i.X).(*Term)
			idx := x.val(f, i.Index).(*Term)
			x.obl(st, "index", "string index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, x.slen(s))), i.Pos())
			v := x.sat(s, idx)
			set(v)
			return st
		}
		unsup("index of %s", i.X.Type())
	case *ssa.Lookup:
		if isStringT(i.X.Type()) {
			s := x.val(f, i.X).(*Term)
			idx := x.val(f, i.Index).(*Term)
			x.obl(st, "index", "string index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, x.slen(s))), i.Pos())
			set(x.sat(s, idx))
			return st
		}
		mt := i.X.Type().Underlying().(*types.Map)
		m := x.val(f, i.X).(*Term)
		k := x.mapKey(x.val(f, i.Index), mt)
		has := x.mapHas(st, m, mt, k)
		v := x.mapVal(st, m, mt, k)
		v = x.mergeVal(has, v, x.zero(mt.Elem()))
		if i.CommaOk {
			set(TupleV{v, has})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		m := x.val(f, i.Map).(*Term)
		x.obl(st, "nil-map", "map not nil", c.Not(c.Eq(m, c.Int(0))), i.Pos())
		k := x.mapKey(x.val(f, i.Key), mt)
		x.mapSet(st, m, mt, k, x.val(f, i.Value))
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		ref := x.newRef(st)
		x.mapInit(st, ref, mt)
		set(ref)
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		ln := x.val(f, i.Len).(*Term)
		cp := x.val(f, i.Cap).(*Term)
		x.obl(st, "makeslice", "make len/cap valid", c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), i.Pos())
		x.addFact(c.Implies(st.guard, c.Le(cp, c.Int(maxLen))))
		ref := x.newRef(st)
		for _, l := range x.leaves(et) {
			key := "E:" + tstr(et) + ":" + l.path
			srt := ArrSort("Int", ArrSort("Int", l.sort))
			h := x.hget(st, key, srt)
			x.hsetAt(st, key, c.Store(h, ref, c.ConstArr(ArrSort("Int", l.sort), x.zeroLeaf(l))), ref)
		}
		set(&SliceVal{ref, c.Int(0), ln, cp, et})
	case *ssa.Slice:
		set(x.sliceOp(f, i, st))
	case *ssa.Store:
		p := x.val(f, i.Addr)
		x.nilCheck(st, p, i.Pos())
		x.store(st, p, i.Val.Type(), x.val(f, i.Val))
	case *ssa.UnOp:
		set(x.unop(f, i, st))
	case *ssa.BinOp:
		set(x.binop(i.Op, x.val(f, i.X), x.val(f, i.Y), i.X.Type(), i.Y.Type(), st, i.Pos()))
	case *ssa.ChangeInterface:
		set(x.val(f, i.X))
	case *ssa.ChangeType:
		set(retype(x.val(f, i.X), i.Type()))
	case *ssa.Convert:
		set(x.convert(x.val(f, i.X), i.X.Type(), i.Type(), st))
	case *ssa.MakeInterface:
		if x.spec == 0 {
			if p := x.typeInv(x.val(f, i.X), i.X.Type(), st); p != nil {
				x.obl(st, "type-invariant", "invariant of "+tstr(i.X.Type()), p, i.Pos())
			}
		}
		set(x.box(x.val(f, i.X), i.X.Type()))
	case *ssa.MakeClosure:
		cl := &Clo{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			cl.bind = append(cl.bind, x.bindVal(f, i, b, st))
		}
		set(cl)
	case *ssa.TypeAssert:
		set(x.typeAssert(f, i, st))
	case *ssa.Extract:
		tv, ok := x.val(f, i.Tuple).(TupleV)
		if !ok {
			unsup("extract of %T", x.val(f, i.Tuple))
		}
		set(tv[i.Index])
	case *ssa.Range:
		if isStringT(i.X.Type()) {
			unsup("range over string")
		}
		mt := i.X.Type().Underlying().(*types.Map)
		m := x.val(f, i.X).(*Term)
		key := fmt.Sprintf("V:%d:%s", f.id, i.Name())
		ks := x.keySortOf(mt)
		x.hget(st, key, ArrSort(ks, "Bool"))
		x.hset(st, key, c.ConstArr(ArrSort(ks, "Bool"), c.False))
		x.hget(st, key+"#n", "Int")
		x.hset(st, key+"#n", c.Int(0))
		set(&IterV{m: m, mt: mt, key: key, has0: x.mapHasArr(st, m, mt)})
	case *ssa.Next:
		if i.IsString {
			unsup("range over string")
		}
		it := x.val(f, i.Iter).(*IterV)
		ks := x.keySortOf(it.mt)
		ok := c.Fresh("next.ok", "Bool")
		k := c.Fresh("next.k", ks)
		if b, isB := it.mt.Key().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
			x.rangeFact(k, it.mt.Key(), st)
		}
		vis := x.hget(st, it.key, ArrSort(ks, "Bool"))
		has := x.mapHasArr(st, it.m, it.mt)
		x.fact(st, c.Implies(ok, c.And(c.Select(has, k), c.Not(c.Select(vis, k)))))
		bv := c.BV("k", ks)
		x.fact(st, c.Implies(c.Not(ok), c.Forall([]*Term{bv}, c.Implies(c.Select(has, bv), c.Select(vis, bv)), []*Term{c.Select(has, bv)}, []*Term{c.Select(vis, bv)})))
		v := x.mapVal(st, it.m, it.mt, k)
		x.hset(st, it.key, c.Ite(ok, c.Store(vis, k, c.True), vis))
		// the number of iterations is the number of entries as long as the map stays the same
		cnt := x.hget(st, it.key+"#n", "Int")
		ml := x.mapLen(st, it.m, it.mt)
		same := c.Eq(has, it.has0)
		x.fact(st, c.And(c.Le(c.Int(0), cnt), c.Implies(same, c.Ite(ok, c.Lt(cnt, ml), c.Eq(cnt, ml)))))
		x.hset(st, it.key+"#n", c.Ite(ok, c.Add(cnt, c.Int(1)), cnt))
		set(TupleV{ok, k, v})
	case *ssa.Call:
		vals, ns := x.callInstr(f, i, &i.Call, st)
		if ns == nil {
			return nil
		}
		if vals != nil {
			set(x.pack(vals, i.Type()))
		}
		return ns
	default:
		unsup("instruction %T at %s", in, x.pos(in.Pos()))
	}
	return st
}

func (x *Exec) pack(vals []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return TupleV{}
		}
		return TupleV(vals)
	}
	if len(vals) == 0 {
		return TupleV{}
	}
	return vals[0]
}

func retype(v Val, t types.Type) Val {
	switch w := v.(type) {
	case *StructVal:
		return &StructVal{T: t, F: w.F}
	}
	return v
}

// localOnly: an Alloc whose address never escapes the load/store/field chain.
func localOnly(a *ssa.Alloc) bool {
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if i.Val == v {
					return false
				}
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(i) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a)
}

// bindVal evaluates a closure binding; variables assigned exactly once before capture are captured by value.
func (x *Exec) bindVal(f *frame, mc *ssa.MakeClosure, b ssa.Value, st *State) Val {
	a, ok := b.(*ssa.Alloc)
	if !ok {
		return x.val(f, b)
	}
	v := x.val(f, b)
	if _, isImm := v.(*ImmCell); isImm {
		return v
	}
	var stores []*ssa.Store
	okc := true
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			if i.Addr != a {
				okc = false
			}
			stores = append(stores, i)
		case *ssa.MakeClosure:
			if !freeVarReadOnly(i, a) {
				okc = false
			}
		default:
			okc = false
		}
	}
	if okc && len(stores) == 1 && stores[0].Parent() == mc.Parent() && (stores[0].Block() == mc.Block() && before(stores[0], mc) || stores[0].Block() != mc.Block() && stores[0].Block().Dominates(mc.Block())) {
		ref, _ := v.(*Term)
		t := a.Type().(*types.Pointer).Elem()
		return &ImmCell{v: x.load(st, v, t), ref: ref}
	}
	return v
}
func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}
func freeVarReadOnly(mc *ssa.MakeClosure, a ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != a {
			continue
		}
		fv := fn.FreeVars[i]
		for _, r := range *fv.Referrers() {
			switch j := r.(type) {
			case *ssa.DebugRef, *ssa.UnOp:
			case *ssa.FieldAddr:
				for _, r2 := range *j.Referrers() {
					switch r2.(type) {
					case *ssa.DebugRef, *ssa.UnOp:
					default:
						return false
					}
				}
			case *ssa.MakeClosure:
				if !freeVarReadOnly(j, fv) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (x *Exec) slen(s *Term) *Term {
	if s.op == "strc" {
		for k, v := range x.c.strs {
			if v == s {
				return x.c.Int(int64(len(k)))
			}
		}
	}
	if s.op == "ite" && (s.args[1].op == "strc" || s.args[2].op == "strc") {
		return x.c.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	return x.c.mk(&Term{op: "slen", args: []*Term{s}, sort: "Int"})
}
func (x *Exec) sat(s, i *Term) *Term {
	return x.c.mk(&Term{op: "sat", args: []*Term{s, i}, sort: "Int"})
}
func (x *Exec) substr(s, a, b *Term) *Term {
	if a == b {
		return x.c.StrConst("")
	}
	if a.op == "int" && a.ival.Sign() == 0 && b == x.slen(s) {
		return s
	}
	return x.c.mk(&Term{op: "substr", args: []*Term{s, a, b}, sort: "Str"})
}
func (x *Exec) scat(a, b *Term) *Term {
	e := x.c.StrConst("")
	if a == e {
		return b
	}
	if b == e {
		return a
	}
	return x.c.mk(&Term{op: "scat", args: []*Term{a, b}, sort: "Str"})
}

func (x *Exec) sliceOp(f *frame, i *ssa.Slice, st *State) Val {
	c := x.c
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.val(f, v).(*Term)
	}
	z := c.Int(0)
	if isStringT(i.X.Type()) {
		s := x.val(f, i.X).(*Term)
		lo, hi := get(i.Low, z), get(i.High, x.slen(s))
		x.obl(st, "slice", "string slice bounds", c.And(c.Le(z, lo), c.Le(lo, hi), c.Le(hi, x.slen(s))), i.Pos())
		return x.substr(s, lo, hi)
	}
	var s *SliceVal
	switch xt := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s = x.val(f, i.X).(*SliceVal)
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		r, ok := x.val(f, i.X).(*Term)
		if !ok {
			unsup("slice of array pointer")
		}
		s = &SliceVal{r, z, c.Int(at.Len()), c.Int(at.Len()), at.Elem()}
	}
	lo, hi := get(i.Low, z), get(i.High, s.ln)
	mx := get(i.Max, s.cp)
	x.obl(st, "slice", "slice bounds", c.And(c.Le(z, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.cp)), i.Pos())
	return &SliceVal{s.arr, c.Add(s.off, lo), c.Sub(hi, lo), c.Sub(mx, lo), s.elem}
}

func (x *Exec) unop(f *frame, i *ssa.UnOp, st *State) Val {
	c := x.c
	v := x.val(f, i.X)
	switch i.Op {
	case token.MUL:
		x.nilCheck(st, v, i.Pos())
		return x.load(st, v, i.X.Type().Underlying().(*types.Pointer).Elem())
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		if isFloatT(i.X.Type()) {
			return c.App("fneg", "Flt", v.(*Term))
		}
		return x.wrap(c.Neg(v.(*Term)), i.X.Type())
	case token.XOR:
		t := c.Sub(c.Neg(v.(*Term)), c.Int(1))
		return x.wrap(t, i.X.Type())
	}
	unsup("unop %s", i.Op)
	return nil
}

// wrap reduces the exact result r of an add/sub/neg on t-typed operands to t.
func (x *Exec) wrap(r *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if r.op == "int" {
		m := new(big.Int).Sub(r.ival, lo)
		sz := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		m.Mod(m, sz)
		return x.c.BigInt(m.Add(m, lo))
	}
	sz := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	c := x.c
	if x.mathInt(t) {
		return r
	}
	// static bound from ranges
	l, h, ok := x.bounds(r)
	if ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	if lo.Cmp(big.NewInt(-1<<31)) == 0 && hi.IsInt64() && hi.Int64() == 1<<31-1 {
		return x.wrap32(r)
	}
	if !ok || h.Cmp(hi) > 0 {
		if !ok || l.Cmp(lo) < 0 {
			return c.Ite(c.Lt(c.BigInt(hi), r), c.Sub(r, c.BigInt(sz)), c.Ite(c.Lt(r, c.BigInt(lo)), c.Add(r, c.BigInt(sz)), r))
		}
		return c.Ite(c.Lt(c.BigInt(hi), r), c.Sub(r, c.BigInt(sz)), r)
	}
	return c.Ite(c.Lt(r, c.BigInt(lo)), c.Add(r, c.BigInt(sz)), r)
}

// bounds computes a cheap static interval of an integer term.
func (x *Exec) bounds(t *Term) (*big.Int, *big.Int, bool) {
	switch t.op {
	case "int":
		return t.ival, t.ival, true
	case "slen":
		return big.NewInt(0), big.NewInt(maxLen), true
	case "sat":
		return big.NewInt(0), big.NewInt(255), true
	case "+":
		l, h := big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			al, ah, ok := x.bounds(a)
			if !ok {
				return nil, nil, false
			}
			l = new(big.Int).Add(l, al)
			h = new(big.Int).Add(h, ah)
		}
		return l, h, true
	case "*":
		if t.args[0].op == "int" {
			al, ah, ok := x.bounds(t.args[1])
			if !ok {
				return nil, nil, false
			}
			p, q := new(big.Int).Mul(t.args[0].ival, al), new(big.Int).Mul(t.args[0].ival, ah)
			if p.Cmp(q) > 0 {
				p, q = q, p
			}
			return p, q, true
		}
	case "ite":
		al, ah, ok := x.bounds(t.args[1])
		bl, bh, ok2 := x.bounds(t.args[2])
		if ok && ok2 {
			if bl.Cmp(al) < 0 {
				al = bl
			}
			if bh.Cmp(ah) > 0 {
				ah = bh
			}
			return al, ah, true
		}
	}
	if r, ok := x.lenTerms[t]; ok && r {
		return big.NewInt(0), big.NewInt(maxLen), true
	}
	return nil, nil, false
}

func (x *Exec) binop(op token.Token, a, b Val, ta, tb types.Type, st *State, pos token.Pos) Val {
	c := x.c
	switch op {
	case token.EQL:
		return x.eq(a, b, ta, tb, st, pos)
	case token.NEQ:
		return c.Not(x.eq(a, b, ta, tb, st, pos))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", op, a)
	}
	if isStringT(ta) {
		switch op {
		case token.ADD:
			return x.scat(p, q)
		case token.LSS:
			return x.strLt(p, q)
		case token.GTR:
			return x.strLt(q, p)
		case token.LEQ:
			return c.Not(x.strLt(q, p))
		case token.GEQ:
			return c.Not(x.strLt(p, q))
		}
	}
	if isFloatT(ta) {
		switch op {
		case token.ADD:
			return c.App("fadd", "Flt", p, q)
		case token.SUB:
			return c.App("fsub", "Flt", p, q)
		case token.MUL:
			return c.App("fmul", "Flt", p, q)
		case token.QUO:
			return c.App("fdiv", "Flt", p, q)
		case token.LSS:
			return c.App("flt", "Bool", p, q)
		case token.GTR:
			return c.App("flt", "Bool", q, p)
		case token.LEQ:
			return c.App("fle", "Bool", p, q)
		case token.GEQ:
			return c.App("fle", "Bool", q, p)
		}
	}
	if isIntT(ta) {
		switch op {
		case token.ADD:
			return x.wrap(c.Add(p, q), ta)
		case token.SUB:
			return x.wrap(c.Sub(p, q), ta)
		case token.MUL:
			if p.op == "int" || q.op == "int" {
				return x.wrapMod(c.Mul(p, q), ta)
			}
			return x.wrapMod(c.Mul(p, q), ta)
		case token.LSS:
			return c.Lt(p, q)
		case token.GTR:
			return c.Lt(q, p)
		case token.LEQ:
			return c.Le(p, q)
		case token.GEQ:
			return c.Le(q, p)
		case token.QUO, token.REM:
			x.obl(st, "div-zero", "divisor not zero", c.Not(c.Eq(q, c.Int(0))), pos)
			// truncated division
			if op == token.QUO {
				return x.wrap(x.tdiv(p, q), ta)
			}
			return c.Sub(p, c.Mul(q, x.tdiv(p, q)))
		case token.SHL, token.SHR:
			if q.op == "int" && q.ival.IsInt64() && q.ival.Int64() < 64 {
				k := c.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64())))
				if op == token.SHL {
					return x.wrapMod(c.Mul(k, p), ta)
				}
				return c.Div(p, k)
			}
		}
		if op == token.AND || op == token.OR || op == token.XOR || op == token.SHL || op == token.SHR {
			n := map[token.Token]string{token.AND: "iand", token.OR: "ior", token.XOR: "ixor", token.SHL: "ishl", token.SHR: "ishr"}[op]
			r := c.mk(&Term{op: n, args: []*Term{p, q}, sort: "Int"})
			x.rangeFact(r, ta, st)
			return r
		}
	}
	unsup("binop %s on %s", op, ta)
	return nil
}
func (x *Exec) strLt(a, b *Term) *Term {
	return x.c.mk(&Term{op: "slt", args: []*Term{a, b}, sort: "Bool"})
}
func (x *Exec) tdiv(p, q *Term) *Term {
	c := x.c
	if l, _, ok := x.bounds(p); ok && l.Sign() >= 0 && q.op == "int" && q.ival.Sign() > 0 {
		return c.Div(p, q)
	}
	z := c.Int(0)
	return c.Ite(c.Le(z, p), c.Ite(c.Le(z, q), c.Div(p, q), c.Neg(c.Div(p, c.Neg(q)))),
		c.Ite(c.Le(z, q), c.Neg(c.Div(c.Neg(p), q)), c.Div(c.Neg(p), c.Neg(q))))
}
// wrap32 is the 32-bit signed number equal to r modulo 2^32.
func (x *Exec) wrap32(r *Term) *Term {
	c := x.c
	if !c.declared["wrap32"] {
		v := c.BV("v", "Int")
		w := c.App("wrap32", "Int", v)
		q := c.App("wrap32q", "Int", v)
		p := [][]*Term{{w}}
		lo, hi := c.Int(-1<<31), c.Int(1<<31-1)
		x.addAxiom(c.mk(&Term{op: "forall", bvs: []*Term{v}, args: []*Term{c.And(c.Le(lo, w), c.Le(w, hi))}, sort: "Bool", pats: p}))
		x.addAxiom(c.mk(&Term{op: "forall", bvs: []*Term{v}, args: []*Term{c.Or(c.Lt(v, lo), c.Lt(hi, v), c.Eq(w, v))}, sort: "Bool", pats: p}))
		x.addAxiom(c.mk(&Term{op: "forall", bvs: []*Term{v}, args: []*Term{c.Eq(v, c.Add(w, c.Mul(c.Int(1<<32), q)))}, sort: "Bool", pats: p}))
	}
	return c.App("wrap32", "Int", r)
}

func (x *Exec) wrapMod(r *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	c := x.c
	if x.mathInt(t) {
		return r
	}
	if l, h, ok := x.bounds(r); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	if lo.Cmp(big.NewInt(-1<<31)) == 0 && hi.IsInt64() && hi.Int64() == 1<<31-1 {
		return x.wrap32(r)
	}
	sz := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	inr := c.And(c.Le(c.BigInt(lo), r), c.Le(r, c.BigInt(hi)))
	if lo.Sign() == 0 {
		return c.Ite(inr, r, c.Mod(r, c.BigInt(sz)))
	}
	return c.Ite(inr, r, c.Add(c.Mod(c.Sub(r, c.BigInt(lo)), c.BigInt(sz)), c.BigInt(lo)))
}

// eq is Go equality of two values.
func (x *Exec) eq(a, b Val, ta, tb types.Type, st *State, pos token.Pos) *Term {
	c := x.c
	ia, ib := isIfaceT(ta), isIfaceT(tb)
	if ia && !ib {
		b = x.box(b, tb)
		tb = ta
	} else if ib && !ia {
		a = x.box(a, ta)
		ta = tb
	}
	if ia || ib {
		p, q := a.(*Term), b.(*Term)
		x.comparable(p, q, st, pos)
		return x.ifaceEq(p, q)
	}
	switch u := ta.Underlying().(type) {
	case *types.Struct:
		p, q := a.(*StructVal), b.(*StructVal)
		r := []*Term{}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = append(r, x.eq(p.F[i], q.F[i], ft, ft, st, pos))
		}
		return c.And(r...)
	case *types.Slice:
		// comparison with nil only
		p, q := a.(*SliceVal), b.(*SliceVal)
		if q.arr == c.Int(0) {
			return c.Eq(p.arr, c.Int(0))
		}
		if p.arr == c.Int(0) {
			return c.Eq(q.arr, c.Int(0))
		}
		unsup("slice comparison")
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return c.App("feq", "Bool", a.(*Term), b.(*Term))
		}
	}
	// pointers: ImmCell/Ptr
	return c.Eq(x.scalar(a), x.scalar(b))
}

// ifaceEq: Go == on interface values (uncomparable dynamic types excluded by obligation).
func (x *Exec) ifaceEq(p, q *Term) *Term {
	c := x.c
	if p == x.nilIface() || q == x.nilIface() {
		return c.Eq(p, q)
	}
	// floats: boxed RealValue compare with feq; approximate via uninterpreted when tag may be float-bearing
	if isBoxLike(p) || isBoxLike(q) {
		n := p
		if !isBoxLike(p) {
			n = q
		}
		if t := x.w.boxType[n.name]; t != nil && hasFloat(t) {
			o := q
			if n == q {
				o = p
			}
			return c.And(c.Eq(x.tag(o), x.tag(n)), x.boxEqLeaves(n, o, t))
		}
		return c.Eq(p, q)
	}
	return c.Ite(x.anyFloat(p), c.App("ifeq", "Bool", p, q), c.Eq(p, q))
}
func (x *Exec) anyFloat(p *Term) *Term {
	var r []*Term
	for _, n := range x.w.boxOrder {
		if hasFloat(x.w.boxType[n]) {
			r = append(r, x.c.Eq(x.tag(p), x.c.Int(int64(x.w.boxTag[n]))))
		}
	}
	return x.c.Or(r...)
}
func (x *Exec) boxEqLeaves(n, o *Term, t types.Type) *Term {
	var r []*Term
	for i, l := range x.leaves(t) {
		s := x.sel(o, t, i)
		if l.sort == "Flt" {
			r = append(r, x.c.App("feq", "Bool", n.args[i], s))
		} else {
			r = append(r, x.c.Eq(n.args[i], s))
		}
	}
	return x.c.And(r...)
}
func hasFloat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFloat(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// comparable emits the obligation that == does not panic on uncomparable dynamic types.
func (x *Exec) comparable(p, q *Term, st *State, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	c := x.c
	if p == x.nilIface() || q == x.nilIface() {
		return
	}
	bad := func(t *Term) *Term {
		var r []*Term
		for _, n := range x.w.boxOrder {
			if !types.Comparable(x.w.boxType[n]) || hasIfaceLeaf(x.w.boxType[n]) {
				r = append(r, c.Eq(x.tag(t), c.Int(int64(x.w.boxTag[n]))))
			}
		}
		return c.Or(r...)
	}
	// panics only if both have the same uncomparable dynamic type
	x.obl(st, "uncomparable", "interface comparison does not panic", c.Not(c.And(c.Eq(x.tag(p), x.tag(q)), bad(p))), pos)
}
func hasIfaceLeaf(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasIfaceLeaf(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// ---- boxing

func (x *Exec) tag(t *Term) *Term {
	if isBoxLike(t) {
		if t.name == "nil_iface" {
			return x.c.Int(0)
		}
		return x.c.Int(int64(x.w.boxTag[t.name]))
	}
	if t.op == "ite" {
		return x.c.Ite(t.args[0], x.tag(t.args[1]), x.tag(t.args[2]))
	}
	return x.c.mk(&Term{op: "tag", args: []*Term{t}, sort: "Int"})
}

func (x *Exec) boxName(t types.Type) string {
	n := "box#" + tstr(t)
	x.w.mu.Lock()
	defer x.w.mu.Unlock()
	if _, ok := x.w.boxTag[n]; !ok {
		x.w.boxTag[n] = len(x.w.boxTag) + 1
		x.w.boxType[n] = t
		x.w.boxOrder = append(x.w.boxOrder, n)
	}
	return n
}

func (x *Exec) boxAxioms(t types.Type) string {
	n := x.boxName(t)
	if x.boxDecl[n] {
		return n
	}
	x.boxDecl[n] = true
	c := x.c
	ls := x.leaves(t)
	tagv := c.Int(int64(x.w.boxTag[n]))
	if len(ls) == 0 {
		b := c.Var(n, "Iface")
		v := c.BV("v", "Iface")
		c.axioms = append(c.axioms, fmt.Sprintf("(assert (= (tag |%s|) %s))", b.name, c.Show(tagv)))
		x.addAxiom(c.Forall([]*Term{v}, c.Implies(c.Eq(x.tag(v), tagv), c.Eq(v, b)), []*Term{x.tag(v)}))
		return n
	}
	var bvs []*Term
	for _, l := range ls {
		bvs = append(bvs, c.BV("b", l.sort))
	}
	b := c.App(n, "Iface", bvs...)
	// raw terms, bypassing simplification
	rawtag := c.mk(&Term{op: "tag", args: []*Term{b}, sort: "Int"})
	var cs []*Term
	cs = append(cs, c.mk(&Term{op: "=", args: []*Term{rawtag, tagv}, sort: "Bool"}))
	for i, l := range ls {
		s := c.App(selName(t, i), l.sort, b)
		cs = append(cs, c.mk(&Term{op: "=", args: []*Term{s, bvs[i]}, sort: "Bool"}))
	}
	x.addAxiom(c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{c.And(cs...)}, sort: "Bool", pats: [][]*Term{{b}}}))
	v := c.BV("v", "Iface")
	var ss []*Term
	for i, l := range ls {
		ss = append(ss, c.App(selName(t, i), l.sort, v))
	}
	x.addAxiom(c.Forall([]*Term{v}, c.Implies(c.Eq(x.tag(v), tagv), c.mk(&Term{op: "=", args: []*Term{v, c.App(n, "Iface", ss...)}, sort: "Bool"})), []*Term{ss[0]}))
	return n
}

func selName(t types.Type, i int) string { return fmt.Sprintf("sel#%s#%d", tstr(t), i) }

func (x *Exec) box(v Val, t types.Type) *Term {
	if isIfaceT(t) {
		return v.(*Term)
	}
	n := x.boxAxioms(t)
	fs := x.flat(v, t)
	if len(fs) == 0 {
		return x.c.Var(n, "Iface")
	}
	// re-boxing of an unboxed value
	if fs[0].op == "app" && fs[0].name == selName(t, 0) {
		src := fs[0].args[0]
		same := true
		for i := range fs {
			if fs[i].op != "app" || fs[i].name != selName(t, i) || fs[i].args[0] != src {
				same = false
			}
		}
		if same && x.knownTag[src] == n {
			return src
		}
	}
	return x.c.App(n, "Iface", fs...)
}

func (x *Exec) sel(v *Term, t types.Type, i int) *Term {
	n := x.boxAxioms(t)
	ls := x.leaves(t)
	if v.op == "app" && v.name == n {
		return v.args[i]
	}
	if v.op == "ite" {
		a, b := v.args[1], v.args[2]
		if isBoxLike(a) || isBoxLike(b) || a.op == "ite" || b.op == "ite" {
			// prune branches with another known tag
			if isBoxLike(a) && a.name != n {
				return x.sel(b, t, i)
			}
			if isBoxLike(b) && b.name != n {
				return x.sel(a, t, i)
			}
			return x.c.Ite(v.args[0], x.sel(a, t, i), x.sel(b, t, i))
		}
	}
	return x.c.App(selName(t, i), ls[i].sort, v)
}

func (x *Exec) unbox(v *Term, t types.Type, st *State) Val {
	i := 0
	x.boxAxioms(t)
	r := x.build(t, func(l Leaf) *Term {
		s := x.sel(v, t, i)
		i++
		return s
	})
	return r
}

func (x *Exec) hasTag(v *Term, t types.Type) *Term {
	n := x.boxName(t)
	return x.c.Eq(x.tag(v), x.c.Int(int64(x.w.boxTag[n])))
}

// implements: condition that v's dynamic type implements iface
func (x *Exec) implCond(v *Term, it *types.Interface) *Term {
	if it.NumMethods() == 0 {
		return x.c.Not(x.c.Eq(v, x.nilIface()))
	}
	if isBoxLike(v) {
		if v.name == "nil_iface" {
			return x.c.False
		}
		return x.c.Bool(types.Implements(x.w.boxType[v.name], it))
	}
	if v.op == "ite" {
		return x.c.Ite(v.args[0], x.implCond(v.args[1], it), x.implCond(v.args[2], it))
	}
	var r []*Term
	for _, t := range x.w.implementers(it) {
		r = append(r, x.hasTag(v, t))
	}
	// opaque types
	n := int64(len(x.w.boxOrder))
	_ = n
	op := x.c.App("impl#"+tstr(it), "Bool", v)
	r = append(r, x.c.And(x.isOpaque(v), op))
	return x.c.Or(r...)
}

// isOpaque: the dynamic type is none of the concrete types known to the program.
func (x *Exec) isOpaque(v *Term) *Term {
	return x.c.Le(x.c.Int(100000), x.tag(v))
}

func (x *Exec) typeAssert(f *frame, i *ssa.TypeAssert, st *State) Val {
	c := x.c
	v := x.val(f, i.X).(*Term)
	var ok *Term
	var r Val
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		// statically implied?
		if xt, k := i.X.Type().Underlying().(*types.Interface); k && types.Implements(i.X.Type(), it) && xt != nil {
			ok = c.Not(c.Eq(v, x.nilIface()))
		} else {
			ok = x.implCond(v, it)
		}
		r = v
		if i.CommaOk {
			return TupleV{c.Ite(ok, v, x.nilIface()), ok}
		}
	} else {
		ok = x.hasTag(v, i.AssertedType)
		r = x.unbox(v, i.AssertedType, st)
		if ok == c.False {
			r = x.zero(i.AssertedType)
		} else {
			x.typeFacts(r, i.AssertedType, st)
			x.assumeTypeInv(r, i.AssertedType, ok, st)
		}
		if i.CommaOk {
			return TupleV{x.mergeVal(ok, r, x.zero(i.AssertedType)), ok}
		}
	}
	x.obl(st, "type-assert", "type assertion to "+tstr(i.AssertedType)+" holds", ok, i.Pos())
	return r
}

// ---- conversions

func (x *Exec) convert(v Val, from, to types.Type, st *State) Val {
	c := x.c
	switch {
	case isIntT(from) && isIntT(to):
		t := v.(*Term)
		fl, fh := intRange(from)
		tl, th := intRange(to)
		if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
			return t
		}
		if l, h, ok := x.bounds(t); ok && l.Cmp(tl) >= 0 && h.Cmp(th) <= 0 {
			return t
		}
		fsz := new(big.Int).Sub(fh, fl)
		tsz := new(big.Int).Sub(th, tl)
		if fsz.Cmp(tsz) <= 0 {
			return x.wrap(t, to)
		}
		return x.wrapMod(t, to)
	case isIntT(from) && isFloatT(to):
		t := v.(*Term)
		return c.App("i2f", "Flt", t)
	case isFloatT(from) && isIntT(to):
		r := c.App("f2i", "Int", v.(*Term))
		x.rangeFact(r, to, st)
		return r
	case isFloatT(from) && isFloatT(to):
		if tstr(from.Underlying()) != tstr(to.Underlying()) {
			return c.App("f2f#"+tstr(to.Underlying()), "Flt", v.(*Term))
		}
		return v
	case isIntT(from) && isStringT(to):
		if t := v.(*Term); t.op == "int" && t.ival.IsInt64() {
			return c.StrConst(string(rune(t.ival.Int64())))
		} else if t.op == "ite" && x.iteDepth(t) <= 12 {
			alts := x.iteAlts(t, c.True, nil)
			consts := true
			for _, a := range alts {
				consts = consts && a.v.op == "int"
			}
			if consts {
				return c.Ite(t.args[0], x.convert(t.args[1], from, to, st).(*Term), x.convert(t.args[2], from, to, st).(*Term))
			}
		}
		r := c.App("rune2str", "Str", v.(*Term))
		if !r.bound {
			x.wtFact(c.And(c.Le(c.Int(1), x.slen(r)), c.Le(x.slen(r), c.Int(4)),
				c.Implies(c.And(c.Le(c.Int(0), v.(*Term)), c.Le(v.(*Term), c.Int(127))), c.And(c.Eq(x.slen(r), c.Int(1)), c.Eq(x.sat(r, c.Int(0)), v.(*Term))))))
		}
		return r
	case isStringT(from) && isStringT(to):
		return v
	case isStringT(to):
		if s, ok := v.(*SliceVal); ok {
			// []byte -> string
			if b, ok := s.elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				h := x.hget(st, "E:"+tstr(s.elem)+":", ArrSort("Int", ArrSort("Int", "Int")))
				a := c.Select(h, s.arr)
				if s.ln == c.Int(1) {
					return c.App("chr1", "Str", c.Select(a, s.off))
				}
				r := c.App("bytes2str", "Str", a, s.off, s.ln)
				bv := c.BV("i", "Int")
				x.wtFact(c.Eq(x.slen(r), s.ln))
				if !r.bound {
					x.addFact(c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(bv, s.ln)), c.Eq(x.sat(r, bv), c.Select(a, c.Add(s.off, bv)))), []*Term{x.sat(r, bv)}))
				}
				return r
			}
		}
	case isStringT(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := v.(*Term)
				ref := x.newRef(st)
				key := "E:" + tstr(sl.Elem()) + ":"
				srt := ArrSort("Int", ArrSort("Int", "Int"))
				h := x.hget(st, key, srt)
				a := c.Fresh("bytes", ArrSort("Int", "Int"))
				bv := c.BV("i", "Int")
				x.addFact(c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(bv, x.slen(s))), c.Eq(c.Select(a, bv), x.sat(s, bv))), []*Term{c.Select(a, bv)}))
				x.hsetAt(st, key, c.Store(h, ref, a), ref)
				cp := c.Fresh("cap", "Int")
				x.addFact(c.And(c.Le(x.slen(s), cp), c.Le(cp, c.Int(maxLen))))
				return &SliceVal{ref, c.Int(0), x.slen(s), cp, sl.Elem()}
			}
		}
	}
	unsup("convert %s to %s", from, to)
	return nil
}

// ---- maps

func (x *Exec) keySortOf(mt *types.Map) string {
	ls := x.leaves(mt.Key())
	if len(ls) != 1 {
		unsup("map key %s", mt.Key())
	}
	return ls[0].sort
}
func (x *Exec) mapKey(v Val, mt *types.Map) *Term { x.keySortOf(mt); return x.scalar(v) }
func mapKeyName(mt *types.Map) string             { return tstr(mt.Key()) + "=>" + tstr(mt.Elem()) }
func (x *Exec) mapHasArr(st *State, m *Term, mt *types.Map) *Term {
	ks := x.keySortOf(mt)
	h := x.hget(st, "MH:"+mapKeyName(mt)+":", ArrSort("Int", ArrSort(ks, "Bool")))
	return x.c.Select(h, m)
}
func (x *Exec) mapHas(st *State, m *Term, mt *types.Map, k *Term) *Term {
	if isSmallConst(m) {
		return x.c.False
	}
	return x.c.And(x.c.Not(x.c.Eq(m, x.c.Int(0))), x.c.Select(x.mapHasArr(st, m, mt), k))
}
func isSmallConst(m *Term) bool { return m.op == "int" && m.ival.Sign() == 0 }
func (x *Exec) mapVal(st *State, m *Term, mt *types.Map, k *Term) Val {
	ks := x.keySortOf(mt)
	v := x.build(mt.Elem(), func(l Leaf) *Term {
		h := x.hget(st, "MV:"+mapKeyName(mt)+":"+l.path, ArrSort("Int", ArrSort(ks, l.sort)))
		return x.c.Select(x.c.Select(h, m), k)
	})
	x.typeFacts(v, mt.Elem(), st)
	return v
}
func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	h := x.hget(st, "ML:"+mapKeyName(mt)+":", ArrSort("Int", "Int"))
	if isSmallConst(m) {
		return x.c.Int(0)
	}
	r := x.c.Select(h, m)
	if !isConstTerm(r) {
		x.wtFact(x.c.And(x.c.Le(x.c.Int(0), r), x.c.Le(r, x.c.Int(maxLen))))
		x.lenTerms[r] = true
	}
	return x.c.Ite(x.c.Eq(m, x.c.Int(0)), x.c.Int(0), r)
}
func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k *Term, v Val) {
	c := x.c
	ks := x.keySortOf(mt)
	hk, lk := "MH:"+mapKeyName(mt)+":", "ML:"+mapKeyName(mt)+":"
	h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
	l := x.hget(st, lk, ArrSort("Int", "Int"))
	had := c.Select(c.Select(h, m), k)
	x.hsetAt(st, lk, c.Store(l, m, c.Ite(had, c.Select(l, m), c.Add(c.Select(l, m), c.Int(1)))), m)
	x.hsetAt(st, hk, c.Store(h, m, c.Store(c.Select(h, m), k, c.True)), m)
	fs := x.flat(v, mt.Elem())
	for i, lf := range x.leaves(mt.Elem()) {
		vk := "MV:" + mapKeyName(mt) + ":" + lf.path
		a := x.hget(st, vk, ArrSort("Int", ArrSort(ks, lf.sort)))
		x.hsetAt(st, vk, c.Store(a, m, c.Store(c.Select(a, m), k, fs[i])), m)
	}
}
func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	c := x.c
	ks := x.keySortOf(mt)
	hk, lk := "MH:"+mapKeyName(mt)+":", "ML:"+mapKeyName(mt)+":"
	h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
	l := x.hget(st, lk, ArrSort("Int", "Int"))
	had := c.Select(c.Select(h, m), k)
	x.hsetAt(st, lk, c.Store(l, m, c.Ite(had, c.Sub(c.Select(l, m), c.Int(1)), c.Select(l, m))), m)
	x.hsetAt(st, hk, c.Store(h, m, c.Store(c.Select(h, m), k, c.False)), m)
}
func (x *Exec) mapInit(st *State, m *Term, mt *types.Map) {
	c := x.c
	ks := x.keySortOf(mt)
	hk, lk := "MH:"+mapKeyName(mt)+":", "ML:"+mapKeyName(mt)+":"
	h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
	l := x.hget(st, lk, ArrSort("Int", "Int"))
	x.hsetAt(st, hk, c.Store(h, m, c.ConstArr(ArrSort(ks, "Bool"), c.False)), m)
	x.hsetAt(st, lk, c.Store(l, m, c.Int(0)), m)
}

// mathInt: in specification code, arithmetic on int (lengths, positions) is
// mathematical; int64 and the other types keep their machine semantics.
func (x *Exec) mathInt(t types.Type) bool {
	if x.spec == 0 {
		return false
	}
	b, ok := t.(*types.Basic)
	if !ok || b.Kind() != types.Int {
		return false
	}
	return len(x.stack) == 0 || x.w.isVerifFn(x.stack[len(x.stack)-1])
}

// typeInv evaluates the declared invariant of t on v, or nil.
func (x *Exec) typeInv(v Val, t types.Type, st *State) *Term {
	fn := x.w.typeInvs[tstr(t)]
	if fn == nil {
		return nil
	}
	s2 := st.clone()
	s2.guard = x.c.True
	savedCur, savedMode, savedH, savedT := x.cur, x.mode, x.harness, x.inTarget
	x.spec++
	defer func() {
		x.spec--
		x.cur, x.mode, x.harness, x.inTarget = savedCur, savedMode, savedH, savedT
	}()
	x.cur, x.mode, x.harness = nil, modeNone, false
	r, _ := x.run(fn, []Val{v}, nil, s2)
	if len(r) != 1 {
		return nil
	}
	return r[0].(*Term)
}

func (x *Exec) assumeTypeInv(v Val, t types.Type, cond *Term, st *State) {
	if p := x.typeInv(v, t, st); p != nil {
		x.noteAssume("type invariant of " + tstr(t) + " (checked where functions under contract box such values)")
		x.wtFact(x.c.Implies(cond, p))
	}
}

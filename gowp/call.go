package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callInstr(f *frame, in ssa.Instruction, cc *ssa.CallCommon, st *State) ([]Val, *State) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(f, a))
	}
	if cc.IsInvoke() {
		recv, ok := x.val(f, cc.Value).(*Term)
		if !ok {
			unsup("invoke on %T", x.val(f, cc.Value))
		}
		return x.invoke(recv, cc.Value.Type(), cc.Method, args, st, in.Pos())
	}
	switch fn := cc.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(f, fn, cc, args, st, in)
	case *ssa.Function:
		if r, s, ok := x.poolCall(fn, cc, args, st, in.Pos()); ok {
			return r, s
		}
		return x.callFn(fn, args, nil, st, in.Pos())
	}
	return x.callVal(x.val(f, cc.Value), cc.Signature(), args, st, in.Pos())
}

func (x *Exec) callVal(v Val, sig *types.Signature, args []Val, st *State, pos token.Pos) ([]Val, *State) {
	switch w := v.(type) {
	case *Clo:
		return x.callFn(w.fn, args, w.bind, st, pos)
	case *Multi:
		return x.branch(len(w.v), func(i int) *Term { return w.g[i] }, st, func(i int, s *State) ([]Val, *State) {
			return x.callVal(w.v[i], sig, args, s, pos)
		})
	case *Term:
		x.obl(st, "nil-func", "called function not nil", x.c.Not(x.c.Eq(w, x.c.Int(0))), pos)
		return x.callUnknown(w, sig, args, st, pos)
	}
	unsup("call of %T", v)
	return nil, nil
}

// callUnknown: a call through a function value nothing is known about.
func (x *Exec) callUnknown(w *Term, sig *types.Signature, args []Val, st *State, pos token.Pos) ([]Val, *State) {
	if x.spec > 0 || x.target != nil && x.target.pureFuncs {
		// deterministic pure function of its arguments
		var as []*Term
		as = append(as, w)
		for i, a := range args {
			as = append(as, x.flat(a, sig.Params().At(i).Type())...)
		}
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			k := 0
			out = append(out, x.build(t, func(l Leaf) *Term {
				k++
				return x.c.App(fmt.Sprintf("apply#%s#%d#%d", tstr(sig), i, k), l.sort, as...)
			}))
			x.typeFacts(out[i], t, st)
		}
		return out, st
	}
	x.noteAssume("calls through unknown function values of type " + tstr(sig) + " may change any heap location and return any value")
	ns := x.havocAll(st)
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.havocVal("ucall", sig.Results().At(i).Type(), ns))
	}
	return out, ns
}

func (x *Exec) havocAll(st *State) *State {
	x.epochs++
	ns := st.clone()
	for k := range ns.heap {
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "G:") && x.w.immutableGlobal(k) {
			continue
		}
		delete(ns.heap, k)
		if x.wlog != nil {
			for _, w := range x.wlog {
				w[k] = true
			}
		}
	}
	ns.def = &HeapDef{epoch: x.epochs}
	a := x.c.Fresh("alloc", "Int")
	x.addFact(x.c.Le(st.alloc, a))
	if b, o, ok := x.c.baseOff(st.alloc); ok {
		x.c.upper[b] = refBound{a, -o}
	}
	ns.alloc = a
	if x.wlog != nil {
		for _, w := range x.wlog {
			w["*"] = true
		}
	}
	return ns
}

// branch runs n alternatives under guards and merges.
func (x *Exec) branch(n int, g func(i int) *Term, st *State, run func(i int, s *State) ([]Val, *State)) ([]Val, *State) {
	var vals []Val
	var acc *Term
	var ss []*State
	n0 := x.node
	for i := 0; i < n; i++ {
		s := st.clone()
		s.guard = x.c.And(st.guard, g(i))
		if s.guard == x.c.False {
			continue
		}
		x.node = n0
		x.step()
		s.node = x.node
		r, ns := run(i, s)
		if ns != nil {
			if ns == s || ns == st {
				ns = ns.clone()
			}
			ns.node = x.node
		}
		if ns == nil || ns.guard == x.c.False {
			continue
		}
		ss = append(ss, ns)
		if vals == nil && acc == nil {
			vals = append([]Val{}, r...)
			acc = ns.guard
		} else {
			dg := x.discr(ns.guard, acc)
			for j := range vals {
				vals[j] = x.mergeVal(dg, r[j], vals[j])
			}
			acc = x.c.Or(acc, ns.guard)
		}
	}
	if len(ss) == 0 {
		return nil, nil
	}
	x.join(ss)
	// mergeStates expects order such that earlier ones discriminate
	m := x.mergeStates(ss)
	m.node = x.node
	return vals, m
}

func (x *Exec) invoke(v *Term, it types.Type, m *types.Func, args []Val, st *State, pos token.Pos) ([]Val, *State) {
	c := x.c
	if x.cur != nil && x.mode == modeUse && x.harness && x.cur.ct.iface && !x.cur.called && x.cur.ct.targetStr == tstr(it)+"."+m.Name() {
		return x.havocTarget(m.Type().(*types.Signature), st)
	}
	if v.op == "ite" && x.iteDepth(v) <= 6 {
		// distribute over known alternatives
		alts := x.iteAlts(v, c.True, nil)
		known := 0
		for _, a := range alts {
			if isBoxLike(a.v) {
				known++
			}
		}
		if known > 0 {
			return x.branch(len(alts), func(i int) *Term { return alts[i].g }, st, func(i int, s *State) ([]Val, *State) {
				return x.invoke(alts[i].v, it, m, args, s, pos)
			})
		}
	}
	x.obl(st, "nil-deref", "interface value not nil", c.Not(c.Eq(v, x.nilIface())), pos)
	if isBoxLike(v) {
		if v.name == "nil_iface" {
			return nil, nil
		}
		return x.invokeOn(v, x.w.boxType[v.name], m, args, st, pos)
	}
	iface := it.Underlying().(*types.Interface)
	key := tstr(it) + "." + m.Name()
	ic := x.w.ifaceContracts[key]
	// memo for pure tag-only methods
	var cands []types.Type
	for _, t := range x.w.implementers(iface) {
		cands = append(cands, t)
	}
	if ic != nil && ic.closed == false {
		return x.useContract(ic, append([]Val{v}, args...), st, pos)
	}
	// narrow by asking the solver which tags are possible
	var alive []types.Type
	for _, t := range cands {
		x.boxAxioms(t)
		if x.feasible(c.And(st.guard, x.hasTag(v, t))) {
			alive = append(alive, t)
		}
	}
	opaque := x.feasible(c.And(st.guard, x.isOpaque(v)))
	n := len(alive)
	if opaque {
		n++
	}
	if n == 0 {
		return nil, nil
	}
	if n > 1 {
		// closed world: a value of this interface is nil, of a listed type, or foreign
		any := c.Eq(v, x.nilIface())
		for _, t := range alive {
			any = c.Or(any, x.hasTag(v, t))
		}
		if opaque {
			any = c.Or(any, x.isOpaque(v))
		}
		x.wtFact(c.Implies(st.guard, any))
	}
	return x.branch(n, func(i int) *Term {
		if i < len(alive) {
			if n == 1 {
				return c.True
			}
			return x.hasTag(v, alive[i])
		}
		return x.isOpaque(v)
	}, st, func(i int, s *State) ([]Val, *State) {
		if i < len(alive) {
			return x.invokeOn(v, alive[i], m, args, s, pos)
		}
		if ic != nil {
			return x.useContract(ic, append([]Val{v}, args...), s, pos)
		}
		x.obl(s, "dispatch", "known implementation of "+key, c.False, pos)
		return nil, nil
	})
}

type alt struct {
	g, v *Term
}

func (x *Exec) iteDepth(t *Term) int {
	if t.op != "ite" {
		return 0
	}
	a, b := x.iteDepth(t.args[1]), x.iteDepth(t.args[2])
	if b > a {
		a = b
	}
	return a + 1
}
func (x *Exec) iteAlts(t *Term, g *Term, out []alt) []alt {
	if g == x.c.False {
		return out
	}
	if t.op == "ite" {
		out = x.iteAlts(t.args[1], x.c.And(g, t.args[0]), out)
		return x.iteAlts(t.args[2], x.c.And(g, x.c.Not(t.args[0])), out)
	}
	return append(out, alt{g, t})
}

func (x *Exec) invokeOn(v *Term, t types.Type, m *types.Func, args []Val, st *State, pos token.Pos) ([]Val, *State) {
	x.w.mu.Lock()
	sel := x.w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var fn *ssa.Function
	if sel != nil {
		fn = x.w.prog.MethodValue(sel)
	}
	x.w.mu.Unlock()
	if fn == nil {
		unsup("method %s not found on %s", m.Name(), t)
	}
	recv := x.unbox(v, t, st)
	x.typeFacts(recv, t, st)
	x.assumeTypeInv(recv, t, x.hasTag(v, t), st)
	return x.callFn(fn, append([]Val{recv}, args...), nil, st, pos)
}

// callFn calls a statically known function.
func (x *Exec) callFn(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) ([]Val, *State) {
	if r, s, ok := x.intrinsic(fn, args, st, pos); ok {
		return r, s
	}
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
	}
	name := org.String()
	// target of the contract being proved
	if x.target != nil && x.mode == modeProve && !x.inTarget && x.target.fn == fn && x.harness {
		return x.runTarget(fn, args, bind, st, pos)
	}
	if x.contractTargetCall(fn) {
		return x.havocTarget(fn.Signature, st)
	}
	if sp := x.w.specFns[fn]; sp != nil {
		return x.callSpec(sp, args, st)
	}
	if ct := x.w.contracts[fn]; ct != nil && !(x.noContract[fn]) {
		if x.target != nil {
			for _, n := range x.target.uses {
				if u := x.w.byName[n]; u != nil && u.fn == fn {
					ct = u
				}
			}
		}
		return x.useContract(ct, args, st, pos)
	}
	if ct := x.w.trusted[name]; ct != nil {
		x.noteAssume("trusted contract: " + name)
		return x.useContract(ct, args, st, pos)
	}
	if r, s, ok := x.mapIntrinsic(name, fn, args, st); ok {
		return r, s
	}
	if op := x.w.opaque[name]; op {
		return x.callOpaque(name, fn.Signature, args, st)
	}
	if len(fn.Blocks) == 0 {
		// synthesized?
		unsup("no contract and no body for %s", name)
	}
	for _, s := range x.stack {
		if s == fn {
			unsup("recursive call of %s without contract", fn)
		}
	}
	if x.dry == 0 && x.spec == 0 && !x.w.isVerifFn(fn) {
		x.inlined[fn.String()] = true
	}
	x.stack = append(x.stack, fn)
	r, s := x.run(fn, args, bind, st)
	x.stack = x.stack[:len(x.stack)-1]
	return r, s
}

// callOpaque: pure deterministic function, uninterpreted.
func (x *Exec) callOpaque(name string, sig *types.Signature, args []Val, st *State) ([]Val, *State) {
	x.noteAssume("opaque pure function: " + name)
	if !x.pureDone["fn#"+name] {
		x.pureDone["fn#"+name] = true
		if st2, bvs, bargs := x.boundArgs(sig, st); bargs != nil {
			saved := x.bfacts
			x.bfacts = nil
			x.callOpaque(name, sig, bargs, st2)
			x.emitBound(x.bfacts, bvs, "fn#")
			x.bfacts = saved
		}
	}
	var as []*Term
	var ps []types.Type
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	for i, a := range args {
		as = append(as, x.contentArgs(a, ps[i], st)...)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		k := 0
		out = append(out, x.build(t, func(l Leaf) *Term {
			k++
			return x.c.App(fmt.Sprintf("fn#%s#%d#%d", name, i, k), l.sort, as...)
		}))
		x.typeFacts(out[i], t, st)
	}
	return out, st
}

// contentArgs flattens an argument; slices are passed by content.
func (x *Exec) contentArgs(a Val, t types.Type, st *State) []*Term {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s := a.(*SliceVal)
		r := []*Term{}
		for _, l := range x.leaves(sl.Elem()) {
			key := "E:" + tstr(sl.Elem()) + ":" + l.path
			h := x.hget(st, key, ArrSort("Int", ArrSort("Int", l.sort)))
			r = append(r, x.c.Select(h, s.arr))
		}
		return append(r, s.off, s.ln)
	}
	if stt, ok := t.Underlying().(*types.Struct); ok {
		sv, ok := a.(*StructVal)
		if ok {
			var r []*Term
			for i := 0; i < stt.NumFields(); i++ {
				r = append(r, x.contentArgs(sv.F[i], stt.Field(i).Type(), st)...)
			}
			return r
		}
	}
	return x.flat(a, t)
}

func (x *Exec) builtin(f *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State, in ssa.Instruction) ([]Val, *State) {
	c := x.c
	switch b.Name() {
	case "len":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			l := args[0].(*SliceVal).ln
			if !isConstTerm(l) && l.op == "var" || l.op == "select" || l.op == "app" {
				x.lenTerms[l] = true
			}
			return []Val{l}, st
		case *types.Map:
			return []Val{x.mapLen(st, args[0].(*Term), t)}, st
		case *types.Basic:
			return []Val{x.slen(args[0].(*Term))}, st
		case *types.Pointer:
			return []Val{c.Int(t.Elem().Underlying().(*types.Array).Len())}, st
		}
	case "cap":
		if s, ok := args[0].(*SliceVal); ok {
			return []Val{s.cp}, st
		}
	case "append":
		return []Val{x.appendOp(cc, args, st)}, st
	case "copy":
		return []Val{x.copyOp(cc, args, st)}, st
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		// delete on nil map is a no-op
		s2 := st.clone()
		x.mapDelete(s2, m, mt, x.mapKey(args[1], mt))
		for k, v := range s2.heap {
			if st.heap[k] != v && (strings.HasPrefix(k, "MH:") || strings.HasPrefix(k, "ML:")) {
				old := x.hget(st, k, x.keySort[k])
				x.hsetAt(st, k, c.Ite(c.Eq(m, c.Int(0)), old, v), m)
			}
		}
		return nil, st
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		if !isIntT(t) {
			unsup("min/max on %s", t)
		}
		for _, a := range args[1:] {
			p, q := r.(*Term), a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(p, q), p, q)
			} else {
				r = c.Ite(c.Le(p, q), q, p)
			}
		}
		return []Val{r}, st
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], in.Pos())
		return []Val{args[0]}, st
	case "print", "println":
		return nil, st
	case "clear":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			d := args[0].(*SliceVal)
			for _, l := range x.leaves(d.elem) {
				key := "E:" + tstr(d.elem) + ":" + l.path
				h := x.hget(st, key, ArrSort("Int", ArrSort("Int", l.sort)))
				zero := c.ConstArr(ArrSort("Int", l.sort), x.zeroLeaf(l))
				x.hsetAt(st, key, c.Store(h, d.arr, x.segCopy(c.Select(h, d.arr), d.off, zero, c.Int(0), d.ln)), d.arr)
			}
			return nil, st
		case *types.Map:
			m := args[0].(*Term)
			ks := x.keySortOf(t)
			hk, lk := "MH:"+mapKeyName(t)+":", "ML:"+mapKeyName(t)+":"
			h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
			ln := x.hget(st, lk, ArrSort("Int", "Int"))
			x.hsetAt(st, hk, c.Store(h, m, c.ConstArr(ArrSort(ks, "Bool"), c.False)), m)
			x.hsetAt(st, lk, c.Store(ln, m, c.Int(0)), m)
			return nil, st
		}
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

// segCopy returns array content where [dst, dst+n) is src content from so and the rest is base.
func (x *Exec) segCopy(base, do, src, so, n *Term) *Term {
	c := x.c
	if n.op == "int" && n.ival.IsInt64() && n.ival.Int64() <= 8 {
		r := base
		for i := int64(0); i < n.ival.Int64(); i++ {
			r = c.Store(r, c.Add(do, c.Int(i)), c.Select(src, c.Add(so, c.Int(i))))
		}
		return r
	}
	r := c.Fresh("seg", base.sort)
	if x.dry > 0 {
		return r
	}
	j := c.BV("j", "Int")
	inr := c.And(c.Le(do, j), c.Lt(j, c.Add(do, n)))
	rj := c.Select(r, j)
	sidx := c.Add(c.Sub(j, do), so)
	x.addFact(c.Forall([]*Term{j}, c.Eq(rj, c.Ite(inr, c.Select(src, sidx), c.Select(base, j))), []*Term{rj}))
	// reverse trigger: from source index to destination
	k := c.BV("k", "Int")
	didx := c.Add(c.Sub(k, so), do)
	sk := c.mk(&Term{op: "select", args: []*Term{src, k}, sort: elemSort(src.sort)})
	if src.op == "var" || src.op == "select" {
		x.addFact(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(so, k), c.Lt(k, c.Add(so, n))), c.Eq(c.Select(r, didx), c.Select(src, k))), []*Term{sk}))
	}
	return r
}

func (x *Exec) appendOp(cc *ssa.CallCommon, args []Val, st *State) Val {
	c := x.c
	s := args[0].(*SliceVal)
	var srcArr func(key string, srt string) *Term
	var so, n *Term
	if isStringT(cc.Args[1].Type()) {
		unsup("append of string bytes")
	}
	t := args[1].(*SliceVal)
	so, n = t.off, t.ln
	srcArr = func(key, srt string) *Term { return c.Select(x.hget(st, key, srt), t.arr) }
	et := s.elem
	if n == c.Int(0) {
		return s
	}
	newLen := c.Add(s.ln, n)
	x.addFact(c.Implies(st.guard, c.Le(newLen, c.Int(maxLen)))) // memory limit
	inplace := c.Le(newLen, s.cp)
	if s.cp == s.ln && n.op == "int" && n.ival.Sign() > 0 {
		inplace = c.False
	}
	if l, _, ok := x.bounds(n); ok && l.Sign() > 0 && s.cp == s.ln {
		inplace = c.False
	}
	ref := x.newRef(st)
	// growth
	ncap := c.Fresh("cap", "Int")
	x.addFact(c.And(c.Le(newLen, ncap), c.Le(ncap, c.Int(maxLen))))
	if inplace == c.False {
		for _, l := range x.leaves(et) {
			key := "E:" + tstr(et) + ":" + l.path
			srt := ArrSort("Int", ArrSort("Int", l.sort))
			h := x.hget(st, key, srt)
			old := c.Select(h, s.arr)
			na := c.ConstArr(ArrSort("Int", l.sort), x.zeroLeaf(l))
			na = x.segCopy(na, c.Int(0), old, s.off, s.ln)
			na = x.segCopy(na, s.ln, srcArr(key, srt), so, n)
			x.hsetAt(st, key, c.Store(h, ref, na), ref)
		}
		return &SliceVal{ref, c.Int(0), newLen, ncap, et}
	}
	for _, l := range x.leaves(et) {
		key := "E:" + tstr(et) + ":" + l.path
		srt := ArrSort("Int", ArrSort("Int", l.sort))
		h := x.hget(st, key, srt)
		old := c.Select(h, s.arr)
		src := srcArr(key, srt)
		// in place
		ip := x.segCopy(old, c.Add(s.off, s.ln), src, so, n)
		// fresh
		na := c.ConstArr(ArrSort("Int", l.sort), x.zeroLeaf(l))
		na = x.segCopy(na, c.Int(0), old, s.off, s.ln)
		na = x.segCopy(na, s.ln, src, so, n)
		x.hsetAt(st, key, c.Ite(inplace, c.Store(h, s.arr, ip), c.Store(h, ref, na)), ref)
		x.logRef(key, s.arr)
	}
	return &SliceVal{c.Ite(inplace, s.arr, ref), c.Ite(inplace, s.off, c.Int(0)), newLen, c.Ite(inplace, s.cp, ncap), et}
}

func (x *Exec) copyOp(cc *ssa.CallCommon, args []Val, st *State) Val {
	c := x.c
	d := args[0].(*SliceVal)
	if isStringT(cc.Args[1].Type()) {
		unsup("copy from string")
	}
	s := args[1].(*SliceVal)
	n := c.Ite(c.Le(d.ln, s.ln), d.ln, s.ln)
	for _, l := range x.leaves(d.elem) {
		key := "E:" + tstr(d.elem) + ":" + l.path
		srt := ArrSort("Int", ArrSort("Int", l.sort))
		h := x.hget(st, key, srt)
		x.hsetAt(st, key, c.Store(h, d.arr, x.segCopy(c.Select(h, d.arr), d.off, c.Select(h, s.arr), s.off, n)), d.arr)
	}
	return n
}

// boundArgs builds bound-variable arguments for a signature without slices.
func (x *Exec) boundArgs(sig *types.Signature, st *State) (*State, []*Term, []Val) {
	var bvs []*Term
	var args []Val
	add := func(t types.Type) bool {
		if _, ok := t.Underlying().(*types.Slice); ok {
			return false
		}
		args = append(args, x.build(t, func(l Leaf) *Term {
			b := x.c.BV("a", l.sort)
			bvs = append(bvs, b)
			return b
		}))
		return true
	}
	if sig.Recv() != nil && !add(sig.Recv().Type()) {
		return nil, nil, nil
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !add(sig.Params().At(i).Type()) {
			return nil, nil, nil
		}
	}
	s2 := st.clone()
	s2.guard = x.c.True
	return s2, bvs, args
}

// mapIntrinsic models the library functions maps.Clone and maps.Copy.
func (x *Exec) mapIntrinsic(name string, fn *ssa.Function, args []Val, st *State) ([]Val, *State, bool) {
	c := x.c
	switch name {
	case "maps.Clone", "golang.org/x/exp/maps.Clone":
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		src := args[0].(*Term)
		st = st.clone()
		m := x.newRef(st)
		x.mapInit(st, m, mt)
		ks := x.keySortOf(mt)
		hk, lk := "MH:"+mapKeyName(mt)+":", "ML:"+mapKeyName(mt)+":"
		h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
		l := x.hget(st, lk, ArrSort("Int", "Int"))
		x.hsetAt(st, hk, c.Store(h, m, c.Select(h, src)), m)
		x.hsetAt(st, lk, c.Store(l, m, x.mapLen(st, src, mt)), m)
		for _, lf := range x.leaves(mt.Elem()) {
			vk := "MV:" + mapKeyName(mt) + ":" + lf.path
			a := x.hget(st, vk, ArrSort("Int", ArrSort(ks, lf.sort)))
			x.hsetAt(st, vk, c.Store(a, m, c.Select(a, src)), m)
		}
		return []Val{c.Ite(c.Eq(src, c.Int(0)), c.Int(0), m)}, st, true
	case "maps.Copy", "golang.org/x/exp/maps.Copy":
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		dst, src := args[0].(*Term), args[1].(*Term)
		st = st.clone()
		x.obl(st, "nil", "maps.Copy to a nil map", c.Or(c.Not(c.Eq(dst, c.Int(0))), c.Eq(x.mapLen(st, src, mt), c.Int(0))), token.NoPos)
		ks := x.keySortOf(mt)
		hk, lk := "MH:"+mapKeyName(mt)+":", "ML:"+mapKeyName(mt)+":"
		h := x.hget(st, hk, ArrSort("Int", ArrSort(ks, "Bool")))
		l := x.hget(st, lk, ArrSort("Int", "Int"))
		nh := c.Fresh("copied", ArrSort(ks, "Bool"))
		bv := c.BV("k", ks)
		ld, ls := x.mapLen(st, dst, mt), x.mapLen(st, src, mt)
		nl := c.Fresh("copiedlen", "Int")
		if x.dry == 0 {
			sn := c.Select(nh, bv)
			hs, hd := c.And(c.Not(c.Eq(src, c.Int(0))), c.Select(c.Select(h, src), bv)), c.Select(c.Select(h, dst), bv)
			x.addFact(c.Forall([]*Term{bv}, c.Eq(sn, c.Or(hs, hd)), []*Term{sn}))
			x.addFact(c.And(c.Le(ld, nl), c.Le(ls, nl), c.Le(nl, c.Add(ld, ls))))
		}
		x.hsetAt(st, hk, c.Store(h, dst, nh), dst)
		x.hsetAt(st, lk, c.Store(l, dst, nl), dst)
		for _, lf := range x.leaves(mt.Elem()) {
			vk := "MV:" + mapKeyName(mt) + ":" + lf.path
			a := x.hget(st, vk, ArrSort("Int", ArrSort(ks, lf.sort)))
			nv := c.Fresh("copied", ArrSort(ks, lf.sort))
			if x.dry == 0 {
				sv := c.Select(nv, bv)
				hs := c.And(c.Not(c.Eq(src, c.Int(0))), c.Select(c.Select(h, src), bv))
				x.addFact(c.Forall([]*Term{bv}, c.Eq(sv, c.Ite(hs, c.Select(c.Select(a, src), bv), c.Select(c.Select(a, dst), bv))), []*Term{sv}))
			}
			x.hsetAt(st, vk, c.Store(a, dst, nv), dst)
		}
		return nil, st, true
	}
	return nil, nil, false
}

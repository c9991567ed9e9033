package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopRun struct {
	backs []edgeIn
}

func sameVal(x *Exec, a, b Val) bool {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		return ok && p == q
	case *StructVal:
		q, ok := b.(*StructVal)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !sameVal(x, p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *SliceVal:
		q, ok := b.(*SliceVal)
		return ok && p.arr == q.arr && p.off == q.off && p.ln == q.ln && p.cp == q.cp
	case *Ptr:
		q, ok := b.(*Ptr)
		return ok && p.kind == q.kind && p.ref == q.ref && p.idx == q.idx && p.glob == q.glob && fmt.Sprint(p.path) == fmt.Sprint(q.path)
	case *Clo:
		q, ok := b.(*Clo)
		if !ok || p.fn != q.fn {
			return false
		}
		for i := range p.bind {
			if !sameVal(x, p.bind[i], q.bind[i]) {
				return false
			}
		}
		return true
	case *ImmCell:
		q, ok := b.(*ImmCell)
		return ok && sameVal(x, p.v, q.v)
	case *IterV:
		q, ok := b.(*IterV)
		return ok && p.key == q.key
	}
	return a == b
}

// varsOf collects the leaf variables of t.
func varsOf(t *Term, seen map[*Term]bool, f func(v *Term) bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if t.op == "var" && !f(t) {
		return false
	}
	for _, a := range t.args {
		if !varsOf(a, seen, f) {
			return false
		}
	}
	return true
}

// loop executes a natural loop: inductive cut with Houdini candidates.
func (x *Exec) loop(f *frame, order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo, l *loopInfo, es []edgeIn, rets *[]retInfo) []exitEdge {
	c := x.c
	h := l.header
	st0 := x.enter(f, h, es, false)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		init[p] = f.env[p]
	}
	entryNode := x.node
	n0 := c.n
	epoch0 := x.epochs
	frames0 := x.frames
	inv := func(t *Term) bool {
		return varsOf(t, map[*Term]bool{}, func(v *Term) bool {
			if v.id < n0 {
				return true
			}
			if strings.HasPrefix(v.name, "H") {
				var e int
				if k, _ := fmt.Sscanf(v.name, "H%d:", &e); k == 1 && e <= epoch0 {
					return true
				}
			}
			return strings.HasPrefix(v.name, "box#") || strings.HasPrefix(v.name, "flt#") || v.name == "nil_iface" || strings.HasPrefix(v.name, "gptr#")
		})
	}
	P := map[*ssa.Phi]bool{}
	M := map[string]bool{}
	refs := map[string]map[*Term]bool{} // per key: invariant refs written; nil key: unknown
	unknown := map[string]bool{}
	allocs := false
	// fallback: run the body from a candidate header state
	saveEnv := func() map[ssa.Value]Val {
		m := make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			m[k] = v
		}
		return m
	}
	var hphis map[*ssa.Phi]Val
	var hst *State
	mkHeader := func() {
		x.node = entryNode
		x.step()
		hst = st0.clone()
		hst.node = x.node
		hst.guard = st0.guard
		if M["*"] {
			g := hst.guard
			hst = x.havocAll(hst)
			hst.guard = g
		} else if allocs {
			a := c.Fresh("alloc", "Int")
			x.addFact(c.Le(hst.alloc, a))
			if b, o, ok := c.baseOff(hst.alloc); ok {
				c.upper[b] = refBound{a, -o}
			}
			hst.alloc = a
		}
		var ks []string
		for k := range M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == "*" {
				continue
			}
			if M["*"] && !(strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:")) {
				continue
			}
			srt := x.keySort[k]
			old := x.hget(hst, k, srt)
			if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "G:") {
				hst.heap[k] = c.Fresh("lp."+k, srt)
				continue
			}
			if !unknown[k] && len(refs[k]) <= 4 && !hasFresh(refs[k]) {
				v := old
				for _, r := range sortedTerms(refs[k]) {
					v = c.Store(v, r, c.Fresh("lp."+k, elemSort(srt)))
				}
				hst.heap[k] = v
				continue
			}
			hst.heap[k] = c.Fresh("lp."+k, srt)
		}
		hphis = map[*ssa.Phi]Val{}
		for _, p := range phis {
			if !P[p] {
				hphis[p] = init[p]
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			hphis[p] = x.havocVal("phi."+nm, p.Type(), hst)
		}
		for _, p := range phis {
			f.env[p] = hphis[p]
		}
		hst.node = x.node
	}
	x.dry++
	for iter := 0; ; iter++ {
		if iter > 40 {
			unsup("loop analysis does not converge in %s", f.fn)
		}
		env := saveEnv()
		mkHeader()
		hAlloc := hst.alloc
		x.wlog = append(x.wlog, map[string]bool{})
		x.reflog = append(x.reflog, map[string]map[*Term]bool{})
		lp := &loopRun{}
		var drets []retInfo
		x.region(f, order, loops, h, []edgeIn{{nil, hst}}, l.blocks, &drets, lp)
		wl, rl := x.wlog[len(x.wlog)-1], x.reflog[len(x.reflog)-1]
		x.wlog = x.wlog[:len(x.wlog)-1]
		x.reflog = x.reflog[:len(x.reflog)-1]
		changed := false
		// phis
		for _, p := range phis {
			if P[p] {
				continue
			}
			for _, b := range lp.backs {
				for k, pr := range h.Preds {
					if pr == b.pred {
						if !sameVal(x, x.val(f, p.Edges[k]), init[p]) {
							if !P[p] {
								changed = true
							}
							P[p] = true
						}
					}
				}
			}
		}
		for _, b := range lp.backs {
			if b.st.alloc != hAlloc && !allocs {
				allocs = true
				changed = true
				rl = nil // references of this round looked invariant only because nothing was allocated
			}
		}
		for k := range wl {
			if strings.HasPrefix(k, "L:local!") {
				var id int
				fmt.Sscanf(k, "L:local!%d!", &id)
				if id > frames0 {
					continue
				}
			}
			if strings.HasPrefix(k, "V:") {
				var id int
				fmt.Sscanf(k, "V:%d:", &id)
				if id > frames0 {
					continue
				}
				if _, ok := st0.heap[k]; !ok {
					continue // iterator of an inner loop
				}
			}
			if !M[k] {
				dbgLoop(iter, "M:"+k, nil)
				M[k] = true
				changed = true
			}
		}
		for k, rs := range rl {
			if !M[k] {
				continue // local to a callee inlined in the loop
			}
			if refs[k] == nil {
				refs[k] = map[*Term]bool{}
			}
			for r := range rs {
				var key *Term
				switch {
				case r == nil:
					if !unknown[k] {
						unknown[k] = true
						changed = true
					}
					continue
				case inv(r):
					key = r
				case freshRef(c, r, n0):
					key = freshMark
				default:
					// conditional reference: all alternatives known?
					alts := x.iteAlts(r, c.True, nil)
					all := len(alts) > 1
					for _, a := range alts {
						if !inv(a.v) && !freshRef(c, a.v, n0) {
							all = false
						}
					}
					if all {
						for _, a := range alts {
							kk := a.v
							if !inv(a.v) {
								kk = freshMark
							}
							if !refs[k][kk] {
								dbgLoop(iter, k, kk)
								refs[k][kk] = true
								changed = true
							}
						}
						continue
					}
					if !unknown[k] {
						unknown[k] = true
						changed = true
					}
					continue
				}
				if !refs[k][key] {
					dbgLoop(iter, k, key)
					refs[k][key] = true
					changed = true
				}
			}
		}
		if !changed {
			// keep dry env for candidate discovery
			break
		}
		f.env = env
	}
	// bounds from comparisons, using the dry-run environment
	type bnd struct {
		p ssa.Value // value related to a phi
		t *Term
	}
	var bounds []*Term
	seenB := map[*Term]bool{}
	addBound := func(v ssa.Value) {
		if !isIntT(v.Type()) {
			return
		}
		var tv Val
		if k, ok := v.(*ssa.Const); ok {
			tv = x.constVal(k)
		} else {
			tv = f.env[v]
		}
		t, ok := tv.(*Term)
		if !ok || !inv(t) || seenB[t] {
			return
		}
		seenB[t] = true
		bounds = append(bounds, t)
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
					addBound(bo.X)
					addBound(bo.Y)
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	if len(bounds) > 6 {
		bounds = bounds[:6]
	}
	x.dry--
	if x.dry > 0 {
		// inside an outer dry run: one more body execution is not needed; produce exits from a fresh header
		mkHeader()
		lp := &loopRun{}
		return x.region(f, order, loops, h, []edgeIn{{nil, hst}}, l.blocks, rets, lp)
	}

	// ---- real run
	x.loopN++
	loopID := fmt.Sprintf("loop%d(%s)", x.loopN, x.loopPos(h))
	// loop variables
	type lvar struct {
		name string
		typ  types.Type
		init *Term
		get  func(s *State, ph map[*ssa.Phi]Val) *Term
		comp string
		grp  int
	}
	entryAlloc := st0.alloc
	mkHeader()
	var lv []lvar
	var inits []*Term // initial arrays of slice phis
	grp := 0
	for _, p := range phis {
		if !P[p] {
			continue
		}
		p := p
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); ok {
						return
					}
					panic(r)
				}
			}()
			fi := x.flat(init[p], p.Type())
			grp++
			for i, lf := range x.leaves(p.Type()) {
				i := i
				if lf.comp == "arr" {
					inits = append(inits, fi[i])
				}
				lv = append(lv, lvar{p.Comment + lf.path, lf.t, fi[i], func(s *State, ph map[*ssa.Phi]Val) *Term { return x.flat(ph[p], p.Type())[i] }, lf.comp, grp})
			}
		}()
	}
	var mk []string
	for k := range M {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		if k == "*" {
			continue
		}
		k := k
		if M["*"] && !(strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:")) {
			continue
		}
		srt := x.keySort[k]
		get := func(s *State) *Term { return x.hget(s, k, srt) }
		comp := ""
		for _, cc := range []string{"arr", "off", "len", "cap"} {
			if strings.HasSuffix(k, "."+cc) {
				comp = cc
			}
		}
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "G:") {
			lv = append(lv, lvar{k, nil, get(st0), func(s *State, _ map[*ssa.Phi]Val) *Term { return get(s) }, comp, -1})
			if comp == "arr" {
				inits = append(inits, get(st0))
			}
			continue
		}
		if strings.HasPrefix(k, "V:") {
			continue
		}
		for _, r := range sortedTerms(refs[k]) {
			if r == freshMark {
				continue
			}
			r := r
			es := elemSort(srt)
			i0 := c.Select(get(st0), r)
			if strings.HasPrefix(es, "(Array") {
				continue
			}
			if comp == "arr" {
				inits = append(inits, i0)
			}
			lv = append(lv, lvar{k, nil, i0, func(s *State, _ map[*ssa.Phi]Val) *Term { return c.Select(get(s), r) }, comp, -1})
		}
	}
	type cnd struct {
		user bool
		desc string
		mk   func(s *State, ph map[*ssa.Phi]Val) *Term
	}
	var cs []cnd
	var promoted []func()
	add := func(desc string, m func(s *State, ph map[*ssa.Phi]Val) *Term) {
		if x.target != nil && x.target.lean && (strings.HasSuffix(desc, " bound") || strings.HasSuffix(desc, "= init") && !strings.HasSuffix(desc, "== init") || strings.HasSuffix(desc, " >= 0") || strings.Contains(desc, " moves with ")) {
			return
		}
		cs = append(cs, cnd{strings.HasPrefix(desc, "inv "), desc, m})
	}
	for i, v := range lv {
		v := v
		switch v.init.sort {
		case "Int":
			add(v.name+" == init", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Eq(v.get(s, ph), v.init) })
			switch v.comp {
			case "arr":
				add(v.name+" init or fresh", func(s *State, ph map[*ssa.Phi]Val) *Term {
					return c.Or(c.Eq(v.get(s, ph), v.init), c.Lt(entryAlloc, v.get(s, ph)))
				})
				continue
			case "cap":
				continue
			case "off":
				continue
			}
			if v.typ != nil && !isIntT(v.typ) && v.comp == "" {
				add(v.name+" init or fresh", func(s *State, ph map[*ssa.Phi]Val) *Term {
					return c.Or(c.Eq(v.get(s, ph), v.init), c.Lt(entryAlloc, v.get(s, ph)))
				})
				add(v.name+" nonzero", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Not(c.Eq(v.get(s, ph), c.Int(0))) })
				continue
			}
			add(v.name+" >= init", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Le(v.init, v.get(s, ph)) })
			add(v.name+" <= init", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Le(v.get(s, ph), v.init) })
			if v.init != c.Int(0) {
				add(v.name+" >= 0", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Le(c.Int(0), v.get(s, ph)) })
			}
			for _, b := range bounds {
				b := b
				if b == v.init {
					continue
				}
				add(v.name+" <= bound", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Le(v.get(s, ph), b) })
				add(v.name+" < bound", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Lt(v.get(s, ph), b) })
				add(v.name+" >= bound", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Le(b, v.get(s, ph)) })
			}
			for _, w := range lv[:i] {
				w := w
				if w.init.sort != "Int" || w.comp == "arr" || w.comp == "cap" || w.comp == "off" || w.typ != nil && !isIntT(w.typ) && w.comp != "len" {
					continue
				}
				add(v.name+" moves with "+w.name, func(s *State, ph map[*ssa.Phi]Val) *Term {
					return c.Eq(c.Sub(v.get(s, ph), v.init), c.Sub(w.get(s, ph), w.init))
				})
			}
		case "Bool", "Str", "Iface":
			add(v.name+" == init", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Eq(v.get(s, ph), v.init) })
		}
	}
	// slice well-formedness of phi slices: nil or fresh arrays with their offset
	// frame of heap maps
	for _, k := range mk {
		if k == "*" || strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "G:") || M["*"] {
			continue
		}
		k := k
		srt := x.keySort[k]
		if !unknown[k] && !hasFresh(refs[k]) && len(refs[k]) <= 4 {
			continue
		}
		h0 := x.hget(st0, k, srt)
		frameOf := func(s *State, extra []*Term) *Term {
			r := c.BV("r", "Int")
			cur := x.hget(s, k, srt)
			if cur == h0 {
				return c.True
			}
			cond := []*Term{c.Lt(c.Int(0), r), c.Le(r, entryAlloc)}
			for _, e := range sortedTerms(refs[k]) {
				if e != freshMark {
					cond = append(cond, c.Not(c.Eq(r, e)))
				}
			}
			for _, e := range extra {
				cond = append(cond, c.Not(c.Eq(r, e)))
			}
			sc := c.mk(&Term{op: "select", args: []*Term{cur, r}, sort: elemSort(srt)})
			return c.Forall([]*Term{r}, c.Implies(c.And(cond...), c.Eq(sc, c.Select(h0, r))), []*Term{sc})
		}
		if !unknown[k] {
			x.addFact(c.Implies(hst.guard, frameOf(hst, nil)))
			var exc []*Term
			for _, e := range sortedTerms(refs[k]) {
				if e != freshMark {
					exc = append(exc, e)
				}
			}
			if cur := x.hget(hst, k, srt); cur.op == "var" {
				c.framed[cur] = frameInfo{h0, entryAlloc, exc}
			}
			continue
		}
		if x.target != nil && x.target.lean && x.frameMods != nil && len(x.frameMods[k]) == 0 {
			x.frameSince(add, k, srt)
			continue
		}
		add("frame "+k, func(s *State, _ map[*ssa.Phi]Val) *Term { return frameOf(s, nil) })
		if cur := x.hget(hst, k, srt); cur.op == "var" && x.promote[loopID+" frame "+k] {
			var exc []*Term
			for _, e := range sortedTerms(refs[k]) {
				if e != freshMark {
					exc = append(exc, e)
				}
			}
			promoted = append(promoted, func() { c.framed[cur] = frameInfo{h0, entryAlloc, exc} })
		}
		if len(x.frameMods[k]) > 0 {
			x.frameSince(add, k, srt)
		}
		if len(inits) > 0 {
			add("frame' "+k, func(s *State, _ map[*ssa.Phi]Val) *Term { return frameOf(s, inits) })
		}
	}
	// visited set is a subset of the keys
	for _, k := range mk {
		if !strings.HasPrefix(k, "V:") {
			continue
		}
		k := k
		if strings.HasSuffix(k, "#n") {
			add("iterations counted from 0", func(s *State, _ map[*ssa.Phi]Val) *Term { return c.Le(c.Int(0), x.hget(s, k, "Int")) })
			for _, p := range phis {
				p := p
				if !P[p] {
					continue
				}
				switch v0 := init[p].(type) {
				case *SliceVal:
					add("one element per iteration", func(s *State, ph map[*ssa.Phi]Val) *Term {
						return c.Eq(ph[p].(*SliceVal).ln, c.Add(v0.ln, x.hget(s, k, "Int")))
					})
				case *Term:
					if isIntT(p.Type()) {
						add("counts iterations", func(s *State, ph map[*ssa.Phi]Val) *Term {
							return c.Eq(ph[p].(*Term), c.Add(v0, x.hget(s, k, "Int")))
						})
					}
				}
			}
			continue
		}
		it := x.iterOf(f, k)
		if it == nil {
			continue
		}
		add("visited keys exist", func(s *State, _ map[*ssa.Phi]Val) *Term {
			ks := x.keySortOf(it.mt)
			bv := c.BV("k", ks)
			vis := x.hget(s, k, ArrSort(ks, "Bool"))
			has := x.mapHasArr(s, it.m, it.mt)
			sv := c.mk(&Term{op: "select", args: []*Term{vis, bv}, sort: "Bool"})
			return c.Forall([]*Term{bv}, c.Implies(c.Select(vis, bv), c.Select(has, bv)), []*Term{sv})
		})
	}
	// user templates
	for _, tp := range x.w.invs {
		if !x.applies(tp) || tp.variant {
			continue
		}
		for _, bs := range x.bindTemplate(f, l, tp, phis) {
			bs := bs
			tp := tp
			if !x.templateOK(f, tp, bs, st0, init) || !x.templateOK(f, tp, bs, hst, hphis) {
				continue
			}
			add("inv "+tp.fn.Name()+bindStr(bs), func(s *State, ph map[*ssa.Phi]Val) *Term { return x.evalTemplate(f, tp, bs, s, ph) })
		}
	}
	// entry checks
	var cands []*Cand
	for _, k := range cs {
		t := k.mk(st0, init)
		cd := &Cand{id: len(x.cands), desc: loopID + " " + k.desc, alive: true, mk: k.mk, frame: strings.HasPrefix(k.desc, "frame ")}
		if t.bound {
			cd.alive = false
		}
		x.cands = append(x.cands, cd)
		cands = append(cands, cd)
		x.items = append(x.items, &Item{kind: "cand", guard: st0.guard, t: t, sel: cd, name: cd.desc + " [entry]", user: k.user, node: x.node})
	}
	for _, cd := range cands {
		if !cd.frame {
			continue
		}
		t := cd.mk(hst, hphis)
		x.items = append(x.items, &Item{kind: "fact", t: c.Implies(hst.guard, t), sel: cd, node: x.node})
	}
	for _, f := range promoted {
		f()
	}
	for _, cd := range cands {
		if cd.frame {
			continue
		}
		t := cd.mk(hst, hphis)
		x.items = append(x.items, &Item{kind: "fact", t: c.Implies(hst.guard, t), sel: cd, node: x.node})
	}
	// variants
	type vart struct {
		cd *Cand
		mk func(s *State, ph map[*ssa.Phi]Val) *Term
		h  *Term
	}
	var vs []vart
	addVar := func(desc string, m func(s *State, ph map[*ssa.Phi]Val) *Term) {
		cd := &Cand{id: len(x.cands), desc: loopID + " variant " + desc, alive: true}
		x.cands = append(x.cands, cd)
		vs = append(vs, vart{cd, m, m(hst, hphis)})
	}
	for _, v := range lv {
		v := v
		if v.init.sort != "Int" || v.comp == "arr" || v.comp == "cap" || v.comp == "off" || v.typ != nil && !isIntT(v.typ) && v.comp == "" {
			continue
		}
		if x.target != nil && x.target.lean {
			break
		}
		for _, b := range bounds {
			b := b
			addVar("bound-"+v.name, func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Sub(b, v.get(s, ph)) })
			addVar(v.name+"-bound", func(s *State, ph map[*ssa.Phi]Val) *Term { return c.Sub(v.get(s, ph), b) })
		}
	}
	for _, tp := range x.w.invs {
		if !x.applies(tp) || !tp.variant {
			continue
		}
		for _, bs := range x.bindTemplate(f, l, tp, phis) {
			bs := bs
			tp := tp
			addVar(tp.fn.Name(), func(s *State, ph map[*ssa.Phi]Val) *Term { return x.evalTemplate(f, tp, bs, s, ph) })
		}
	}
	lp := &loopRun{}
	isMap := len(vs) == 0 && hasNext(h)
	for _, p := range phis {
		f.env[p] = hphis[p]
	}
	exits := x.region(f, order, loops, h, []edgeIn{{nil, hst.clone()}}, l.blocks, rets, lp)
	for _, b := range lp.backs {
		x.node = b.st.node
		ph := map[*ssa.Phi]Val{}
		for _, p := range phis {
			for k, pr := range h.Preds {
				if pr == b.pred {
					ph[p] = x.val(f, p.Edges[k])
				}
			}
		}
		for ci, cd := range cands {
			t := cd.mk(b.st, ph)
			if t.bound {
				cd.alive = false
			}
			x.items = append(x.items, &Item{kind: "cand", guard: b.st.guard, t: t, sel: cd, name: cd.desc + " [preserved]", user: cs[ci].user, node: x.node})
		}
		for _, v := range vs {
			t := v.mk(b.st, ph)
			x.items = append(x.items, &Item{kind: "cand", guard: b.st.guard, t: c.And(c.Lt(t, v.h), c.Le(c.Int(0), v.h)), sel: v.cd, name: v.cd.desc, node: x.node, vt: true})
		}
	}
	var vcs []*Cand
	for _, v := range vs {
		vcs = append(vcs, v.cd)
	}
	if len(lp.backs) > 0 && !isMap && !hasNext(h) {
		x.items = append(x.items, &Item{kind: "term", name: x.target.name + "/termination of " + loopID, vars: vcs, guard: c.True, t: c.True})
	}
	return exits
}

func hasNext(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

var freshMark = &Term{op: "freshmark", id: -1}

func hasFresh(m map[*Term]bool) bool { return m[freshMark] }

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// freshRef: reference allocated inside the loop (offset from an alloc counter created after n0).
func freshRef(c *Ctx, r *Term, n0 int) bool {
	b, o, ok := c.baseOff(r)
	return ok && o > 0 && strings.HasPrefix(b.name, "alloc!") && b.id >= n0
}

func (x *Exec) loopPos(h *ssa.BasicBlock) string {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	return h.Parent().Name()
}

func (x *Exec) iterOf(f *frame, key string) *IterV {
	for _, v := range f.env {
		if it, ok := v.(*IterV); ok && it.key == key {
			return it
		}
	}
	return nil
}

func (x *Exec) applies(tp *InvTemplate) bool {
	for _, t := range tp.targets {
		if t == "*" || t == x.target.name {
			return true
		}
	}
	return false
}

type binding struct {
	phi  *ssa.Phi
	val  Val
	cell Val // pointer to local
	ct   types.Type
}

// bindTemplate enumerates the bindings of a template's parameters.
func (x *Exec) bindTemplate(f *frame, l *loopInfo, tp *InvTemplate, phis []*ssa.Phi) [][]binding {
	var opts [][]binding
	var nnamed []int
	names := map[ssa.Value]map[string]bool{}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil {
				if names[d.X] == nil {
					names[d.X] = map[string]bool{}
				}
				names[d.X][d.Object().Name()] = true
			}
		}
	}
	for _, p := range tp.fn.Params {
		if v, ok := x.tparams[p.Name()]; ok && types.Identical(x.ttypes[p.Name()], p.Type()) {
			opts = append(opts, []binding{{val: v}})
			nnamed = append(nnamed, 1)
			continue
		}
		// values of the parameter's type, those of its name first
		var named, o []binding
		put := func(n string, v ssa.Value, b binding) {
			if n == p.Name() || names[v][p.Name()] {
				named = append(named, b)
			} else {
				o = append(o, b)
			}
		}
		for _, ph := range phis {
			if types.Identical(ph.Type(), p.Type()) {
				put(ph.Comment, ph, binding{phi: ph})
			}
		}
		for _, q := range f.fn.Params {
			if types.Identical(q.Type(), p.Type()) {
				put(q.Name(), q, binding{val: f.env[q]})
			}
		}
		for i, q := range f.fn.FreeVars {
			if types.Identical(q.Type(), p.Type()) {
				put(q.Name(), q, binding{val: f.bind[i]})
			} else if pt, ok := q.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), p.Type()) {
				put(q.Name(), q, binding{cell: f.bind[i], ct: pt.Elem()})
			}
		}
		for _, b := range f.fn.Blocks {
			if l.blocks[b] || !b.Dominates(l.header) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if a, ok := in.(*ssa.Alloc); ok {
					if t := a.Type().(*types.Pointer).Elem(); types.Identical(t, p.Type()) {
						if pv, ok := f.env[a]; ok {
							put(a.Comment, a, binding{cell: pv, ct: t})
						}
					}
				}
				if types.Identical(v.Type(), p.Type()) {
					if ev, ok := f.env[v]; ok {
						put("", v, binding{val: ev})
					}
				}
			}
		}
		o = append(named, o...)
		nnamed = append(nnamed, len(named))
		if len(o) == 0 {
			return nil
		}
		opts = append(opts, o)
	}
	all := 1
	for _, o := range opts {
		all *= len(o)
	}
	if all > 2 {
		// too many: where a value has the parameter's name, take only those
		for i := range opts {
			if nnamed[i] > 0 {
				opts[i] = opts[i][:nnamed[i]]
			}
		}
	}
	var out [][]binding
	var rec func(i int, cur []binding)
	rec = func(i int, cur []binding) {
		if len(out) >= 150 {
			return
		}
		if i == len(opts) {
			out = append(out, append([]binding{}, cur...))
			return
		}
		for _, b := range opts[i] {
			rec(i+1, append(cur, b))
		}
	}
	rec(0, nil)
	return out
}

// templateOK: the template can be evaluated on this binding.
func (x *Exec) templateOK(f *frame, tp *InvTemplate, bs []binding, s *State, ph map[*ssa.Phi]Val) (ok bool) {
	spec, bf, stack, depth := x.spec, x.bfacts, x.stack, x.depth
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			x.spec, x.bfacts, x.stack, x.depth = spec, bf, stack, depth
			ok = false
		}
	}()
	x.evalTemplate(f, tp, bs, s, ph)
	return true
}

func (x *Exec) evalTemplate(f *frame, tp *InvTemplate, bs []binding, s *State, ph map[*ssa.Phi]Val) (res *Term) {
	var args []Val
	s2 := s.clone()
	s2.guard = x.c.True
	savedItems := len(x.items)
	savedCur, savedMode, savedH, savedT := x.cur, x.mode, x.harness, x.inTarget
	defer func() {
		x.cur, x.mode, x.harness, x.inTarget = savedCur, savedMode, savedH, savedT
		_ = savedItems
	}()
	x.spec++
	defer func() { x.spec-- }()
	for i, b := range bs {
		switch {
		case b.phi != nil:
			args = append(args, ph[b.phi])
		case b.cell != nil:
			args = append(args, x.load(s2, b.cell, b.ct))
		default:
			args = append(args, b.val)
		}
		x.typeFacts(args[i], tp.fn.Params[i].Type(), s2)
	}
	r, _ := x.run(tp.fn, args, nil, s2)
	if len(r) != 1 {
		return x.c.True
	}
	return r[0].(*Term)
}

func dbgLoop(iter int, k string, t *Term) {
	if os.Getenv("GOWP_DEBUG") != "" {
		s := ""
		if t != nil && t != freshMark {
			s = NewCtx().Show(t)
		}
		fmt.Fprintln(os.Stderr, "loop", iter, k, s)
	}
}

func bindStr(bs []binding) string {
	s := "("
	for i, b := range bs {
		if i > 0 {
			s += ","
		}
		switch {
		case b.phi != nil:
			s += "phi " + b.phi.Comment
		case b.cell != nil:
			s += "cell"
		default:
			s += "val"
			if sv, ok := b.val.(*SliceVal); ok && sv.arr.op == "var" {
				s += " " + sv.arr.name
			}
			if tv, ok := b.val.(*Term); ok && tv.op == "var" {
				s += " " + tv.name
			}
		}
	}
	return s + ")"
}

// frameSince: nothing but what the contract lets change has changed since its entry.
func (x *Exec) frameSince(add func(string, func(*State, map[*ssa.Phi]Val) *Term), k, srt string) {
	c := x.c
	e0 := x.hget(x.entryState, k, srt)
	a0 := x.entryAlloc
	add("frame'' "+k, func(s *State, _ map[*ssa.Phi]Val) *Term {
		r := c.BV("r", "Int")
		cur := x.hget(s, k, srt)
		if cur == e0 {
			return c.True
		}
		cond := []*Term{c.Lt(c.Int(0), r), c.Le(r, a0)}
		for _, e := range x.frameMods[k] {
			cond = append(cond, c.Not(c.Eq(r, e)))
		}
		sc := c.mk(&Term{op: "select", args: []*Term{cur, r}, sort: elemSort(srt)})
		return c.Forall([]*Term{r}, c.Implies(c.And(cond...), c.Eq(sc, c.Select(e0, r))), []*Term{sc})
	})
}

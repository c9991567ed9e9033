package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sync.Pool: an object put into a pool may at once be taken and overwritten by
// another goroutine, so Put gives up ownership of the object and its content
// becomes arbitrary. Get gives an owned object that no other reference
// designates, with arbitrary content except for what the pool's invariant says.

const ownedKey = "W:owned"

var ownedSort = ArrSort("Int", "Bool")

// poolElem finds the pointer type held by a pool from its New function.
func (x *Exec) poolElem(g *ssa.Global) (*types.Pointer, *ssa.Function) {
	ini := g.Pkg.Func("init")
	homes := map[ssa.Value]bool{g: true}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if u, ok := s.Val.(*ssa.UnOp); ok {
					homes[u.X] = true
				}
			}
		}
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !homes[fa.X] {
				continue
			}
			var fn *ssa.Function
			switch v := s.Val.(type) {
			case *ssa.Function:
				fn = v
			case *ssa.MakeClosure:
				fn = v.Fn.(*ssa.Function)
			}
			if fn == nil {
				continue
			}
			for _, b2 := range fn.Blocks {
				for _, in2 := range b2.Instrs {
					if r, ok := in2.(*ssa.Return); ok && len(r.Results) == 1 {
						if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
							if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
								return p, fn
							}
						}
					}
				}
			}
		}
	}
	return nil, nil
}

func (x *Exec) poolCall(fn *ssa.Function, cc *ssa.CallCommon, args []Val, st *State, pos token.Pos) ([]Val, *State, bool) {
	nm := fn.String()
	if nm != "(*sync.Pool).Get" && nm != "(*sync.Pool).Put" {
		return nil, st, false
	}
	g, ok := cc.Args[0].(*ssa.Global)
	if !ok {
		unsup("pool that is not a package variable")
	}
	pt, newFn := x.poolElem(g)
	if pt == nil {
		unsup("pool %s without a New function of a pointer type", g)
	}
	x.noteAssume("sync.Pool hands out objects that nothing else designates (checked: Put of owned objects only)")
	c := x.c
	inv := x.w.poolInvs[g.Name()]
	holds := func(p *Term, s *State) *Term {
		if inv == nil {
			return nil
		}
		s2 := s.clone()
		s2.guard = c.True
		savedCur, savedMode, savedH, savedT := x.cur, x.mode, x.harness, x.inTarget
		x.spec++
		x.cur, x.mode, x.harness = nil, modeNone, false
		r, _ := x.run(inv, []Val{p}, nil, s2)
		x.spec--
		x.cur, x.mode, x.harness, x.inTarget = savedCur, savedMode, savedH, savedT
		return r[0].(*Term)
	}
	st = st.clone()
	if nm == "(*sync.Pool).Get" {
		if inv != nil && x.dry == 0 {
			// the New function establishes the invariant
			s2 := st.clone()
			r, s3 := x.callFn(newFn, nil, nil, s2, pos)
			v := x.unbox(r[0].(*Term), pt, s3)
			x.obl2(s3, "pool", "new objects of "+g.Name()+" satisfy the pool invariant", holds(v.(*Term), s3), pos)
		}
		ref := x.newRef(st)
		x.store(st, ref, pt.Elem(), x.havocVal("pooled", pt.Elem(), st))
		o := x.hget(st, ownedKey, ownedSort)
		x.hsetAt(st, ownedKey, c.Store(o, ref, c.True), ref)
		if p := holds(ref, st); p != nil {
			x.fact(st, p)
		}
		return []Val{x.box(ref, pt)}, st, true
	}
	b := args[1].(*Term)
	v, ok := x.unbox(b, pt, st).(*Term)
	if !ok {
		unsup("Put of an interior pointer")
	}
	o := x.hget(st, ownedKey, ownedSort)
	x.obl2(st, "pool", "the object put into "+g.Name()+" is owned (taken from the pool and not put back yet)", c.And(x.hasTag(b, pt), c.Not(c.Eq(v, c.Int(0))), c.Select(o, v)), pos)
	if p := holds(v, st); p != nil {
		x.obl2(st, "pool", "objects put into "+g.Name()+" satisfy the pool invariant", p, pos)
	}
	x.havocLoc(st, v, pt)
	o = x.hget(st, ownedKey, ownedSort)
	x.hsetAt(st, ownedKey, c.Store(o, v, c.False), v)
	return nil, st, true
}

// isFunc tells whether function value v is the named function.
func (x *Exec) isFunc(v Val, name string) *Term {
	c := x.c
	switch w := v.(type) {
	case *Clo:
		s := w.fn.String()
		return boolTerm(c, s == name || strings.HasSuffix(s, "."+name))
	case *Multi:
		r := x.isFunc(w.v[len(w.v)-1], name)
		for i := len(w.v) - 2; i >= 0; i-- {
			r = c.Ite(w.g[i], x.isFunc(w.v[i], name), r)
		}
		return r
	case *Term:
		if u, ok := x.reg[w]; ok {
			return x.isFunc(u, name)
		}
		if w.op == "ite" {
			return c.Ite(w.args[0], x.isFunc(w.args[1], name), x.isFunc(w.args[2], name))
		}
		if w.op == "int" {
			return c.False
		}
		var ts []*Term
		for t, u := range x.reg {
			if _, ok := u.(*Clo); ok && !t.bound && !x.pureDone["isfn#"+name+fmt.Sprintf("%p", t)] {
				x.pureDone["isfn#"+name+fmt.Sprintf("%p", t)] = true
				ts = append(ts, t)
			}
		}
		sort.Slice(ts, func(i, j int) bool { return c.Show(ts[i]) < c.Show(ts[j]) })
		for _, t := range ts {
			x.addAxiom(c.Eq(c.App("isfn#"+name, "Bool", t), x.isFunc(x.reg[t], name)))
		}
		return c.App("isfn#"+name, "Bool", w)
	}
	return c.False
}

func boolTerm(c *Ctx, b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

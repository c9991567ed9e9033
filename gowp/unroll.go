package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// unrolls tells whether loop l is executed iteration by iteration: the contract
// asks for it and gives no invariant for this loop.
func (x *Exec) unrolls(f *frame, l *loopInfo) bool {
	if x.target == nil || x.target.unroll == 0 || x.spec > 0 {
		return false
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	for _, tp := range x.w.invs {
		if !tp.variant && x.applies(tp) && len(x.bindTemplate(f, l, tp, phis)) > 0 {
			return false
		}
	}
	return true
}

// unrolled executes loop l iteration by iteration; that the last iteration allowed
// does not go on is an obligation, so nothing is left unexplored.
func (x *Exec) unrolled(f *frame, order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo, l *loopInfo, es []edgeIn, rets *[]retInfo) []exitEdge {
	// values defined in the loop and used after it
	var outer []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					outer = append(outer, v)
					break
				}
			}
		}
	}
	type exitVals struct {
		g    *Term
		vals map[ssa.Value]Val
	}
	var exits []exitEdge
	var evs []exitVals
	// every path through the loop is followed by itself
	var follow func(k int, es []edgeIn)
	follow = func(k int, es []edgeIn) {
		if k == x.target.unroll {
			for _, e := range es {
				x.node = e.st.node
				x.obl2(e.st, "loop", fmt.Sprintf("ends within %d iterations", x.target.unroll), x.c.False, l.header.Instrs[0].Pos())
			}
			return
		}
		st := x.enter(f, l.header, es, false)
		lp := &loopRun{}
		ex := x.region(f, order, loops, l.header, []edgeIn{{nil, st}}, l.blocks, rets, lp)
		for _, e := range ex {
			m := map[ssa.Value]Val{}
			for _, v := range outer {
				m[v] = f.env[v]
			}
			evs = append(evs, exitVals{e.st.guard, m})
		}
		exits = append(exits, ex...)
		env := f.env
		for _, e := range lp.backs {
			f.env = make(map[ssa.Value]Val, len(env))
			for k, v := range env {
				f.env[k] = v
			}
			follow(k+1, []edgeIn{e})
		}
		f.env = env
	}
	follow(0, es)
	for _, v := range outer {
		var r Val
		var acc *Term
		for i := len(evs) - 1; i >= 0; i-- {
			w := evs[i].vals[v]
			if w == nil {
				continue
			}
			if r == nil {
				r, acc = w, evs[i].g
			} else {
				r = x.mergeVal(x.discr(evs[i].g, acc), w, r)
				acc = x.c.Or(evs[i].g, acc)
			}
		}
		if r != nil {
			f.env[v] = r
		}
	}
	return exits
}

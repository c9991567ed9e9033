package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specInfo struct {
	fn    *ssa.Function
	name  string
	sorts []string
	res   []Leaf
	keys  []string // heap maps read (at contract entry)
	srts  []string
	leaf  bool // calls no specification function
}

const fuelMax = 2

// callSpec: a recursive specification function is uninterpreted, with definitional axioms unrolled by fuel.
func (x *Exec) callSpec(fn *ssa.Function, args []Val, st *State) ([]Val, *State) {
	var as []*Term
	for i, p := range fn.Params {
		as = append(as, x.contentArgs(args[i], p.Type(), st)...)
	}
	name := "spec#" + fn.String()
	si := x.specDef[name]
	lvl := x.specLvl
	x.specCalls++
	if si == nil {
		si = &specInfo{fn: fn, name: name}
		for _, a := range as {
			si.sorts = append(si.sorts, a.sort)
		}
		x.specDef[name] = si
		saved := x.specLvl
		for k := fuelMax; k >= 1 && !si.leaf; k-- {
			x.specLvl = k - 1
			n := x.specCalls
			for x.defineSpec(si, k) {
			}
			si.leaf = k == fuelMax && x.specCalls == n
		}
		x.specLvl = saved
	}
	if si.leaf {
		lvl = fuelMax
	}
	// heap maps are read in the entry state of the contract
	hs := st
	if x.cur != nil && x.mode == modeUse && x.cur.entry != nil {
		hs = x.cur.entry
	} else if st.def.epoch != -1 && x.entryState != nil {
		hs = x.entryState
	}
	for i, k := range si.keys {
		as = append(as, x.hget(hs, k, si.srts[i]))
	}
	rt := fn.Signature.Results().At(0).Type()
	k := 0
	v := x.build(rt, func(l Leaf) *Term {
		k++
		return x.c.App(fmt.Sprintf("%s/%d#%d@%d", name, len(si.keys), k, lvl), l.sort, as...)
	})
	if lvl == fuelMax {
		x.typeFacts(v, rt, st)
	}
	return []Val{v}, st
}

// specArgs builds argument values from content variables.
func (x *Exec) specArg(t types.Type, st *State, bvs *[]*Term, n *int) Val {
	c := x.c
	if sl, ok := t.Underlying().(*types.Slice); ok {
		*n++
		ref := c.Int(int64(-1000 - *n))
		for _, l := range x.leaves(sl.Elem()) {
			key := "E:" + tstr(sl.Elem()) + ":" + l.path
			b := c.BV("A", ArrSort("Int", l.sort))
			*bvs = append(*bvs, b)
			h := x.hget(st, key, ArrSort("Int", ArrSort("Int", l.sort)))
			st.heap[key] = c.Store(h, ref, b)
		}
		off, ln := c.BV("off", "Int"), c.BV("len", "Int")
		*bvs = append(*bvs, off, ln)
		return &SliceVal{ref, off, ln, ln, sl.Elem()}
	}
	if stt, ok := t.Underlying().(*types.Struct); ok {
		s := &StructVal{T: t}
		for i := 0; i < stt.NumFields(); i++ {
			s.F = append(s.F, x.specArg(stt.Field(i).Type(), st, bvs, n))
		}
		return s
	}
	return x.build(t, func(l Leaf) *Term {
		b := c.BV("a", l.sort)
		*bvs = append(*bvs, b)
		return b
	})
}

func (x *Exec) defineSpec(si *specInfo, k int) (again bool) {
	c := x.c
	fn := si.fn
	st := &State{guard: c.True, heap: map[string]*Term{}, alloc: c.Var("alloc!spec", "Int"), def: &HeapDef{epoch: -1}}
	var bvs []*Term
	var args []Val
	n := 0
	var hbs []*Term
	for i, key := range si.keys {
		b := c.BV("H", si.srts[i])
		hbs = append(hbs, b)
		st.heap[key] = b
		x.keySort[key] = si.srts[i]
	}
	for _, p := range fn.Params {
		args = append(args, x.specArg(p.Type(), st, &bvs, &n))
	}
	bvs = append(bvs, hbs...)
	savedCur, savedMode, savedH, savedT, savedStack, savedDry := x.cur, x.mode, x.harness, x.inTarget, x.stack, x.dry
	x.cur, x.mode, x.harness, x.inTarget, x.stack, x.dry = nil, modeNone, false, false, nil, 0
	sbf := x.bfacts
	x.bfacts = nil
	x.spec++
	node := x.node
	x.node = nil
	r, _ := x.run(fn, args, nil, st)
	x.node = node
	x.spec--
	x.bfacts = sbf
	x.cur, x.mode, x.harness, x.inTarget, x.stack, x.dry = savedCur, savedMode, savedH, savedT, savedStack, savedDry
	if len(r) != 1 {
		unsup("spec function %s", fn)
	}
	rt := fn.Signature.Results().At(0).Type()
	fs := x.flat(r[0], rt)
	seen := map[*Term]bool{}
	for i := range x.leaves(rt) {
		varsOf(fs[i], seen, func(v *Term) bool {
			if key, ok := strings.CutPrefix(v.name, "H-1:"); ok {
				si.keys = append(si.keys, key)
				si.srts = append(si.srts, v.sort)
				again = true
			}
			return true
		})
	}
	if again {
		if k != fuelMax {
			unsup("spec function %s: unstable heap reads", fn)
		}
		return
	}
	for i, l := range x.leaves(rt) {
		hi := c.App(fmt.Sprintf("%s/%d#%d@%d", si.name, len(si.keys), i+1, k), l.sort, bvs...)
		lo := c.App(fmt.Sprintf("%s/%d#%d@%d", si.name, len(si.keys), i+1, k-1), l.sort, bvs...)
		eq := func(a, b *Term) *Term { return c.mk(&Term{op: "=", args: []*Term{a, b}, sort: "Bool"}) }
		if x.target != nil && x.target.abstract[fn.Name()] {
			x.addAxiom(c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{eq(hi, lo)}, sort: "Bool", pats: [][]*Term{{hi}}}))
			continue
		}
		x.addAxiom(c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{eq(hi, fs[i])}, sort: "Bool", pats: [][]*Term{{hi}}}))
		x.addAxiom(c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{eq(hi, lo)}, sort: "Bool", pats: [][]*Term{{hi}}}))
		if l.sort == "Int" && l.comp == "" && isIntT(l.t) {
			a, b := intRange(l.t)
			x.addAxiom(c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{c.And(c.Le(c.BigInt(a), hi), c.Le(hi, c.BigInt(b)))}, sort: "Bool", pats: [][]*Term{{hi}}}))
		}
	}
	return
}

// initPkgOf evaluates package initialisation to learn the values of never-reassigned globals.
func (x *Exec) initPkgOf(g *ssa.Global) {
	p := g.Pkg
	if p == nil || x.initDone[p] {
		return
	}
	x.initDone[p] = true
	ok := false
	for _, q := range x.w.spkgs {
		if q == p {
			ok = true
		}
	}
	if !ok {
		return
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	c := x.c
	saved := struct {
		spec, mode, dry   int
		cur               *useCtx
		harness, inTarget bool
		stack             []*ssa.Function
		wlog              []map[string]bool
		reflog            []map[string]map[*Term]bool
		node              *Node
	}{x.spec, x.mode, x.dry, x.cur, x.harness, x.inTarget, x.stack, x.wlog, x.reflog, x.node}
	x.spec++
	x.node = nil
	x.cur, x.mode, x.harness, x.inTarget, x.stack, x.dry = nil, modeNone, false, false, nil, 0
	x.wlog, x.reflog = nil, nil
	x.initAlloc += 0
	st := &State{guard: c.True, heap: map[string]*Term{}, alloc: c.Int(x.initAlloc), def: &HeapDef{epoch: -2}}
	x.frames++
	f := &frame{fn: fn, env: map[ssa.Value]Val{}, id: x.frames}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, isV := in.(ssa.Value)
			switch i := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
				continue
			case *ssa.Call:
				if cf := i.Call.StaticCallee(); cf != nil && cf.Name() == "init" && len(i.Call.Args) == 0 {
					continue
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if isV {
							func() {
								defer func() { recover() }()
								f.env[v] = x.havocVal("init", v.Type(), st)
							}()
						}
					}
				}()
				s2 := st.clone()
				ns := x.instr(f, in, s2)
				if ns != nil {
					st = ns
				}
			}()
		}
	}
	if st.alloc.op == "int" {
		x.initAlloc = st.alloc.ival.Int64()
	}
	x.spec, x.cur, x.mode, x.harness, x.inTarget, x.stack, x.dry = saved.spec, saved.cur, saved.mode, saved.harness, saved.inTarget, saved.stack, saved.dry
	x.wlog, x.reflog, x.node = saved.wlog, saved.reflog, saved.node
	for k, v := range st.heap {
		if strings.HasPrefix(k, "G:") && x.w.immutableGlobal(k) && !strings.Contains(k, "init$guard") {
			x.globInit[k] = v
		}
	}
}

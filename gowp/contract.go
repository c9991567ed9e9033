package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	modeNone = iota
	modeProve
	modeUse
)

type Item struct {
	kind   string // "fact","obl","cand","cover"
	guard  *Term
	t      *Term
	name   string
	okind  string
	pos    string
	sel    *Cand
	user   bool
	status string
	by     string
	vars   []*Cand
	out    string
	node   *Node
	vt     bool // of a variant
}

type Cand struct {
	id    int
	desc  string
	v     *Term
	alive bool
	frame bool
	why   string
	mk    func(s *State, ph map[*ssa.Phi]Val) *Term
}

type useCtx struct {
	ct       *Contract
	pre      *State
	mods     []Val
	modT     []types.Type
	all      bool
	rets     []Val
	entry    *State // state at target call
	post     *State
	called   bool
	preAlloc *Term
	args     []Val
	pos      token.Pos
}

type Exec struct {
	mu         sync.Mutex
	w          *World
	c          *Ctx
	leafCache  map[string][]Leaf
	reg        map[*Term]Val
	keySort    map[string]string
	globInit   map[string]*Term
	wlog       []map[string]bool
	reflog     []map[string]map[*Term]bool
	dry        int
	spec       int
	math       int
	depth      int
	frames     int
	epochs     int
	stack      []*ssa.Function
	target     *Contract
	mode       int
	inTarget   bool
	harness    bool
	noContract map[*ssa.Function]bool
	inlined    map[string]bool
	used       map[string]*Contract
	items      []*Item
	cands      []*Cand
	wtSeen     map[*Term][]*Node
	node       *Node
	nodeN      int
	frameMods  map[string][]*Term // references the target may modify, by heap map
	bfacts     []*Term
	lenTerms   map[*Term]bool
	knownTag   map[*Term]string
	boxDecl    map[string]bool
	assumes    map[string]bool
	online     *Solver
	feasMemo   map[*Term]bool
	cur        *useCtx // innermost contract activation
	entryAlloc *Term
	entryState *State
	tparams    map[string]Val // contract parameters by name
	ttypes     map[string]types.Type
	alts       map[*Term][]*Term
	specLvl    int
	specCalls  int
	hardFails  int
	promote    map[string]bool
	alloc0     *Term
	pureDone   map[string]bool
	specDef    map[string]*specInfo
	initDone   map[*ssa.Package]bool
	oblCount   map[string]int
	loopN      int
	noVariant  []string
	termMode   bool
	initAlloc  int64
}

func NewExec(w *World) *Exec {
	c := NewCtx()
	x := &Exec{w: w, c: c, leafCache: map[string][]Leaf{}, reg: map[*Term]Val{}, keySort: map[string]string{}, globInit: map[string]*Term{}, noContract: map[*ssa.Function]bool{}, inlined: map[string]bool{}, used: map[string]*Contract{}, wtSeen: map[*Term][]*Node{}, lenTerms: map[*Term]bool{}, knownTag: map[*Term]string{}, boxDecl: map[string]bool{}, assumes: map[string]bool{}, feasMemo: map[*Term]bool{}, alts: map[*Term][]*Term{}, specLvl: 2, specDef: map[string]*specInfo{}, initDone: map[*ssa.Package]bool{}, pureDone: map[string]bool{}, oblCount: map[string]int{}}
	c.declared["str#0"] = true
	c.declared["chr1"] = true
	c.funs["chr1"] = "Str"
	t := c.mk(&Term{op: "strc", name: "str#0", sort: "Str"})
	c.strs[""] = t
	return x
}

func (x *Exec) noteAssume(s string) { x.assumes[s] = true }

func (x *Exec) addFact(t *Term) {
	if t == x.c.True {
		return
	}
	if t.bound {
		return
	}
	if x.dry > 0 {
		return
	}
	x.items = append(x.items, &Item{kind: "fact", t: t, node: x.node})
}
func (x *Exec) addAxiom(t *Term) {
	if t == x.c.True {
		return
	}
	x.items = append(x.items, &Item{kind: "fact", t: t})
}

func (x *Exec) fact(st *State, t *Term) {
	if t.bound || st.guard.bound {
		x.bfacts = append(x.bfacts, x.c.Implies(st.guard, t))
		return
	}
	x.addFact(x.c.Implies(st.guard, t))
}

// obl records a run-time-error obligation (ignored in specification code).
func (x *Exec) obl(st *State, kind, desc string, cond *Term, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	x.obl2(st, kind, desc, cond, pos)
}

func (x *Exec) obl2(st *State, kind, desc string, cond *Term, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	if cond.bound || st.guard.bound {
		return
	}
	where := ""
	if len(x.stack) > 0 {
		where = x.stack[len(x.stack)-1].RelString(nil)
		where = where[strings.LastIndex(where, "/")+1:]
	}
	name := fmt.Sprintf("%s/%s/%s: %s", x.target.name, where, kind, desc)
	x.oblCount[name]++
	if n := x.oblCount[name]; n > 1 {
		name = fmt.Sprintf("%s #%d", name, n)
	}
	it := &Item{kind: "obl", guard: st.guard, t: cond, name: name, okind: kind, pos: x.pos(pos), node: x.node}
	x.items = append(x.items, it)
	if cond != x.c.True {
		x.items = append(x.items, &Item{kind: "fact", t: x.c.Implies(st.guard, cond), node: x.node})
	}
}

func (x *Exec) cover(st *State, name string) {
	if x.dry > 0 {
		return
	}
	x.items = append(x.items, &Item{kind: "cover", guard: st.guard, t: x.c.True, name: x.target.name + "/cover: " + name, node: x.node})
}

// feasible asks the online solver whether g can hold.
func (x *Exec) feasible(g *Term) bool {
	if g == x.c.False {
		return false
	}
	if g.bound {
		return true
	}
	if r, ok := x.feasMemo[g]; ok && !r {
		return false
	}
	if x.online == nil {
		x.online = NewSolver(x.c, 150, false)
	}
	x.prepare(x.online, len(x.items), x.node.ancestors(), false)
	t0 := time.Now()
	res := x.online.Check(x.posAlt(g, true))
	if os.Getenv("GOWP_FEAS") != "" {
		fmt.Fprintf(os.Stderr, "FEAS %s %.3f\n", res, time.Since(t0).Seconds())
	}
	r := res != "unsat"
	x.feasMemo[g] = r
	return r
}

// ---- intrinsics

func (x *Exec) intrinsic(fn *ssa.Function, args []Val, st *State, pos token.Pos) ([]Val, *State, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if !x.w.verifFns[o] || o.Pkg == nil {
		return nil, nil, false
	}
	f := x.w.prog.Fset.Position(o.Pos()).Filename
	if !strings.HasSuffix(f, "zz_api_verif.go") {
		return nil, nil, false
	}
	c := x.c
	switch o.Name() {
	case "requires":
		b := args[0].(*Term)
		if x.mode == modeProve {
			x.fact(st, b)
			for _, t := range conjs(b) {
				x.learn(t)
			}
		} else if x.cur != nil {
			if x.cur.called {
				unsup("requires after call in %s", x.cur.ct.name)
			}
			if x.specUse() {
				// calls made by specification code: assume nothing if the precondition fails
				st.guard = st.guard
				x.cur.pre.guard = c.And(x.cur.pre.guard, b)
			} else {
				x.obl2(st, "precondition", "precondition of "+x.cur.ct.targetStr, b, x.cur.pos)
			}
		}
		return nil, st, true
	case "ensures":
		lab := x.strLit(args[0].(*Term))
		b := args[1].(*Term)
		if x.mode == modeProve {
			x.obl2(st, "ensures", lab, b, pos)
		} else if x.cur != nil {
			g := st.guard
			if x.specUse() {
				g = c.And(g, x.cur.pre.guard)
			}
			s2 := *st
			s2.guard = g
			x.fact(&s2, b)
		}
		return nil, st, true
	case "replaying":
		return []Val{c.False}, st, true
	case "defines":
		// a relation defined by the calls of the function: callers learn it
		if x.mode != modeProve && x.cur != nil {
			g := st.guard
			if x.specUse() {
				g = c.And(g, x.cur.pre.guard)
			}
			s2 := *st
			s2.guard = g
			x.fact(&s2, args[0].(*Term))
		}
		return nil, st, true
	case "assertp":
		x.obl2(st, "assert", x.strLit(args[0].(*Term)), args[1].(*Term), pos)
		return nil, st, true
	case "modifies":
		s := args[0].(*SliceVal)
		n := int64(0)
		if s.ln.op == "int" {
			n = s.ln.ival.Int64()
		}
		h := x.hget(st, "E:any:", ArrSort("Int", ArrSort("Int", "Iface")))
		a := c.Select(h, s.arr)
		for i := int64(0); i < n; i++ {
			b := c.Select(a, c.Add(s.off, c.Int(i)))
			n := b.name
			if k := x.knownTag[b]; k != "" && !isBoxLike(b) {
				n = k
			} else if !isBoxLike(b) || n == "nil_iface" {
				unsup("modifies argument %s", c.Show(b))
			}
			t := x.w.boxType[n]
			x.cur.mods = append(x.cur.mods, x.unbox(b, t, st))
			x.cur.modT = append(x.cur.modT, t)
		}
		return nil, st, true
	case "modifiesAll":
		x.cur.all = true
		return nil, st, true
	case "implies":
		return []Val{c.Implies(args[0].(*Term), args[1].(*Term))}, st, true
	case "forall", "exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		bv := c.BV("i", "Int")
		body := x.quantBody(args[2], []Val{bv}, st, func(b, extra *Term) (*Term, *Term) { return b, extra })
		rng := c.And(c.Le(lo, bv), c.Lt(bv, hi))
		return []Val{x.quant(o.Name(), bv, rng, body)}, st, true
	case "forallKey", "existsKey":
		bv := c.BV("k", "Str")
		body := x.quantBody(args[0], []Val{bv}, st, nil)
		return []Val{x.quant(strings.TrimSuffix(o.Name(), "Key"), bv, c.True, body)}, st, true
	case "forallValue":
		bv := c.BV("v", "Iface")
		body := x.quantBody(args[0], []Val{bv}, st, nil)
		return []Val{x.quant("forall", bv, c.True, body)}, st, true
	case "old":
		// evaluate in the entry state of the contract being proved
		es := x.entryState
		if es == nil {
			unsup("old outside proof")
		}
		s2 := es.clone()
		s2.guard = st.guard
		s2.alloc = st.alloc
		// local cells stay visible
		for k, v := range st.heap {
			if strings.HasPrefix(k, "L:") {
				s2.heap[k] = v
			}
		}
		r, _ := x.callVal(args[0], fn.Signature.Params().At(0).Type().Underlying().(*types.Signature), nil, s2, pos)
		return r, st, true
	case "isFresh":
		b := args[0].(*Term)
		if !isBoxLike(b) {
			unsup("isFresh argument")
		}
		t := x.w.boxType[b.name]
		v := x.unbox(b, t, st)
		var r *Term
		switch w := v.(type) {
		case *SliceVal:
			r = c.Or(c.Lt(x.baseAlloc(), w.arr), c.Eq(w.cp, c.Int(0)))
		case *Term:
			r = c.Lt(x.baseAlloc(), w)
		default:
			unsup("isFresh of %T", v)
		}
		return []Val{r}, st, true
	case "sameSlice":
		p, q := args[0].(*SliceVal), args[1].(*SliceVal)
		return []Val{c.And(c.Eq(p.arr, q.arr), c.Eq(p.off, q.off), c.Eq(p.ln, q.ln))}, st, true
	case "inArray":
		// same backing array
		p, q := args[0].(*SliceVal), args[1].(*SliceVal)
		return []Val{c.Eq(p.arr, q.arr)}, st, true
	case "released":
		return []Val{c.Not(c.Select(x.hget(st, ownedKey, ownedSort), x.scalar(args[0])))}, st, true
	case "owned":
		return []Val{c.Select(x.hget(st, ownedKey, ownedSort), x.scalar(args[0]))}, st, true
	case "isFunc":
		return []Val{x.isFunc(args[0], x.strLit(args[1].(*Term)))}, st, true
	case "sameMap":
		return []Val{c.Eq(x.scalar(args[0]), x.scalar(args[1]))}, st, true
	case "allocated":
		return []Val{c.Le(args[0].(*SliceVal).arr, st.alloc)}, st, true
	case "identical":
		pt := fn.Signature.Params().At(0).Type()
		if _, ok := pt.Underlying().(*types.Struct); ok {
			fa, fb := x.flat(args[0], pt), x.flat(args[1], pt)
			var eq []*Term
			for i := range fa {
				eq = append(eq, c.Eq(fa[i], fb[i]))
			}
			return []Val{c.And(eq...)}, st, true
		}
		return []Val{c.Eq(x.scalar(args[0]), x.scalar(args[1]))}, st, true
	case "visited":
		// visited(key): key already produced by the innermost active map iteration
		k := x.lastIter(st)
		if k == "" {
			unsup("visited outside map iteration")
		}
		return []Val{c.Select(st.heap[k], args[0].(*Term))}, st, true
	case "visitedCount":
		k := x.lastIter(st)
		if k == "" {
			unsup("visitedCount outside map iteration")
		}
		return []Val{st.heap[k+"#n"]}, st, true
	case "dynType":
		return []Val{x.tag(args[0].(*Term))}, st, true
	case "ghostCall":
		return nil, st, true
	}
	return nil, nil, false
}

func (x *Exec) lastIter(st *State) string {
	best := ""
	for k := range st.heap {
		if strings.HasPrefix(k, "V:") && !strings.HasSuffix(k, "#n") && (best == "" || len(k) > len(best) || len(k) == len(best) && k > best) {
			best = k
		}
	}
	return best
}

func (x *Exec) specUse() bool { return x.cur != nil && x.cur.pre != nil && x.cur.post == x.cur.pre }

func (x *Exec) baseAlloc() *Term {
	if x.mode == modeUse && x.cur != nil {
		return x.cur.preAlloc
	}
	return x.entryAlloc
}

func (x *Exec) learn(t *Term) {
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if a.op == "int" {
			a, b = b, a
		}
		if a.op == "tag" && b.op == "int" {
			for n, tg := range x.w.boxTag {
				if int64(tg) == b.ival.Int64() {
					x.knownTag[a.args[0]] = n
				}
			}
		}
	}
}

func (x *Exec) strLit(t *Term) string {
	for k, v := range x.c.strs {
		if v == t {
			return k
		}
	}
	return "?"
}

func (x *Exec) quantBody(clo Val, bv []Val, st *State, _ func(b, e *Term) (*Term, *Term)) *Term {
	cl, ok := clo.(*Clo)
	if !ok {
		unsup("quantifier body %T", clo)
	}
	x.spec++
	saved := x.bfacts
	x.bfacts = nil
	s2 := st.clone()
	s2.guard = x.c.True
	r, _ := x.callFn(cl.fn, bv, cl.bind, s2, token.NoPos)
	x.spec--
	bf := x.bfacts
	x.bfacts = saved
	if len(r) != 1 {
		unsup("quantifier body at %s does not return", x.pos(cl.fn.Pos()))
	}
	body := r[0].(*Term)
	_ = bf
	return body
}

// quant builds a quantified formula and registers trigger-annotated variants.
func (x *Exec) quant(op string, bv, rng, body *Term) *Term {
	c := x.c
	if op == "exists" {
		return c.Not(x.quant("forall", bv, rng, c.Not(body)))
	}
	full := c.Implies(rng, body)
	if !full.bound || !mentions(full, bv, map[*Term]bool{}) {
		return full
	}
	main := c.mk(&Term{op: "forall", bvs: []*Term{bv}, args: []*Term{full}, sort: "Bool"})
	if _, ok := x.alts[main]; ok {
		return main
	}
	type cand struct{ d, pat *Term }
	var cs []cand
	seen := map[*Term]bool{}
	seenD := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "forall" || t.op == "exists" {
			return
		}
		var idx *Term
		switch {
		case t.op == "select":
			idx = t.args[1]
			if mentions(t.args[0], bv, map[*Term]bool{}) {
				return
			}
		case t.op == "sat":
			idx = t.args[1]
			if mentions(t.args[0], bv, map[*Term]bool{}) {
				return
			}
		case t.op == "app" || t.op == "tag" || t.op == "slen" || t.op == "substr":
			n := 0
			for _, a := range t.args {
				if mentions(a, bv, map[*Term]bool{}) {
					idx = a
					n++
				}
			}
			if n != 1 {
				return
			}
		default:
			return
		}
		if bv.sort != "Int" {
			if idx == bv && !seenD[t] && len(cs) < 5 {
				seenD[t] = true
				cs = append(cs, cand{nil, t})
			}
			return
		}
		if idx.sort != "Int" {
			return
		}
		l := c.lin(idx)
		k, ok := l.m[bv]
		if !ok || !k.IsInt64() || k.Int64() != 1 {
			return
		}
		d := c.Sub(idx, bv)
		if mentions(d, bv, map[*Term]bool{}) || len(cs) >= 5 {
			return
		}
		for _, o := range cs {
			if o.pat == t {
				return
			}
		}
		// other bound variables in pattern are not allowed
		fv := freeBVs(t, map[*Term]map[*Term]bool{})
		if len(fv) != 1 {
			return
		}
		cs = append(cs, cand{d, t})
	}
	walk(full)
	var alts []*Term
	// prefer plain select/sat patterns, keep at most 4
	sort.SliceStable(cs, func(i, j int) bool { return rank(cs[i].pat) < rank(cs[j].pat) })
	byD := map[*Term][][]*Term{}
	var ds []*Term
	for _, k := range cs {
		d := k.d
		if d == nil {
			d = c.Int(0)
		}
		if _, ok := byD[d]; !ok {
			if len(ds) >= 4 {
				continue
			}
			ds = append(ds, d)
		}
		byD[d] = append(byD[d], []*Term{k.pat})
	}
	for _, d := range ds {
		j := c.BV("j", bv.sort)
		var m map[*Term]*Term
		if bv.sort == "Int" {
			m = map[*Term]*Term{bv: c.Sub(j, d)}
		} else {
			m = map[*Term]*Term{bv: j}
		}
		b2 := c.Subst(full, m)
		var pats [][]*Term
		for _, p := range byD[d] {
			q := c.Subst(p[0], m)
			if okPat(q) && mentions(q, j, map[*Term]bool{}) {
				pats = append(pats, []*Term{q})
			}
		}
		// nested quantifiers inside b2 keep their own alternatives
		x.copyAlts(full, b2, m)
		alts = append(alts, c.mk(&Term{op: "forall", bvs: []*Term{j}, args: []*Term{b2}, sort: "Bool", pats: pats}))
	}
	x.alts[main] = alts
	return main
}

func (x *Exec) copyAlts(from, to *Term, m map[*Term]*Term) {
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if a, ok := x.alts[t]; ok {
			n := x.c.Subst(t, m)
			if _, ok := x.alts[n]; !ok {
				var na []*Term
				for _, y := range a {
					na = append(na, x.c.Subst(y, m))
				}
				x.alts[n] = na
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(from)
}

func rank(t *Term) int {
	switch t.op {
	case "select", "sat":
		return 0
	case "app":
		return 1
	}
	return 2
}

// okPat: patterns must not contain interpreted boolean structure or ite/store.
func okPat(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "forall", "exists", "store":
		return false
	}
	for _, a := range t.args {
		if a.bound && !okPat(a) {
			return false
		}
	}
	return true
}

func mentions(t, v *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if !t.bound && len(t.bvs) == 0 || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if mentions(a, v, seen) {
			return true
		}
	}
	return false
}

// posAlt replaces positively occurring quantifiers by their trigger-annotated variants.
func (x *Exec) posAlt(t *Term, pos bool) *Term {
	if t.sort != "Bool" || !x.hasQ(t) {
		return t
	}
	switch t.op {
	case "forall":
		if pos {
			if a, ok := x.alts[t]; ok && len(a) > 0 {
				var as []*Term
				for _, y := range a {
					inner := x.posAlt(y.args[0], true)
					as = append(as, x.c.mk(&Term{op: "forall", bvs: y.bvs, args: []*Term{inner}, sort: "Bool", pats: y.pats}))
				}
				return x.c.And(as...)
			}
		}
		inner := x.posAlt(t.args[0], pos)
		return x.c.mk(&Term{op: "forall", bvs: t.bvs, args: []*Term{inner}, sort: "Bool", pats: t.pats})
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.posAlt(a, pos))
		}
		if t.op == "and" {
			return x.c.And(as...)
		}
		return x.c.Or(as...)
	case "not":
		return x.c.Not(x.posAlt(t.args[0], !pos))
	case "=>":
		return x.c.Implies(x.posAlt(t.args[0], !pos), x.posAlt(t.args[1], pos))
	case "ite":
		if !x.hasQ(t.args[0]) {
			return x.c.mk(&Term{op: "ite", args: []*Term{t.args[0], x.posAlt(t.args[1], pos), x.posAlt(t.args[2], pos)}, sort: "Bool"})
		}
		g := t.args[0]
		return x.posAlt(x.c.And(x.c.Implies(g, t.args[1]), x.c.Implies(x.c.Not(g), t.args[2])), pos)
	case "=":
		a, b := t.args[0], t.args[1]
		if a.sort == "Bool" {
			return x.posAlt(x.c.And(x.c.Implies(a, b), x.c.Implies(b, a)), pos)
		}
	}
	return t
}

var hasQMemo = map[*Term]bool{}

func (x *Exec) hasQ(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if t.sort != "Bool" {
		return false
	}
	for _, a := range t.args {
		if x.hasQ(a) {
			return true
		}
	}
	return false
}

// ---- contract use and proof

func (x *Exec) useContract(ct *Contract, args []Val, st *State, pos token.Pos) ([]Val, *State) {
	x.used[ct.name] = ct
	if ct.pure && !x.pureDone[ct.name] {
		x.pureDone[ct.name] = true
		x.pureAxioms(ct, st)
	}
	if ct.trusted {
		x.noteAssume("trusted contract: " + ct.targetStr)
	}
	x.c.n++
	u := &useCtx{ct: ct, pos: pos, args: args, entry: st}
	if x.spec > 0 {
		u.pre = st.clone()
		u.pre.guard = x.c.True
		u.post = u.pre
	}
	savedCur, savedMode, savedH, savedT := x.cur, x.mode, x.harness, x.inTarget
	x.cur, x.mode, x.harness = u, modeUse, true
	x.spec++
	g := st.guard
	_, ns := x.run(ct.body, args, nil, st)
	x.spec--
	x.cur, x.mode, x.harness, x.inTarget = savedCur, savedMode, savedH, savedT
	if !u.called && !ct.lemma {
		unsup("contract %s does not call its target", ct.name)
	}
	if ns == nil {
		return nil, nil
	}
	ns = ns.clone()
	ns.guard = g
	return u.rets, ns
}

// pureAxioms states the contract of a pure function once for all arguments.
func (x *Exec) pureAxioms(ct *Contract, st *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
		}
	}()
	var bvs []*Term
	var args []Val
	for _, p := range ct.body.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			return
		}
		args = append(args, x.build(p.Type(), func(l Leaf) *Term {
			b := x.c.BV("a", l.sort)
			bvs = append(bvs, b)
			return b
		}))
	}
	if len(bvs) == 0 {
		return
	}
	saved := x.bfacts
	x.bfacts = nil
	x.spec++
	savedCur, savedMode, savedH, savedT, savedStack := x.cur, x.mode, x.harness, x.inTarget, x.stack
	defer func() {
		x.spec--
		x.bfacts = saved
		x.cur, x.mode, x.harness, x.inTarget, x.stack = savedCur, savedMode, savedH, savedT, savedStack
	}()
	s2 := st.clone()
	s2.guard = x.c.True
	x.useContract(ct, args, s2, token.NoPos)
	x.emitBound(x.bfacts, bvs, "pure#")
}

// emitBound turns facts about the bound variables bvs into axioms triggered by applications of the given prefix.
func (x *Exec) emitBound(facts []*Term, bvs []*Term, prefix string) {
	c := x.c
	for _, f := range facts {
		if !varsOf(f, map[*Term]bool{}, func(v *Term) bool {
			return !strings.HasPrefix(v.name, "H") && !strings.HasPrefix(v.name, "lp.") && !strings.HasPrefix(v.name, "hv")
		}) {
			continue
		}
		fv := freeBVs(f, map[*Term]map[*Term]bool{})
		ok := true
		in := map[*Term]bool{}
		for _, b := range bvs {
			in[b] = true
		}
		for v := range fv {
			ok = ok && in[v]
		}
		if !ok || len(fv) == 0 {
			continue
		}
		var pat *Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || pat != nil {
				return
			}
			seen[t] = true
			if t.op == "app" && strings.HasPrefix(t.name, prefix) && okPat(t) {
				g := freeBVs(t, map[*Term]map[*Term]bool{})
				all := true
				for _, b := range bvs {
					all = all && g[b]
				}
				if all {
					pat = t
					return
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(f)
		if pat == nil {
			continue
		}
		ax := c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{f}, sort: "Bool", pats: [][]*Term{{pat}}})
		if !ax.bound {
			x.addAxiom(ax)
		}
	}
}

// isContractCall reports whether a call made by the contract function is the call to its target.
func (x *Exec) contractTargetCall(fn *ssa.Function) bool {
	return x.cur != nil && x.mode == modeUse && !x.cur.called && x.harness && !x.cur.ct.lemma && (x.cur.ct.fn == fn || x.cur.ct.trusted && x.cur.ct.targetStr == fn.String())
}

func (x *Exec) havocTarget(sig *types.Signature, st *State) ([]Val, *State) {
	u := x.cur
	u.called = true
	u.preAlloc = st.alloc
	ns := st.clone()
	if u.all {
		ns = x.havocAll(ns)
	} else {
		if !u.ct.pure || len(u.mods) > 0 || refResults(sig) {
			a := x.c.Fresh("alloc", "Int")
			x.addFact(x.c.Le(st.alloc, a))
			if b, o, ok := x.c.baseOff(st.alloc); ok {
				x.c.upper[b] = refBound{a, -o}
			}
			ns.alloc = a
		}
		for i, m := range u.mods {
			x.havocLoc(ns, m, u.modT[i])
		}
		if !u.ct.pure || len(u.mods) > 0 || refResults(sig) {
			for k := range ns.heap {
				if x.w.isVolatile(k) {
					x.hsetAt(ns, k, x.c.Fresh("vol", x.keySort[k]), nil)
				}
			}
		}
	}
	var out []Val
	if u.ct.pure {
		var as []*Term
		for i, a := range u.args {
			as = append(as, x.contentArgs(a, u.ct.body.Params[i].Type(), st)...)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			k := 0
			v := x.build(t, func(l Leaf) *Term {
				k++
				return x.c.App(fmt.Sprintf("pure#%s#%d#%d", u.ct.targetStr, i, k), l.sort, as...)
			})
			fs := ns
			if refResults(sig) && x.entryAlloc != nil {
				// the result of a function of its arguments exists independently of what this call allocates
				fs = ns.clone()
				fs.alloc = x.entryAlloc
			}
			x.typeFacts(v, t, fs)
			out = append(out, v)
		}
		u.rets = out
		return out, ns
	}
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.havocVal("r."+u.ct.name, sig.Results().At(i).Type(), ns))
	}
	u.rets = out
	return out, ns
}

// havocLoc gives the locations designated by a modifies argument arbitrary values.
func (x *Exec) havocLoc(st *State, m Val, t types.Type) {
	for _, l := range x.modLocs(m, t) {
		h := x.hget(st, l.key, l.srt)
		if l.ref == nil {
			x.hsetAt(st, l.key, x.c.Fresh("hv", l.srt), nil)
			continue
		}
		es := elemSort(l.srt)
		if l.idx != nil {
			inner := x.c.Select(h, l.ref)
			x.hsetAt(st, l.key, x.c.Store(h, l.ref, x.c.Store(inner, l.idx, x.c.Fresh("hv", elemSort(es)))), l.ref)
			continue
		}
		x.hsetAt(st, l.key, x.c.Store(h, l.ref, x.c.Fresh("hv", es)), l.ref)
	}
}

func (x *Exec) modLocs(m Val, t types.Type) []leafLoc {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ls := x.locs(m, u.Elem())
		if r, ok := m.(*Term); ok {
			ls = append(ls, leafLoc{key: ownedKey, srt: ownedSort, ref: r})
		}
		return ls
	case *types.Slice:
		s := m.(*SliceVal)
		var r []leafLoc
		for _, l := range x.leaves(u.Elem()) {
			r = append(r, leafLoc{key: "E:" + tstr(u.Elem()) + ":" + l.path, srt: ArrSort("Int", ArrSort("Int", l.sort)), ref: s.arr, leaf: l})
		}
		return r
	case *types.Map:
		mm := m.(*Term)
		ks := x.keySortOf(u)
		r := []leafLoc{
			{key: "MH:" + mapKeyName(u) + ":", srt: ArrSort("Int", ArrSort(ks, "Bool")), ref: mm},
			{key: "ML:" + mapKeyName(u) + ":", srt: ArrSort("Int", "Int"), ref: mm},
		}
		for _, l := range x.leaves(u.Elem()) {
			r = append(r, leafLoc{key: "MV:" + mapKeyName(u) + ":" + l.path, srt: ArrSort("Int", ArrSort(ks, l.sort)), ref: mm, leaf: l})
		}
		return r
	}
	unsup("modifies of %s", t)
	return nil
}

func (x *Exec) hsetAt(st *State, key string, v *Term, ref *Term) {
	x.keySort[key] = v.sort
	st.heap[key] = v
	for i, w := range x.wlog {
		w[key] = true
		rl := x.reflog[i]
		if rl[key] == nil {
			rl[key] = map[*Term]bool{}
		}
		rl[key][ref] = true
	}
}

func (x *Exec) logRef(key string, ref *Term) {
	for _, rl := range x.reflog {
		if rl[key] == nil {
			rl[key] = map[*Term]bool{}
		}
		rl[key][ref] = true
	}
}

// runTarget symbolically executes the real body of the contract's target and checks its frame.
func (x *Exec) runTarget(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) ([]Val, *State) {
	u := x.cur
	u.called = true
	savedSpec := x.spec
	x.cover(st, "precondition satisfiable")
	x.entryAlloc = st.alloc
	x.entryState = st.clone()
	pre := st.clone()
	x.frameMods = nil
	if !u.all {
		x.frameMods = map[string][]*Term{}
		for i, m := range u.mods {
			for _, l := range x.modLocs(m, u.modT[i]) {
				if l.ref != nil {
					x.frameMods[l.key] = append(x.frameMods[l.key], l.ref)
				}
			}
		}
	}
	x.spec, x.inTarget, x.harness = 0, true, false
	savedMode := x.mode
	savedCur := x.cur
	x.cur = nil
	x.stack = append(x.stack, fn)
	r, ns := x.run(fn, args, bind, st)
	x.stack = x.stack[:len(x.stack)-1]
	x.cur = savedCur
	x.mode = savedMode
	x.spec, x.inTarget, x.harness = savedSpec, false, true
	if ns == nil {
		return nil, nil
	}
	if !u.all {
		x.frame(u, pre, ns, pos)
	}
	u.rets = r
	ns = ns.clone()
	return r, ns
}

func (x *Exec) frame(u *useCtx, pre, post *State, pos token.Pos) {
	c := x.c
	mods := map[string][]leafLoc{}
	for i, m := range u.mods {
		for _, l := range x.modLocs(m, u.modT[i]) {
			mods[l.key] = append(mods[l.key], l)
		}
	}
	var keys []string
	for k := range post.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if post.def != pre.def {
		x.obl2(post, "frame", "callee may change any location but no modifiesAll is declared", c.False, pos)
		return
	}
	for _, k := range keys {
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") {
			continue
		}
		if x.w.isVolatile(k) {
			continue
		}
		a, ok := pre.heap[k]
		if !ok {
			a = x.defGet(pre.def, k, x.keySort[k])
		}
		b := post.heap[k]
		if a == b {
			continue
		}
		ms := mods[k]
		if strings.HasPrefix(k, "G:") {
			if len(ms) == 0 {
				x.obl2(post, "frame", "global "+k+" unchanged", c.Eq(a, b), pos)
			}
			continue
		}
		r := c.Fresh("fr", "Int")
		x.c.upper[r] = refBound{x.entryAlloc, 0}
		x.addFact(c.And(c.Lt(c.Int(0), r), c.Le(r, x.entryAlloc)))
		var ex []*Term
		whole := true
		for _, m := range ms {
			if m.idx == nil {
				ex = append(ex, c.Not(c.Eq(r, m.ref)))
			} else {
				whole = false
			}
		}
		av, bv := c.Select(a, r), c.Select(b, r)
		if !whole {
			j := c.Fresh("fj", "Int")
			for _, m := range ms {
				if m.idx != nil {
					ex = append(ex, c.Not(c.And(c.Eq(r, m.ref), c.Eq(j, m.idx))))
				}
			}
			av, bv = c.Select(av, j), c.Select(bv, j)
		}
		x.obl2(post, "frame", "only declared locations of "+k+" change", c.Implies(c.And(ex...), c.Eq(av, bv)), pos)
		if whole {
			// from here on reads of other old objects see the earlier content
			var exc []*Term
			for _, m := range ms {
				exc = append(exc, m.ref)
			}
			n := c.Fresh("post."+k, b.sort)
			x.addFact(c.mk(&Term{op: "=", args: []*Term{n, b}, sort: "Bool"}))
			q := c.BV("r", "Int")
			sel := c.mk(&Term{op: "select", args: []*Term{n, q}, sort: elemSort(b.sort)})
			cond := []*Term{c.Lt(c.Int(0), q), c.Le(q, x.entryAlloc)}
			for _, e := range exc {
				cond = append(cond, c.Not(c.Eq(q, e)))
			}
			x.addFact(c.Implies(post.guard, c.Forall([]*Term{q}, c.Implies(c.And(cond...), c.Eq(sel, c.Select(a, q))), []*Term{sel})))
			c.framed[n] = frameInfo{a, x.entryAlloc, exc}
			post.heap[k] = n
		}
	}
}

// Prove generates the verification conditions of a contract.
func (x *Exec) Prove(ct *Contract) (err error) {
	x.target = ct
	x.mode = modeProve
	x.harness = true
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("outside the verified subset: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	a0 := x.c.Var("alloc!0", "Int")
	st := &State{guard: x.c.True, heap: map[string]*Term{}, alloc: a0, def: &HeapDef{epoch: 0}}
	x.addFact(x.c.Le(x.c.Int(1000), a0))
	x.alloc0 = a0
	var args []Val
	x.tparams = map[string]Val{}
	x.ttypes = map[string]types.Type{}
	for _, p := range ct.body.Params {
		v := x.havocVal("p."+p.Name(), p.Type(), st)
		args = append(args, v)
		x.tparams[p.Name()] = v
		x.ttypes[p.Name()] = p.Type()
	}
	x.entryAlloc = st.alloc
	x.entryState = st.clone()
	x.spec = 1
	if ct.fn != nil && ct.fn.Parent() != nil {
		// a function literal: its first contract parameter designates it
		var bind []Val
		for i, fv := range ct.fn.FreeVars {
			if !capturedOnce(ct.fn, i) {
				return fmt.Errorf("outside the verified subset: captured variable %s is assigned again", fv.Name())
			}
			et := fv.Type().Underlying().(*types.Pointer).Elem()
			if v, ok := x.tparams[fv.Name()]; ok && types.Identical(x.ttypes[fv.Name()], et) {
				bind = append(bind, &ImmCell{v: v, ref: x.c.Fresh("cell", "Int")})
				continue
			}
			bind = append(bind, &ImmCell{v: x.havocVal("cap."+fv.Name(), et, st), ref: x.c.Fresh("cell", "Int")})
		}
		args[0] = &Clo{fn: ct.fn, bind: bind}
	}
	u := &useCtx{ct: ct}
	x.cur = u
	x.stack = append(x.stack, ct.body)
	for _, l := range x.w.all {
		if l.lemma && l.auto && l != ct {
			x.autoLemma(l, st)
		}
	}
	_, ns := x.run(ct.body, args, nil, st)
	if ns != nil {
		x.cover(ns, "end of contract reachable")
	}
	if !u.called && !ct.lemma {
		return fmt.Errorf("contract never calls its target")
	}
	return nil
}

func (x *Exec) autoLemma(l *Contract, st *State) {}

func refResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		switch sig.Results().At(i).Type().Underlying().(type) {
		case *types.Basic:
		default:
			return true
		}
	}
	return false
}

// capturedOnce: free variable i of fn is a variable that is assigned once.
func capturedOnce(fn *ssa.Function, i int) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			switch a := mc.Bindings[i].(type) {
			case *ssa.FreeVar:
				for j, fv := range fn.Parent().FreeVars {
					if fv == a && !capturedOnce(fn.Parent(), j) {
						return false
					}
				}
			case *ssa.Alloc:
				n := 0
				for _, r := range *a.Referrers() {
					switch u := r.(type) {
					case *ssa.Store:
						n++
					case *ssa.MakeClosure:
						if !freeVarReadOnly(u, a) {
							return false
						}
					case *ssa.DebugRef, *ssa.UnOp:
					default:
						return false
					}
				}
				if n > 1 {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "int","str"(constant),"var","app", or an SMT builtin
	name  string // var / app name
	args  []*Term
	sort  string
	ival  *big.Int
	bound bool // mentions a bound variable
	bvs   []*Term
	depth int
	// quantifiers
	pats [][]*Term
}

type Ctx struct {
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
	// declared functions: name -> declaration text
	decls    []string
	declared map[string]bool
	strs     map[string]*Term
	strName  []string
	funs     map[string]string // app name -> result sort
	axioms   []string          // textual axioms, in order, emitted as they come
	fresh    map[string]int
	// ref bounds: term -> (base, offset) meaning term <= base+offset
	upper map[*Term]refBound
	conds map[*Term]bool
	rng   map[*Term]string
	lets  []*Term
	// arrays known to agree with an earlier one on old references
	framed map[*Term]frameInfo
}

type frameInfo struct {
	old    *Term
	bound  *Term
	except []*Term
}

// below reports whether reference y is known to be at most bound.
func (c *Ctx) below(y, bound *Term) bool {
	bb, ob, ok := c.baseOff(bound)
	if !ok {
		return false
	}
	by, oy, ok := c.baseOff(y)
	if ok && by == bb {
		return oy <= ob
	}
	if y.op == "ite" {
		return c.below(y.args[1], bound) && c.below(y.args[2], bound)
	}
	if y.op == "int" {
		return y.ival.IsInt64() && y.ival.Int64() <= 1000
	}
	sum := int64(0)
	for d := 0; d < 12; d++ {
		u, ok := c.upper[y]
		if !ok {
			return false
		}
		sum += u.off
		y = u.base
		if y == bb {
			return sum <= ob
		}
	}
	return false
}

type refBound struct {
	base *Term
	off  int64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, declared: map[string]bool{}, strs: map[string]*Term{}, funs: map[string]string{}, fresh: map[string]int{}, upper: map[*Term]refBound{}, framed: map[*Term]frameInfo{}, rng: map[*Term]string{}}
	c.True = c.mk(&Term{op: "true", sort: "Bool"})
	c.False = c.mk(&Term{op: "false", sort: "Bool"})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.ival != nil {
		sb.WriteString(t.ival.String())
	}
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	for _, b := range t.bvs {
		fmt.Fprintf(&sb, "|b%d", b.id)
	}
	for _, ps := range t.pats {
		sb.WriteString("|p")
		for _, p := range ps {
			fmt.Fprintf(&sb, ",%d", p.id)
		}
	}
	k := sb.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	t.id = c.n
	c.n++
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	if t.op == "bv" {
		t.bound = true
	}
	if t.op == "forall" || t.op == "exists" {
		// closed if free bound variables are exactly bvs
		t.bound = false
		for v := range freeBVs(t, map[*Term]map[*Term]bool{}) {
			_ = v
			t.bound = true
		}
	}
	c.tab[k] = t
	return t
}

func freeBVs(t *Term, memo map[*Term]map[*Term]bool) map[*Term]bool {
	if t.op == "bv" {
		return map[*Term]bool{t: true}
	}
	if !t.bound && t.op != "forall" && t.op != "exists" {
		return nil
	}
	if m, ok := memo[t]; ok {
		return m
	}
	r := map[*Term]bool{}
	for _, a := range t.args {
		if a.bound {
			for k := range freeBVs(a, memo) {
				r[k] = true
			}
		}
	}
	for _, b := range t.bvs {
		delete(r, b)
	}
	memo[t] = r
	return r
}

func (c *Ctx) Int(i int64) *Term       { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term { return c.mk(&Term{op: "int", ival: i, sort: "Int"}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Fresh declared constant.
func (c *Ctx) Fresh(name, srt string) *Term {
	name = sanitize(name)
	c.fresh[name]++
	n := fmt.Sprintf("%s!%d", name, c.fresh[name])
	return c.Var(n, srt)
}
func (c *Ctx) Var(n, srt string) *Term {
	if !c.declared[n] {
		c.declared[n] = true
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun |%s| () %s)", n, srt))
	}
	return c.mk(&Term{op: "var", name: n, sort: srt})
}

func (c *Ctx) BV(name, srt string) *Term {
	name = sanitize(name)
	c.fresh["bv"+name]++
	return c.mk(&Term{op: "bv", name: fmt.Sprintf("%s?%d", name, c.fresh["bv"+name]), sort: srt})
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r == ' ' || r == '\n' {
			return '_'
		}
		return r
	}, s)
}

// Uninterpreted application.
func (c *Ctx) App(name, srt string, args ...*Term) *Term {
	name = sanitize(name)
	if !c.declared[name] {
		c.declared[name] = true
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		c.decls = append(c.decls, fmt.Sprintf("(declare-fun |%s| (%s) %s)", name, strings.Join(ss, " "), srt))
		c.funs[name] = srt
	}
	if len(args) == 0 {
		return c.mk(&Term{op: "var", name: name, sort: srt})
	}
	return c.mk(&Term{op: "app", name: name, args: args, sort: srt})
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == "not":
		return a.args[0]
	}
	return c.mk(&Term{op: "not", args: []*Term{a}, sort: "Bool"})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.False {
			return false
		}
		if a == c.True || seen[a] {
			return true
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "and", args: out, sort: "Bool"})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == c.True {
			return c.True
		}
		if a == c.False || seen[a] {
			continue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (g&a)|(g&!a) => g
	if len(out) == 2 {
		x, y := conjs(out[0]), conjs(out[1])
		ym := map[*Term]bool{}
		for _, t := range y {
			ym[t] = true
		}
		var common, rx []*Term
		cm := map[*Term]bool{}
		for _, t := range x {
			if ym[t] {
				common = append(common, t)
				cm[t] = true
			} else {
				rx = append(rx, t)
			}
		}
		if len(common) > 0 {
			var ry []*Term
			for _, t := range y {
				if !cm[t] {
					ry = append(ry, t)
				}
			}
			return c.And(append(common, c.Or(c.And(rx...), c.And(ry...)))...)
		}
	}
	return c.mk(&Term{op: "or", args: out, sort: "Bool"})
}

func conjs(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == b {
		return c.True
	}
	return c.mk(&Term{op: "=>", args: []*Term{a, b}, sort: "Bool"})
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if b.op == "ite" && b.args[0] == g {
		return c.Ite(g, a, b.args[2])
	}
	if a.op == "ite" && a.args[0] == g {
		return c.Ite(g, a.args[1], b)
	}
	if b.op == "ite" && b.args[1] == a {
		return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.sort, b.sort))
	}
	return c.mk(&Term{op: "ite", args: []*Term{g, a, b}, sort: a.sort})
}

func isConstTerm(t *Term) bool {
	return t.op == "int" || t.op == "strc" || t.op == "true" || t.op == "false" || (t.op == "var" && strings.HasPrefix(t.name, "flt#"))
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s  %s:%s", c.Show(a), a.sort, c.Show(b), b.sort))
	}
	if isConstTerm(a) && isConstTerm(b) {
		return c.False
	}
	if a.sort == "Bool" {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if c.distinctRefs(a, b) {
		return c.False
	}
	// boxes
	if a.op == "app" && b.op == "app" && strings.HasPrefix(a.name, "box#") && strings.HasPrefix(b.name, "box#") {
		if a.name != b.name {
			return c.False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if isBoxLike(a) && isBoxLike(b) && boxName(a) != boxName(b) {
		return c.False
	}
	// push into ite with constants
	if a.op == "ite" && (isConstTerm(b) || isBoxLike(b)) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && (isConstTerm(a) || isBoxLike(a)) {
		return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
	}
	if a.sort == "Int" {
		// normalise linear
		la, lb := c.lin(a), c.lin(b)
		d := linSub(la, lb)
		if len(d.m) == 0 {
			return c.Bool(d.k.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", args: []*Term{a, b}, sort: "Bool"})
}

func isBoxLike(t *Term) bool {
	return (t.op == "app" || t.op == "var") && (strings.HasPrefix(t.name, "box#") || t.name == "nil_iface")
}
func boxName(t *Term) string { return t.name }

// --- linear integer normal form
type linT struct {
	k *big.Int
	m map[*Term]*big.Int
}

func (c *Ctx) lin(t *Term) linT {
	switch t.op {
	case "int":
		return linT{t.ival, map[*Term]*big.Int{}}
	case "+":
		r := linT{big.NewInt(0), map[*Term]*big.Int{}}
		for _, a := range t.args {
			r = linAdd(r, c.lin(a))
		}
		return r
	case "*":
		if t.args[0].op == "int" {
			return linScale(c.lin(t.args[1]), t.args[0].ival)
		}
	}
	return linT{big.NewInt(0), map[*Term]*big.Int{t: big.NewInt(1)}}
}
func linAdd(a, b linT) linT {
	r := linT{new(big.Int).Add(a.k, b.k), map[*Term]*big.Int{}}
	for t, v := range a.m {
		r.m[t] = v
	}
	for t, v := range b.m {
		if o, ok := r.m[t]; ok {
			s := new(big.Int).Add(o, v)
			if s.Sign() == 0 {
				delete(r.m, t)
			} else {
				r.m[t] = s
			}
		} else {
			r.m[t] = v
		}
	}
	return r
}
func linScale(a linT, k *big.Int) linT {
	r := linT{new(big.Int).Mul(a.k, k), map[*Term]*big.Int{}}
	if k.Sign() == 0 {
		return r
	}
	for t, v := range a.m {
		r.m[t] = new(big.Int).Mul(v, k)
	}
	return r
}
func linSub(a, b linT) linT { return linAdd(a, linScale(b, big.NewInt(-1))) }
func (c *Ctx) fromLin(l linT) *Term {
	var ks []*Term
	for t := range l.m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	for _, t := range ks {
		v := l.m[t]
		if v.IsInt64() && v.Int64() == 1 {
			as = append(as, t)
		} else {
			as = append(as, c.mk(&Term{op: "*", args: []*Term{c.BigInt(v), t}, sort: "Int"}))
		}
	}
	if l.k.Sign() != 0 || len(as) == 0 {
		as = append(as, c.BigInt(l.k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return c.mk(&Term{op: "+", args: as, sort: "Int"})
}
func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(linAdd(c.lin(a), c.lin(b))) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(linSub(c.lin(a), c.lin(b))) }
func (c *Ctx) Neg(a *Term) *Term    { return c.fromLin(linScale(c.lin(a), big.NewInt(-1))) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		return c.fromLin(linScale(c.lin(b), a.ival))
	}
	if b.op == "int" {
		return c.fromLin(linScale(c.lin(a), b.ival))
	}
	return c.mk(&Term{op: "*", args: []*Term{a, b}, sort: "Int"})
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := linSub(c.lin(a), c.lin(b))
	if len(d.m) == 0 {
		return c.Bool(d.k.Sign() <= 0)
	}
	if a.op == "ite" && b.op == "int" && a.args[1].op == "int" && a.args[2].op == "int" {
		return c.Ite(a.args[0], c.Le(a.args[1], b), c.Le(a.args[2], b))
	}
	return c.mk(&Term{op: "<=", args: []*Term{a, b}, sort: "Bool"})
}
func (c *Ctx) Lt(a, b *Term) *Term {
	return c.Not(c.Le(b, a))
}
func (c *Ctx) Div(a, b *Term) *Term { return c.mk(&Term{op: "div", args: []*Term{a, b}, sort: "Int"}) }
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival.Sign() > 0 {
		return c.BigInt(new(big.Int).Mod(a.ival, b.ival))
	}
	return c.mk(&Term{op: "mod", args: []*Term{a, b}, sort: "Int"})
}

// reference distinctness: alloc-relative terms base+k
func (c *Ctx) baseOff(t *Term) (*Term, int64, bool) {
	l := c.lin(t)
	if len(l.m) == 1 && l.k.IsInt64() {
		for b, v := range l.m {
			if v.IsInt64() && v.Int64() == 1 {
				return b, l.k.Int64(), true
			}
		}
	}
	return nil, 0, false
}
func (c *Ctx) distinctRefs(a, b *Term) bool {
	if a.sort != "Int" {
		return false
	}
	if a.op == "ite" && (isRefLike(a.args[1]) || isRefLike(a.args[2])) {
		return c.distinctRefs(a.args[1], b) && c.distinctRefs(a.args[2], b)
	}
	if b.op == "ite" && (isRefLike(b.args[1]) || isRefLike(b.args[2])) {
		return c.distinctRefs(a, b.args[1]) && c.distinctRefs(a, b.args[2])
	}
	ba, oa, ok1 := c.baseOff(a)
	bb, ob, ok2 := c.baseOff(b)
	if ok1 && ok2 && ba == bb {
		return oa != ob
	}
	// fresh ref base+k versus term known <= base+j with j<k
	chk := func(x *Term, bx *Term, ox int64, okx bool, y *Term) bool {
		if !okx || !strings.HasPrefix(bx.name, "alloc") {
			return false
		}
		sum := int64(0)
		for d := 0; d < 12; d++ {
			u, ok := c.upper[y]
			if !ok {
				return false
			}
			sum += u.off
			y = u.base
			if y == bx {
				return sum < ox
			}
		}
		return false
	}
	if chk(a, ba, oa, ok1, b) || chk(b, bb, ob, ok2, a) {
		return true
	}
	return false
}

// --- arrays
func ArrSort(idx, el string) string { return "(Array " + idx + " " + el + ")" }
func elemSort(arr string) string {
	// "(Array I E)"
	s := strings.TrimPrefix(arr, "(Array ")
	s = s[:len(s)-1]
	// skip first sort
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("elemSort " + arr)
}

func (c *Ctx) Select(a, i *Term) *Term {
	for n := 0; n < 400; n++ {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			e := c.Eq(a.args[1], i)
			if e == c.True {
				return a.args[2]
			}
			if e == c.False {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if fi, ok := c.framed[a]; ok && i.sort == "Int" && !i.bound && c.below(i, fi.bound) {
		ok := true
		for _, e := range fi.except {
			if !c.distinctRefs(e, i) {
				ok = false
			}
		}
		if ok {
			return c.Select(fi.old, i)
		}
	}
	if a.op == "ite" {
		x, y := a.args[1], a.args[2]
		if simpleArr(x) || simpleArr(y) {
			return c.Ite(a.args[0], c.Select(x, i), c.Select(y, i))
		}
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return c.mk(&Term{op: "select", args: []*Term{a, i}, sort: elemSort(a.sort)})
}
func simpleArr(a *Term) bool { return true }
func (c *Ctx) Store(a, i, v *Term) *Term {
	if v.sort != elemSort(a.sort) {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func (c *Ctx) ConstArr(srt string, v *Term) *Term {
	return c.mk(&Term{op: "constarr", args: []*Term{v}, sort: srt})
}

func (c *Ctx) Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if !body.bound {
		return body
	}
	return c.mk(&Term{op: "forall", bvs: bvs, args: []*Term{body}, sort: "Bool", pats: pats})
}
func (c *Ctx) Exists(bvs []*Term, body *Term) *Term {
	if !body.bound {
		return body
	}
	return c.mk(&Term{op: "exists", bvs: bvs, args: []*Term{body}, sort: "Bool"})
}

// StrConst returns the constant for a Go string.
func (c *Ctx) StrConst(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	n := fmt.Sprintf("str#%d", len(c.strs))
	c.decls = append(c.decls, fmt.Sprintf("(declare-fun |%s| () Str)", n))
	c.declared[n] = true
	t := c.mk(&Term{op: "strc", name: n, sort: "Str"})
	c.strs[s] = t
	// distinctness via id function, contents
	c.axioms = append(c.axioms, fmt.Sprintf("(assert (= (strid |%s|) %d)) ; %q", n, len(c.strs), s))
	c.axioms = append(c.axioms, fmt.Sprintf("(assert (= (slen |%s|) %d))", n, len(s)))
	if len(s) == 1 {
		c.axioms = append(c.axioms, fmt.Sprintf("(assert (= |%s| (chr1 %d)))", n, s[0]))
	}
	if len(s) <= 24 {
		for i := 0; i < len(s); i++ {
			c.axioms = append(c.axioms, fmt.Sprintf("(assert (= (sat |%s| %d) %d))", n, i, s[i]))
		}
	}
	return t
}

// Subst replaces variables.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Implies(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = c.Add(r, a)
		}
		return r
	case "*":
		return c.Mul(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "mod":
		return c.Mod(as[0], as[1])
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			ps = append(ps, q)
		}
		return c.mk(&Term{op: t.op, bvs: t.bvs, args: as, sort: "Bool", pats: ps})
	}
	return c.mk(&Term{op: t.op, name: t.name, args: as, sort: t.sort, ival: t.ival, bvs: t.bvs, pats: t.pats})
}

// Show renders a term inline (debug; may be large).
func (c *Ctx) Show(t *Term) string {
	var sb strings.Builder
	c.show(&sb, t, 0, nil)
	return sb.String()
}

func (c *Ctx) show(sb *strings.Builder, t *Term, d int, named func(*Term) string, sv ...*Solver) {
	if named != nil {
		if s := named(t); s != "" {
			sb.WriteString(s)
			return
		}
	} else if d > 14 {
		fmt.Fprintf(sb, "...%d", t.id)
		return
	}
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.ival))
		} else {
			sb.WriteString(t.ival.String())
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "var", "bv", "strc":
		sb.WriteString("|" + t.name + "|")
	case "app":
		sb.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			sb.WriteByte(' ')
			c.show(sb, a, d+1, named, sv...)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		c.show(sb, t.args[0], d+1, named, sv...)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			fmt.Fprintf(sb, "(|%s| %s)", b.name, b.sort)
		}
		sb.WriteString(") ")
		pats := t.pats
		pn := named
		if len(sv) > 0 && sv[0] != nil {
			pats = nil
			pn = sv[0].patName
			for _, p := range t.pats {
				ok := true
				for _, q := range p {
					ok = ok && sv[0].prepPat(q)
				}
				if ok {
					pats = append(pats, p)
				}
			}
		}
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		c.show(sb, t.args[0], d+1, named, sv...)
		for _, p := range pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				c.show(sb, x, d+1, pn, sv...)
			}
			sb.WriteString(")")
		}
		if len(pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			c.show(sb, a, d+1, named, sv...)
		}
		sb.WriteByte(')')
	}
}

func isRefLike(t *Term) bool {
	return t.op == "+" && len(t.args) == 2 && (strings.HasPrefix(t.args[0].name, "alloc") || strings.HasPrefix(t.args[1].name, "alloc"))
}

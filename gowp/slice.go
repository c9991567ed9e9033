package main

import "strings"

// Node is a point of the control flow (a block entered, an alternative taken, a
// merge). A fact holds for the paths through the node it was learnt at, so a goal
// is given the facts of the nodes that lie on some path to it. Leaving facts out
// of a query can only make it harder to prove.
type Node struct {
	id      int
	parents []*Node
	guards  []*Term // of the incoming edges
	anc     map[*Node]bool
}

func (x *Exec) newNode(parents []*Node, guards []*Term) *Node {
	x.nodeN++
	n := &Node{id: x.nodeN, parents: parents, guards: guards}
	return n
}

// step makes a new current node that follows the current one.
func (x *Exec) step() {
	if x.spec == 0 {
		x.node = x.newNode([]*Node{x.node}, []*Term{nil})
	}
}

// join makes a new current node where the given states meet.
func (x *Exec) join(ss []*State) {
	if x.spec > 0 {
		return
	}
	var ps []*Node
	var gs []*Term
	for _, s := range ss {
		ps = append(ps, s.node)
		gs = append(gs, s.guard)
	}
	x.node = x.newNode(ps, gs)
}

// ancestors of n, with n itself.
func (n *Node) ancestors() map[*Node]bool {
	if n == nil {
		return nil
	}
	if n.anc != nil {
		return n.anc
	}
	m := map[*Node]bool{n: true}
	st := []*Node{n}
	for len(st) > 0 {
		k := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range k.parents {
			if p != nil && !m[p] {
				m[p] = true
				st = append(st, p)
			}
		}
	}
	n.anc = m
	return m
}

// sliceAlt is one way to reach a goal: the nodes on it and the condition of taking it.
type sliceAlt struct {
	nodes map[*Node]bool
	cond  []*Term
}

// deepSplits splits at the merges before n until there are at least want alternatives.
func (n *Node) deepSplits(want int) []sliceAlt {
	type part struct {
		tail map[*Node]bool // nodes after the point
		at   *Node
		cond []*Term
		done bool
	}
	parts := []part{{map[*Node]bool{}, n, nil, false}}
	for len(parts) < want {
		// split the part whose point comes last
		best := -1
		for i, p := range parts {
			if !p.done && (best < 0 || p.at.id > parts[best].at.id) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		p := parts[best]
		tail := map[*Node]bool{}
		for k := range p.tail {
			tail[k] = true
		}
		m := p.at
		for m != nil && len(m.parents) == 1 {
			tail[m] = true
			m = m.parents[0]
		}
		if m == nil || len(m.parents) < 2 {
			parts[best].done = true
			continue
		}
		tail[m] = true
		var np []part
		for i, q := range m.parents {
			np = append(np, part{tail, q, append(append([]*Term{}, p.cond...), m.guards[i]), q == nil})
		}
		parts = append(append(append([]part{}, parts[:best]...), np...), parts[best+1:]...)
	}
	if len(parts) < 2 {
		return nil
	}
	var r []sliceAlt
	for _, p := range parts {
		a := sliceAlt{nodes: map[*Node]bool{}, cond: p.cond}
		for k := range p.tail {
			a.nodes[k] = true
		}
		for k := range p.at.ancestors() {
			a.nodes[k] = true
		}
		r = append(r, a)
	}
	return r
}

// sframe is a run of facts asserted together.
type sframe struct {
	facts  []int
	na, nd int // axioms and definitions emitted before it
	text   *strings.Builder
}

// prepare brings the solver's assertions to the facts among items[:upto] of the given nodes.
func (x *Exec) prepare(s *Solver, upto int, nodes map[*Node]bool, cands bool) {
	var groups [][]int
	var last *Node
	for i := 0; i < upto; i++ {
		it := x.items[i]
		if it.kind != "fact" || it.node != nil && !nodes[it.node] || it.sel != nil && (!cands || !it.sel.alive) {
			continue
		}
		if len(groups) == 0 || it.node != last || it.sel != nil {
			groups = append(groups, nil)
			last = it.node
		}
		groups[len(groups)-1] = append(groups[len(groups)-1], i)
	}
	keep := 0
	for keep < len(s.frames) && keep < len(groups) {
		a, b := s.frames[keep].facts, groups[keep]
		if len(a) != len(b) {
			break
		}
		same := true
		for k := range a {
			if a[k] != b[k] {
				same = false
				break
			}
		}
		if !same {
			break
		}
		keep++
	}
	if len(s.frames) > keep {
		// a frame that only grew keeps what it has
		if keep < len(groups) {
			a, b := s.frames[keep].facts, groups[keep]
			if len(a) < len(b) {
				same := true
				for k := range a {
					if a[k] != b[k] {
						same = false
						break
					}
				}
				if same {
					rest := append([][]int{a, b[len(a):]}, groups[keep+1:]...)
					groups = append(append([][]int{}, groups[:keep]...), rest...)
					keep++
				}
			}
		}
		s.popTo(keep)
	}
	for _, g := range groups[keep:] {
		s.push(g)
		for _, i := range g {
			s.Assert(x.posAlt(x.items[i].t, true))
		}
	}
}

func (s *Solver) push(facts []int) {
	s.frames = append(s.frames, &sframe{facts: facts, na: s.na, nd: s.nDef, text: &strings.Builder{}})
	s.raw("(push)\n")
}

func (s *Solver) popTo(n int) {
	for len(s.frames) > n {
		f := s.frames[len(s.frames)-1]
		s.frames = s.frames[:len(s.frames)-1]
		s.na, s.nDef = f.na, f.nd
		s.raw("(pop)\n")
	}
}

// script is everything asserted now, for another solver.
func (s *Solver) script() string {
	var sb strings.Builder
	sb.WriteString(s.log.String())
	sb.WriteString(s.base.String())
	for _, f := range s.frames {
		sb.WriteString(f.text.String())
	}
	return sb.String()
}

package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type OblResult struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"` // proved, failed, unknown
	By     string  `json:"by,omitempty"`
	Secs   float64 `json:"secs,omitempty"`
	Model  string  `json:"model,omitempty"`
}

type Result struct {
	Contract    string      `json:"contract"`
	Target      string      `json:"target"`
	Props       []string    `json:"props"`
	Error       string      `json:"error,omitempty"`
	Obls        []OblResult `json:"obls"`
	Inlined     []string    `json:"inlined,omitempty"`
	Used        []string    `json:"used,omitempty"`
	Assumes     []string    `json:"assumes,omitempty"`
	Invariants  []string    `json:"invariants,omitempty"`
	Secs        float64     `json:"secs"`
	SolverSecs  float64     `json:"solver_secs"`
	Terminates  bool        `json:"terminates"`
	PartialLoop []string    `json:"partial_loops,omitempty"`
	Seeds       []string    `json:"seeds,omitempty"`
}

var (
	flagTmo  = 1500
	flagSecs = 25
	flagDump = ""
	flagVerb = false
	flagFail = 0 // stop escalating after this many failures
)

// houdini prunes candidate invariants until all remaining ones are inductive.
func (x *Exec) houdini() (secs float64) {
	if len(x.cands) == 0 {
		return 0
	}
	last := 0
	for i, it := range x.items {
		if it.kind == "cand" {
			last = i
		}
	}
	if os.Getenv("GOWP_CANDS") != "" {
		for _, c := range x.cands {
			fmt.Printf("    cand %s\n", c.desc)
		}
	}
	// points where candidates are checked
	type point struct {
		at    int
		batch []*Item
	}
	var pts []point
	for i := 0; i <= last; i++ {
		if x.items[i].kind != "cand" {
			continue
		}
		p := point{at: i}
		j := i
		for ; j <= last && x.items[j].kind == "cand" && x.items[j].node == x.items[i].node; j++ {
			p.batch = append(p.batch, x.items[j])
		}
		pts = append(pts, p)
		i = j - 1
	}
	for iter := 0; ; iter++ {
		killed, n := 0, 0
		t0 := time.Now()
		next := 0
		x.workers(1500, func(s *Solver) bool {
			if next >= len(pts) {
				return false
			}
			p := pts[next]
			next++
			var batch []*Item
			for _, it := range p.batch {
				if it.sel.alive {
					batch = append(batch, it)
				}
			}
			n0 := s.N
			if len(batch) > 0 {
				killed += x.checkBatch(s, p.at, batch)
			}
			n += s.N - n0
			return true
		})
		secs += time.Since(t0).Seconds()
		if flagVerb {
			al := 0
			for _, c := range x.cands {
				if c.alive {
					al++
				}
			}
			fmt.Printf("  houdini pass %d: killed %d, alive %d, %d queries (%.1fs)\n", iter, killed, al, n, time.Since(t0).Seconds())
		}
		if killed == 0 {
			if flagVerb {
				for _, c := range x.cands {
					fmt.Printf("    %v %s %s\n", c.alive, c.desc, c.why)
				}
			}
			return
		}
	}
}

// holds checks goal at item i: with all the facts of the paths to it, then path by path.
func (x *Exec) holds(s *Solver, i int, goal *Term, split bool) string {
	c := x.c
	nd := x.items[i].node
	x.prepare(s, i, nd.ancestors(), true)
	r := s.Check(goal)
	if r == "unsat" || r == "sat" || !split || nd == nil {
		return r
	}
	for _, want := range []int{2, 12} {
		alts := nd.deepSplits(want)
		if alts == nil {
			return r
		}
		all := true
		var hard []string
		for k, a := range alts {
			x.prepare(s, i, a.nodes, true)
			cond := []*Term{goal}
			for _, g := range a.cond {
				if g != nil {
					cond = append(cond, x.posAlt(g, true))
				}
			}
			if s.Check(c.And(cond...)) != "unsat" {
				if want == 12 && len(hard) < 4 {
					ref := s.refLog(c.And(cond...))
					hard = append(hard, s.script()+"(assert "+ref+")\n")
					continue
				}
				if os.Getenv("GOWP_SPLIT") != "" {
					fmt.Fprintf(os.Stderr, "SPLIT %s: %d of %d: %s\n", x.items[i].name, k, len(alts), c.Show(c.And(a.cond...)))
					ref := s.refLog(c.And(cond...))
					os.WriteFile(fmt.Sprintf("%s/split_%d_%d.smt2", os.Getenv("GOWP_SPLIT"), i, k), []byte(s.script()+"(assert "+ref+")\n(check-sat)\n"), 0644)
					all = false
					continue
				}
				all = false
				break
			}
		}
		if all && len(hard) > 0 {
			all = x.allUnsat(hard)
		}
		if all {
			return "unsat"
		}
	}
	x.prepare(s, i, nd.ancestors(), true)
	return r
}

// allUnsat runs fresh solvers on the scripts.
func (x *Exec) allUnsat(scripts []string) bool {
	if x.hardFails >= 8 {
		return false
	}
	ok := make([]bool, len(scripts))
	var wg sync.WaitGroup
	for k, script := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, _ := standalone(script, 20, false)
			ok[k] = r == "unsat"
		}()
	}
	x.mu.Unlock()
	wg.Wait()
	x.mu.Lock()
	for _, b := range ok {
		if !b {
			x.hardFails++
			return false
		}
	}
	return true
}

func (x *Exec) checkBatch(s *Solver, at int, batch []*Item) int {
	c := x.c
	lean := x.target != nil && x.target.lean
	neg := func(it *Item) *Term { return c.And(x.posAlt(it.guard, true), x.posAlt(c.Not(it.t), true)) }
	if len(batch) == 0 {
		return 0
	}
	if len(batch) > 1 {
		var ds []*Term
		for _, it := range batch {
			if it.sel.alive {
				ds = append(ds, neg(it))
			}
		}
		if x.holds(s, at, c.Or(ds...), false) == "unsat" {
			return 0
		}
		if len(batch) > 6 {
			m := len(batch) / 2
			return x.checkBatch(s, at, batch[:m]) + x.checkBatch(s, at, batch[m:])
		}
	}
	var bad []*Item
	for _, it := range batch {
		if it.sel.alive && x.holds(s, at, neg(it), it.user || lean && (it.sel.frame || it.vt)) != "unsat" {
			bad = append(bad, it)
		}
	}
	// incremental solving is weaker than a fresh query
	ok := make([]bool, len(bad))
	var wg sync.WaitGroup
	for i, it := range bad {
		if !it.user {
			continue
		}
		x.prepare(s, at, x.items[at].node.ancestors(), true)
		ref := s.refLog(neg(it))
		script := s.script() + "(assert " + ref + ")\n"
		if flagDump != "" {
			os.WriteFile(fmt.Sprintf("%s/cand_%s_%d.smt2", flagDump, x.target.name, it.sel.id), []byte(script+"(check-sat)\n"), 0644)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, _ := standalone(script, 6, true)
			ok[i] = r == "unsat"
		}()
	}
	x.mu.Unlock()
	wg.Wait()
	x.mu.Lock()
	k := 0
	for i, it := range bad {
		if !ok[i] {
			it.sel.alive = false
			it.sel.why = it.name
			k++
		}
	}
	return k
}

// discharge checks all obligations.
func (x *Exec) discharge(res *Result) {
	t0 := time.Now()
	fails := 0
	outs := make([]*OblResult, len(x.items))
	var todo []int
	for i, it := range x.items {
		switch it.kind {
		case "term":
			ok := false
			for _, v := range it.vars {
				if v.alive {
					ok = true
				}
			}
			if !ok {
				res.PartialLoop = append(res.PartialLoop, it.name)
			}
			if x.target.terminates {
				st := "proved"
				if !ok {
					st = "failed"
				}
				outs[i] = &OblResult{Name: it.name, Kind: "termination", Status: st, By: "z3-5.3.2"}
			}
		case "cover", "obl":
			todo = append(todo, i)
		}
	}
	next := 0
	x.workers(flagTmo, func(s *Solver) bool {
		if next >= len(todo) {
			return false
		}
		// neighbours share most of their facts
		chunk := todo[next:min(next+6, len(todo))]
		next += len(chunk)
		for _, i := range chunk {
			outs[i] = x.dischargeItem(s, i, &fails, res)
		}
		return true
	})
	for _, o := range outs {
		if o != nil {
			res.Obls = append(res.Obls, *o)
		}
	}
	res.SolverSecs += time.Since(t0).Seconds()
	for _, cd := range x.cands {
		if cd.alive && !strings.Contains(cd.desc, "variant") {
			res.Invariants = append(res.Invariants, cd.desc)
		}
	}
}

// dischargeItem checks one obligation.
func (x *Exec) dischargeItem(s *Solver, i int, fails *int, res *Result) *OblResult {
	c := x.c
	it := x.items[i]
	switch it.kind {
	case "cover":
		t1 := time.Now()
		x.prepare(s, i, it.node.ancestors(), true)
		r := s.Check(it.guard)
		o := OblResult{Name: it.name, Kind: "cover", Secs: time.Since(t1).Seconds(), By: "z3-5.3.2", Status: "proved"}
		if r == "unsat" {
			o.Status = "failed"
			o.Model = "assumptions are contradictory"
		}
		return &o
	case "obl":
		o := OblResult{Name: it.name, Kind: it.okind, Pos: it.pos}
		t1 := time.Now()
		if it.t == c.True {
			o.Status, o.By = "proved", "simplifier"
		} else {
			goal := c.And(x.posAlt(it.guard, true), x.posAlt(c.Not(it.t), true))
			r := x.holds(s, i, goal, true)
			o.By = "z3-5.3.2"
			if r == "unsat" {
				o.Status = "proved"
			} else {
				if *fails < 6 {
					ref := s.refLog(goal)
					script := s.script() + "(assert " + ref + ")\n"
					x.mu.Unlock()
					r2, who := standalone(script, flagSecs, true)
					x.mu.Lock()
					if r2 == "unsat" {
						o.Status, o.By = "proved", who
					} else {
						o.Status = "failed"
						o.By = "z3-5.3.2, z3-4.8.12, cvc5-1.1.2"
						*fails++
					}
				} else {
					o.Status = "failed"
					o.Model = "not escalated after earlier failures"
				}
				if o.Status == "failed" {
					if flagDump != "" {
						os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", flagDump, x.target.name, i), []byte(s.script()+"(assert "+s.refLog(goal)+")\n(check-sat)\n"), 0644)
					}
					res.Seeds = append(res.Seeds, x.model(s, goal, &o)...)
					if flagVerb {
						fmt.Printf("  FAIL %s %s: %s\n     guard: %.3000s\n     goal: %.30000s\n%s", r, o.Name, o.Pos, c.Show(it.guard), c.Show(it.t), o.Model)
					}
				}
			}
		}
		o.Secs = time.Since(t1).Seconds()
		return &o
	}
	return nil
}

// workers runs f with several solvers until it has nothing more to do. f runs under
// x.mu, which is released while a solver works.
func (x *Exec) workers(tmo int, f func(s *Solver) bool) {
	n := 1
	if x.target != nil && x.target.lean {
		n = 6
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.mu.Lock()
			defer x.mu.Unlock()
			s := NewSolver(x.c, tmo, true)
			s.mu = &x.mu
			defer s.Close()
			for f(s) {
			}
		}()
	}
	wg.Wait()
}

// refLog is Ref with the definitions kept in the log.
func (s *Solver) refLog(t *Term) string { return s.Ref(t) }

// model extracts a readable candidate counterexample.
func (x *Exec) model(s *Solver, goal *Term, o *OblResult) []string {
	var names []string
	var ts []*Term
	add := func(n string, t *Term) {
		names = append(names, n)
		ts = append(ts, t)
	}
	var ps []string
	for n := range x.tparams {
		ps = append(ps, n)
	}
	sort.Strings(ps)
	for _, n := range ps {
		v := x.tparams[n]
		t := x.ttypes[n]
		func() {
			defer func() { recover() }()
			fs := x.flat(v, t)
			for i, l := range x.leaves(t) {
				add(n+l.path, fs[i])
				if l.sort == "Str" {
					add("len("+n+l.path+")", x.slen(fs[i]))
					for k := int64(0); k < 8; k++ {
						add(fmt.Sprintf("%s[%d]", n+l.path, k), x.sat(fs[i], x.c.Int(k)))
					}
				}
				if l.sort == "Iface" {
					add("tag("+n+l.path+")", x.tag(fs[i]))
				}
			}
		}()
	}
	if len(ts) > 80 {
		ts = ts[:80]
		names = names[:80]
	}
	r, vs := s.Values([]*Term{goal}, ts)
	var sb strings.Builder
	fmt.Fprintf(&sb, "solver: %s\n", r)
	var seeds []string
	for i, v := range vs {
		fmt.Fprintf(&sb, "  %s = %s\n", names[i], v)
		seeds = append(seeds, names[i]+"="+v)
	}
	o.Model = sb.String()
	return seeds
}

func runContract(w *World, ct *Contract) (res Result) {
	if ct.lean {
		r, _ := runContract1(w, ct, map[string]bool{})
		return r
	}
	r, prom := runContract1(w, ct, nil)
	if len(prom) > 0 && r.Error == "" {
		// second generation: the frames established for loops simplify reads
		r2, again := runContract1(w, ct, prom)
		ok := r2.Error == ""
		for k := range prom {
			ok = ok && again[k]
		}
		if ok {
			r2.Secs += r.Secs
			r2.SolverSecs += r.SolverSecs
			return r2
		}
		r3, _ := runContract1(w, ct, map[string]bool{})
		return r3
	}
	return r
}

// runContract1 proves ct. With promote == nil it stops after loop inference when
// there are frame invariants worth promoting, and returns them.
func runContract1(w *World, ct *Contract, promote map[string]bool) (res Result, prom map[string]bool) {
	t0 := time.Now()
	res = Result{Contract: ct.name, Target: ct.targetStr, Props: ct.props}
	if ct.fn != nil {
		res.Target = ct.fn.String()
	}
	x := NewExec(w)
	x.promote = promote
	defer func() {
		if r := recover(); r != nil {
			if flagVerb {
				panic(r)
			}
			res.Error = fmt.Sprintf("internal: %v", r)
			if os.Getenv("GOWP_TRACE") != "" {
				debug.PrintStack()
			}
		}
		if x.online != nil {
			res.SolverSecs += x.online.Time.Seconds()
			x.online.Close()
		}
		res.Secs = time.Since(t0).Seconds()
	}()
	if err := x.Prove(ct); err != nil {
		res.Error = err.Error()
		// report what is reached up to there
		return
	}
	if flagVerb {
		fmt.Printf("  %s: %d items, %d cands, gen %.2fs\n", ct.name, len(x.items), len(x.cands), time.Since(t0).Seconds())
	}
	res.SolverSecs += x.houdini()
	prom = map[string]bool{}
	for _, c := range x.cands {
		if c.alive && c.frame {
			prom[c.desc] = true
		}
	}
	if promote == nil && len(prom) > 0 {
		return
	}
	if promote == nil {
		prom = nil
	}
	for k := range promote {
		if !prom[k] {
			return // a promoted frame did not survive: unusable
		}
	}
	x.discharge(&res)
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	sort.Strings(res.Inlined)
	for k := range x.used {
		res.Used = append(res.Used, k)
	}
	sort.Strings(res.Used)
	for k := range x.assumes {
		res.Assumes = append(res.Assumes, k)
	}
	sort.Strings(res.Assumes)
	res.Terminates = len(res.PartialLoop) == 0
	return
}

package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

const prelude = `
(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.array.extensional false)
(set-option :smt.arith.solver 2)
(set-option :model.completion false)
(set-logic ALL)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort Flt 0)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun strid (Str) Int)
(declare-fun substr (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun sdiff (Str Str) Int)
(declare-fun slt (Str Str) Bool)
(declare-fun tag (Iface) Int)
(declare-fun |nil_iface| () Iface)
(declare-fun |str#0| () Str)
(assert (= (strid |str#0|) 1))
(assert (= (slen |str#0|) 0))
(assert (= (tag |nil_iface|) 0))
(assert (forall ((v Iface)) (! (=> (= (tag v) 0) (= v |nil_iface|)) :pattern ((tag v)))))
(assert (forall ((v Iface)) (! (>= (tag v) 0) :pattern ((tag v)))))
(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (<= (slen s) 140737488355328)) :pattern ((slen s)))))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s |str#0|)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (substr s a b)) (- b a))) :pattern ((substr s a b)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= 0 i) (< i (- b a)) (<= b (slen s))) (= (sat (substr s a b) i) (sat s (+ a i)))) :pattern ((sat (substr s a b) i)))))
(assert (forall ((s Str) (b Int)) (! (=> (= b (slen s)) (= (substr s 0 b) s)) :pattern ((substr s 0 b)))))
(assert (forall ((s Str) (a Int) (b Int) (d Int) (e Int)) (! (=> (and (<= 0 a) (<= 0 d) (<= d e) (<= e (- b a)) (<= b (slen s))) (= (substr (substr s a b) d e) (substr s (+ a d) (+ a e)))) :pattern ((substr (substr s a b) d e)))))
(assert (forall ((s Str) (t Str)) (! (= (slen (scat s t)) (+ (slen s) (slen t))) :pattern ((scat s t)))))
(assert (forall ((s Str) (t Str)) (! (and (=> (= (slen s) 0) (= (scat s t) t)) (=> (= (slen t) 0) (= (scat s t) s))) :pattern ((scat s t)))))
(assert (forall ((s Str) (t Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen s) (slen t)))) (= (sat (scat s t) i) (ite (< i (slen s)) (sat s i) (sat t (- i (slen s)))))) :pattern ((sat (scat s t) i)))))
(assert (forall ((s Str) (a Int) (b Int) (e Int)) (! (=> (and (<= 0 a) (<= a b) (<= b e) (<= e (slen s))) (= (scat (substr s a b) (substr s b e)) (substr s a e))) :pattern ((scat (substr s a b) (substr s b e))))))
(declare-fun chr1 (Int) Str)
(assert (forall ((c Int)) (! (and (= (slen (chr1 c)) 1) (=> (and (<= 0 c) (<= c 255)) (= (sat (chr1 c) 0) c))) :pattern ((chr1 c)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (< a (slen s)) (= b (+ a 1))) (= (substr s a b) (chr1 (sat s a)))) :pattern ((substr s a b)))))
(declare-fun iand (Int Int) Int)
(declare-fun ior (Int Int) Int)
(declare-fun ixor (Int Int) Int)
(declare-fun ishl (Int Int) Int)
(declare-fun ishr (Int Int) Int)
`

type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	c      *Ctx
	nd     int // decls emitted
	na     int
	done   map[*Term]bool
	log    *strings.Builder // declarations and definitions
	base   *strings.Builder // assertions outside of frames
	frames []*sframe
	defs   []string // definitions of named pattern terms
	nDef   int
	mu     *sync.Mutex // released while waiting for an answer
	Time   time.Duration
	N      int
	tmo    int
	dead   bool
	gnd    map[*Term]string // ground pattern sub-terms with interpreted structure, named
	bad    map[*Term]bool
}

// badPat: t contains structure that may not occur in a trigger.
func (s *Solver) badPat(t *Term) bool {
	if b, ok := s.bad[t]; ok {
		return b
	}
	b := false
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", ">=", ">", "forall", "exists", "store", "constarr", "true", "false":
		b = true
	}
	for _, a := range t.args {
		if b {
			break
		}
		b = s.badPat(a)
	}
	s.bad[t] = b
	return b
}

// prepPat names the ground sub-terms of pattern p that may not occur in triggers; false: p is unusable.
func (s *Solver) prepPat(p *Term) bool {
	if !s.badPat(p) {
		return true
	}
	if !p.bound {
		if _, ok := s.gnd[p]; !ok {
			n := fmt.Sprintf("g!%d", p.id)
			var sb strings.Builder
			s.send(fmt.Sprintf("(declare-fun %s () %s)\n", n, p.sort))
			fmt.Fprintf(&sb, "(assert (= %s ", n)
			s.c.show(&sb, p, 0, s.named, s)
			sb.WriteString("))\n")
			s.defs = append(s.defs, sb.String())
			s.gnd[p] = n
		}
		return true
	}
	switch p.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", ">=", ">", "forall", "exists", "store", "constarr":
		return false
	}
	for _, a := range p.args {
		if !s.prepPat(a) {
			return false
		}
	}
	return true
}

// patName prints ground sub-terms of patterns.
func (s *Solver) patName(t *Term) string {
	if t.bound {
		return ""
	}
	if n, ok := s.gnd[t]; ok {
		return n
	}
	return s.named(t)
}

func NewSolver(c *Ctx, timeoutMs int, keepLog bool) *Solver {
	s := &Solver{c: c, done: map[*Term]bool{}, gnd: map[*Term]string{}, bad: map[*Term]bool{}, tmo: timeoutMs}
	if keepLog {
		s.log, s.base = &strings.Builder{}, &strings.Builder{}
	}
	s.cmd = exec.Command("z3-new", "-in")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if os.Getenv("GOWP_DEBUG") != "" {
		s.cmd.Stderr = os.Stderr
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.send(prelude)
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	return s
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.log != nil && !strings.HasPrefix(t, "(set-option :timeout") {
		s.log.WriteString(t)
	}
	s.raw(t)
}

func (s *Solver) raw(t string) {
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

// sendAssert sends assertions, which go away with the frame they are made in.
func (s *Solver) sendAssert(t string) {
	if n := len(s.frames); n > 0 {
		s.frames[n-1].text.WriteString(t)
	} else if s.base != nil {
		s.base.WriteString(t)
	}
	s.raw(t)
}

// sync emits pending declarations and axioms.
func (s *Solver) sync() {
	for ; s.nd < len(s.c.decls); s.nd++ {
		s.send(s.c.decls[s.nd] + "\n")
	}
	for ; s.na < len(s.c.axioms); s.na++ {
		s.sendAssert(s.c.axioms[s.na] + "\n")
	}
	for ; s.nDef < len(s.defs); s.nDef++ {
		s.sendAssert(s.defs[s.nDef])
	}
}

// Ref makes sure t is defined and returns its printed form.
func (s *Solver) Ref(t *Term) string {
	s.sync()
	var sb strings.Builder
	s.define(t)
	s.c.show(&sb, t, 0, s.named, s)
	return sb.String()
}

func (s *Solver) named(t *Term) string {
	if !t.bound && len(t.args) > 0 && t.depth >= 2 && s.done[t] {
		return fmt.Sprintf("t!%d", t.id)
	}
	return ""
}

func (s *Solver) define(t *Term) {
	if s.done[t] {
		return
	}
	// iterative post-order
	var stack []*Term
	stack = append(stack, t)
	vis := map[*Term]bool{}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		if s.done[n] {
			stack = stack[:len(stack)-1]
			continue
		}
		if !vis[n] {
			vis[n] = true
			for _, a := range n.args {
				if !s.done[a] {
					stack = append(stack, a)
				}
			}
			for _, p := range n.pats {
				for _, a := range p {
					if !s.done[a] {
						stack = append(stack, a)
					}
				}
			}
			continue
		}
		stack = stack[:len(stack)-1]
		for _, p := range n.pats {
			for _, a := range p {
				s.prepPat(a)
			}
		}
		if !n.bound && len(n.args) > 0 && n.depth >= 2 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "(define-fun t!%d () %s ", n.id, n.sort)
			s.c.show(&sb, n, 0, s.named, s)
			sb.WriteString(")\n")
			s.send(sb.String())
		}
		s.done[n] = true
	}
}

func (s *Solver) Assert(t *Term) {
	if t == s.c.True {
		return
	}
	r := s.Ref(t)
	s.sync()
	s.sendAssert("(assert " + r + ")\n")
}

// Check whether the conjunction of ts is satisfiable with what is asserted.
// returns "sat","unsat","unknown".
func (s *Solver) Check(ts ...*Term) string {
	var rs []string
	for _, t := range ts {
		if t == s.c.True {
			continue
		}
		if t == s.c.False {
			return "unsat"
		}
		rs = append(rs, s.Ref(t))
	}
	s.sync()
	var sb strings.Builder
	sb.WriteString("(push)\n")
	for _, r := range rs {
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n(pop)\n")
	t0 := time.Now()
	s.raw(sb.String())
	r := s.read()
	s.Time += time.Since(t0)
	s.N++
	return r
}

func (s *Solver) read() string {
	if s.mu != nil {
		s.mu.Unlock()
		defer s.mu.Lock()
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "unknown"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l
		case "":
			continue
		}
		if strings.HasPrefix(l, "(error") {
			if z3Errors++; z3Errors <= 3 || os.Getenv("GOWP_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "z3: %.300s\n", l)
			}
			if s.log != nil && os.Getenv("GOWP_DEBUG") != "" {
				os.WriteFile("/tmp/gowp_err.smt2", []byte(s.log.String()), 0644)
			}
			continue
		}
	}
}

// readExpr reads one balanced s-expression.
func (s *Solver) readExpr() (string, error) {
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(strings.TrimSpace(l) + " ")
		t := sb.String()
		if strings.Count(t, "(") <= strings.Count(t, ")") && strings.TrimSpace(t) != "" {
			return strings.TrimSpace(t), nil
		}
	}
}

// Model of the last goal: re-checks with the goal asserted and returns values of ts.
func (s *Solver) Values(goal []*Term, ts []*Term) (string, []string) {
	var rs, vs []string
	for _, t := range goal {
		rs = append(rs, s.Ref(t))
	}
	for _, t := range ts {
		vs = append(vs, s.Ref(t))
	}
	s.sync()
	s.raw("(push)\n")
	for _, r := range rs {
		s.raw("(assert " + r + ")\n")
	}
	s.raw("(check-sat)\n")
	r := s.read()
	var out []string
	if r == "sat" || r == "unknown" {
		for _, v := range vs {
			s.raw("(eval " + v + " :completion true)\n")
			l, err := s.readExpr()
			if err != nil {
				break
			}
			if len(l) > 80 {
				l = "?"
			}
			out = append(out, l)
		}
	}
	s.raw("(pop)\n")
	return r, out
}

// standalone runs a full script on alternative back ends.
func standalone(script string, secs int, all bool) (string, string) {
	f, err := os.CreateTemp("", "gowp*.smt2")
	if err != nil {
		return "unknown", ""
	}
	f.WriteString(script + "(check-sat)\n")
	f.Close()
	defer os.Remove(f.Name())
	// cvc5 does not know z3's options
	g, _ := os.CreateTemp("", "gowp*.smt2")
	var sb strings.Builder
	arrs := map[string]string{}
	for _, l := range strings.Split(script, "\n") {
		if strings.HasPrefix(l, "(set-option") {
			continue
		}
		if strings.Contains(l, "((as const ") {
			l = noConstArr(l, arrs, &sb)
		}
		sb.WriteString(l + "\n")
	}
	g.WriteString(sb.String() + "(check-sat)\n")
	g.Close()
	defer os.Remove(g.Name())
	type res struct{ who, r string }
	ch := make(chan res, 3)
	var cmds []*exec.Cmd
	runc := func(who string, args ...string) {
		cmd := exec.Command(args[0], args[1:]...)
		cmds = append(cmds, cmd)
		go func() {
			o, _ := cmd.Output()
			r := "unknown"
			for _, l := range strings.Split(string(o), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					r = l
				}
			}
			ch <- res{who, r}
		}()
	}
	runc("z3-5.3.2", "z3-new", fmt.Sprintf("-T:%d", secs), f.Name())
	runc("z3-4.8.12", "z3", fmt.Sprintf("-T:%d", secs), f.Name())
	if all {
		runc("cvc5-1.1.2", "cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), g.Name())
	}
	out := res{"", "unknown"}
	for range cmds {
		r := <-ch
		if r.r == "unsat" {
			out = r
			break
		}
		if r.r == "sat" {
			out = r
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return out.r, out.who
}

// noConstArr replaces constant arrays over non-literal values (not accepted by cvc5) by axiomatised arrays.
func noConstArr(l string, arrs map[string]string, pre *strings.Builder) string {
	from := 0
	for {
		i := strings.Index(l[from:], "((as const ")
		if i < 0 {
			return l
		}
		i += from
		d, j := 0, i+len("((as const ")
		k := j
		for ; k < len(l); k++ {
			if l[k] == '(' {
				d++
			} else if l[k] == ')' {
				d--
				if d < 0 {
					break
				}
				if d == 0 {
					k++
					break
				}
			}
		}
		srt := l[j:k]
		rest := l[k:]
		if !strings.HasPrefix(rest, ") ") {
			from = i + 5
			continue
		}
		v := rest[2:]
		e := 0
		if strings.HasPrefix(v, "|") {
			e = strings.Index(v[1:], "|") + 2
		} else if strings.HasPrefix(v, "(") {
			from = i + 5
			continue
		} else {
			e = strings.IndexAny(v, " )")
		}
		val := v[:e]
		if val != "true" && val != "false" && !(val[0] >= '0' && val[0] <= '9') {
			key := srt + val
			if _, ok := arrs[key]; !ok {
				n := fmt.Sprintf("ca!%d", len(arrs))
				arrs[key] = n
				var a, b string
				_ = b
				inner := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array "), ")")
				if strings.HasPrefix(inner, "(") {
					from = i + 5
					continue
				}
				a = inner[:strings.Index(inner, " ")]
				fmt.Fprintf(pre, "(declare-fun %s () %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, srt, a, n, val, n)
			}
			l = l[:i] + arrs[key] + l[k+2+e+1:]
			continue
		}
		from = i + 5
	}
}

var z3Errors int

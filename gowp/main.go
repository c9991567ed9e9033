package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Report struct {
	Results []Result `json:"results"`
	Errors  []string `json:"errors,omitempty"`
	Dropped []Drop   `json:"dropped,omitempty"`
	Trusted []string `json:"trusted,omitempty"`
	LoadS   float64  `json:"load_s"`
	WallS   float64  `json:"wall_s"`
}

func main() {
	src := flag.String("src", "/repo/src", "source module")
	con := flag.String("contracts", "/verif/contracts", "contracts directory")
	prop := flag.String("property", "", "property id")
	only := flag.String("only", "", "comma separated contract names")
	jobs := flag.Int("j", 8, "workers")
	out := flag.String("json", "", "report file")
	worker := flag.Bool("worker", false, "worker mode")
	emit := flag.String("emit", "", "write the contracts in use and a replay registry to this directory")
	list := flag.Bool("list", false, "list contracts")
	verb := flag.Bool("v", false, "verbose")
	tmo := flag.Int("t", 4000, "ms per obligation")
	secs := flag.Int("T", 25, "s per escalated obligation")
	pats := flag.String("pkgs", "./core,./helena_dialect", "packages")
	flag.StringVar(&flagDump, "dump", "", "write failing queries to this directory")
	flag.Parse()
	flagVerb, flagTmo, flagSecs = *verb, *tmo, *secs
	t0 := time.Now()
	w, err := LoadWorld(*src, *con, strings.Split(*pats, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		rep := Report{Errors: []string{err.Error()}}
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0644)
		}
		os.Exit(3)
	}
	load := time.Since(t0).Seconds()
	byName := map[string]*Contract{}
	for _, c := range w.all {
		byName[c.name] = c
	}
	if *worker {
		sc := bufio.NewScanner(os.Stdin)
		enc := json.NewEncoder(os.Stdout)
		for sc.Scan() {
			ct := byName[sc.Text()]
			if ct == nil {
				enc.Encode(Result{Contract: sc.Text(), Error: "no such contract"})
				continue
			}
			enc.Encode(runContract(w, ct))
		}
		return
	}
	if *emit != "" {
		if err := w.Emit(*emit, *con); err != nil {
			fmt.Fprintln(os.Stderr, "emit:", err)
			os.Exit(3)
		}
	}
	if *list {
		for _, c := range w.all {
			fmt.Println(c.name, c.targetStr, c.props, c.trusted)
		}
		for _, d := range w.dropped {
			fmt.Println("DROPPED", d.Name, d.Props, d.Reason)
		}
		for _, e := range w.errors {
			fmt.Println("ERROR", e)
		}
		return
	}
	var queue []string
	want := map[string]bool{}
	push := func(n string) {
		c := byName[n]
		if c == nil || want[n] || c.trusted {
			return
		}
		if c.fn == nil && !c.lemma {
			return
		}
		want[n] = true
		queue = append(queue, n)
	}
	if *only != "" {
		for _, n := range strings.Split(*only, ",") {
			found := false
			for _, c := range w.all {
				if strings.Contains(c.name, n) {
					push(c.name)
					found = true
				}
			}
			if !found {
				fmt.Println("no contract matches", n)
			}
		}
	} else {
		for _, c := range w.all {
			for _, p := range c.props {
				if p == *prop || *prop == "all" {
					push(c.name)
				}
			}
		}
	}
	rep := Report{LoadS: load}
	for _, d := range w.dropped {
		for _, p := range d.Props {
			if p == *prop || *prop == "all" {
				rep.Dropped = append(rep.Dropped, d)
				break
			}
		}
	}
	rep.Errors = append(rep.Errors, w.errors...)
	if *only != "" && len(queue) == 1 || *verb {
		for i := 0; i < len(queue); i++ {
			r := runContract(w, byName[queue[i]])
			printResult(&r)
			rep.Results = append(rep.Results, r)
		}
	} else {
		rep.Results = parallel(w, queue, *jobs, push, &queue, *only == "")
		for i := range rep.Results {
			printResult(&rep.Results[i])
		}
	}
	for _, c := range w.all {
		if c.trusted {
			for _, r := range rep.Results {
				for _, u := range r.Used {
					if u == c.name {
						rep.Trusted = append(rep.Trusted, c.targetStr)
					}
				}
			}
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	n, f := 0, 0
	for _, r := range rep.Results {
		if r.Error != "" {
			f++
		}
		for _, o := range r.Obls {
			n++
			if o.Status != "proved" {
				f++
			}
		}
	}
	for _, d := range rep.Dropped {
		fmt.Println("DROPPED", d.Name, d.Reason)
		f++
	}
	for _, e := range w.errors {
		fmt.Println("ERROR", e)
	}
	fmt.Printf("%d contracts, %d obligations, %d failures, %.1fs\n", len(rep.Results), n, f, rep.WallS)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if f > 0 {
		os.Exit(1)
	}
}

func printResult(r *Result) {
	n, f := 0, 0
	for _, o := range r.Obls {
		n++
		if o.Status != "proved" {
			f++
		}
	}
	st := "ok"
	if r.Error != "" || f > 0 {
		st = "FAIL"
	}
	part := ""
	if len(r.PartialLoop) > 0 {
		part = fmt.Sprintf(" (no variant: %d)", len(r.PartialLoop))
	}
	fmt.Printf("%-4s %-44s %3d obl %2d failed %6.1fs %s%s\n", st, r.Contract, n, f, r.Secs, r.Error, part)
	for _, o := range r.Obls {
		if o.Status != "proved" {
			fmt.Printf("       - %s [%s] (%.60s)\n", o.Name, o.Pos, strings.SplitN(o.Model, "\n", 2)[0])
		}
	}
}

// parallel distributes contracts over worker processes; contracts used by a contract are queued too.
func parallel(w *World, q0 []string, jobs int, push func(string), queue *[]string, closure bool) []Result {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	next, busy := 0, 0
	var results []Result
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var rd *bufio.Reader
			for {
				mu.Lock()
				for next >= len(*queue) && busy > 0 {
					cond.Wait()
				}
				if next >= len(*queue) {
					mu.Unlock()
					cond.Broadcast()
					break
				}
				n := (*queue)[next]
				next++
				busy++
				mu.Unlock()
				if cmd == nil {
					cmd = exec.Command(os.Args[0], append(os.Args[1:], "-worker")...)
					in, _ = cmd.StdinPipe()
					o, _ := cmd.StdoutPipe()
					cmd.Stderr = os.Stderr
					rd = bufio.NewReaderSize(o, 1<<20)
					if err := cmd.Start(); err != nil {
						panic(err)
					}
				}
				io.WriteString(in, n+"\n")
				l, err := rd.ReadBytes('\n')
				var r Result
				if err != nil || json.Unmarshal(l, &r) != nil {
					r = Result{Contract: n, Error: fmt.Sprintf("worker failed: %v", err)}
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
				mu.Lock()
				results = append(results, r)
				if closure {
					for _, u := range r.Used {
						push(u)
					}
				}
				busy--
				mu.Unlock()
				cond.Broadcast()
			}
			if cmd != nil {
				in.Close()
				cmd.Wait()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Contract < results[j].Contract })
	return results
}

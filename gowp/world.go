package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Contract struct {
	name       string
	fn         *ssa.Function // target (nil for lemmas)
	body       *ssa.Function // contract function
	props      []string
	trusted    bool
	iface      bool
	closed     bool
	lemma      bool
	pureFuncs  bool
	auto       bool
	file       string
	targetStr  string
	bounded    string
	terminates bool
	lean       bool            // no comparisons among the guesses for loop invariants
	inline bool // callers see the body, not the contract
	abstract   map[string]bool // specification functions left uninterpreted
	uses       []string        // of several contracts on one function, the ones to use at calls
	unroll     int             // loops without invariants: iterations to execute, with an obligation that no more is needed
	pure       bool
	noReplay   bool
}

type InvTemplate struct {
	fn      *ssa.Function
	targets []string // contract names, or "*"
	variant bool
}

type World struct {
	byName   map[string]*Contract
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    []*ssa.Package
	mu       sync.RWMutex
	boxTag   map[string]int
	boxType  map[string]types.Type
	boxOrder []string

	contracts      map[*ssa.Function]*Contract
	all            []*Contract
	trusted        map[string]*Contract
	ifaceContracts map[string]*Contract
	opaque         map[string]bool
	volatile       []string
	specFns        map[*ssa.Function]*ssa.Function
	invs           []*InvTemplate
	verifFiles     map[string]bool
	verifFns       map[*ssa.Function]bool
	concrete       []types.Type
	implCache      map[string][]types.Type
	typeInvs       map[string]*ssa.Function
	poolInvs       map[string]*ssa.Function
	mutGlob        map[string]bool
	allFns         map[*ssa.Function]bool
	errors         []string
	dropped        []Drop
	sources        map[string][]byte // overlay path -> text
}

// Drop is a contract (or helper) that no longer fits the code.
type Drop struct {
	Name   string   `json:"name"`
	File   string   `json:"file"`
	Props  []string `json:"props"`
	Reason string   `json:"reason"`
}

func (w *World) isVerifFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return w.verifFns[fn]
}

// LoadWorld loads the packages of src with the contract files overlaid. A
// contract function that does not compile against the current source is
// blanked and reported; the rest is kept.
func LoadWorld(src, contracts string, patterns []string) (*World, error) {
	w := &World{boxTag: map[string]int{}, boxType: map[string]types.Type{}, contracts: map[*ssa.Function]*Contract{}, trusted: map[string]*Contract{}, ifaceContracts: map[string]*Contract{}, opaque: map[string]bool{}, specFns: map[*ssa.Function]*ssa.Function{}, typeInvs: map[string]*ssa.Function{}, poolInvs: map[string]*ssa.Function{}, verifFiles: map[string]bool{}, verifFns: map[*ssa.Function]bool{}, implCache: map[string][]types.Type{}, mutGlob: map[string]bool{}}
	overlay := map[string][]byte{}
	api, err := os.ReadFile(filepath.Join(contracts, "api.go.txt"))
	if err != nil {
		return nil, err
	}
	files := map[string]string{} // overlay path -> contract file
	for _, p := range patterns {
		dir := strings.TrimPrefix(p, "./")
		ms, _ := filepath.Glob(filepath.Join(contracts, dir, "*.go"))
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				return nil, err
			}
			o := filepath.Join(src, dir, "zz_"+strings.TrimSuffix(filepath.Base(m), ".go")+"_verif.go")
			overlay[o] = b
			files[o] = m
			w.verifFiles[o] = true
		}
		pk := filepath.Base(dir)
		o := filepath.Join(src, dir, "zz_api_verif.go")
		overlay[o] = []byte(strings.Replace(string(api), "package PKG", "package "+pk, 1))
		w.verifFiles[o] = true
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports, Dir: src, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod")}
	for round := 0; ; round++ {
		w.pkgs, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		w.errors = nil
		changed := false
		for _, p := range w.pkgs {
			for _, e := range p.Errors {
				f, line := e.Pos, 0
				if i := strings.Index(f, ":"); i >= 0 {
					fmt.Sscanf(f[i+1:], "%d", &line)
					f = f[:i]
				}
				if c, ok := files[f]; ok && round < 40 {
					if t, d := blankDecl(overlay[f], line, e.Msg); t != nil {
						overlay[f] = t
						if d.Name != "" {
							d.File, d.Reason = c, e.Msg+" at "+e.Pos
							w.dropped = append(w.dropped, d)
						}
						changed = true
						continue
					}
				}
				w.errors = append(w.errors, e.Pos+": "+e.Msg)
			}
		}
		if !changed {
			break
		}
	}
	if len(w.errors) > 0 {
		return w, fmt.Errorf("load errors: %s", strings.Join(w.errors, "; "))
	}
	w.sources = overlay
	var sp []*ssa.Package
	w.prog, sp = ssautil.Packages(w.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.spkgs = sp
	w.prog.Build()
	w.allFns = ssautil.AllFunctions(w.prog)
	w.collect(files)
	return w, nil
}

// blankDecl removes the declaration of text that covers line.
func blankDecl(text []byte, line int, msg string) ([]byte, Drop) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", text, parser.ParseComments)
	if err != nil {
		return nil, Drop{}
	}
	out := append([]byte{}, text...)
	if strings.Contains(msg, "imported and not used") {
		for _, im := range f.Imports {
			if fs.Position(im.Pos()).Line == line {
				at := fs.Position(im.Path.Pos()).Offset
				return []byte(string(out[:at]) + "_ " + string(out[at:])), Drop{}
			}
		}
		return nil, Drop{}
	}
	props := []string{}
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//verif:property ") && cg.End() < f.Package {
				props = strings.Fields(c.Text)[1:]
			}
		}
	}
	for _, d := range f.Decls {
		from, to := d.Pos(), d.End()
		name := "declaration"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
			if fd.Doc != nil {
				from = fd.Doc.Pos()
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:for ") {
						props = strings.Fields(c.Text)[1:]
					}
				}
			}
		}
		if fs.Position(d.Pos()).Line <= line && line <= fs.Position(d.End()).Line {
			for i := fs.Position(from).Offset; i < fs.Position(to).Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
			return out, Drop{Name: name, Props: props}
		}
	}
	return nil, Drop{}
}

// Emit writes the contract files in use, a registry of the executable
// contracts and an overlay map to dir.
func (w *World) Emit(dir, contracts string) error {
	repl := map[string]string{}
	put := func(o string, b []byte) error {
		f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(o, "/"), "/", "__"))
		repl[o] = f
		return os.WriteFile(f, b, 0644)
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	dirs := map[string]string{}
	for o, b := range w.sources {
		if err := put(o, b); err != nil {
			return err
		}
		dirs[filepath.Dir(o)] = ""
	}
	drv, err := os.ReadFile(filepath.Join(contracts, "replay.go.txt"))
	if err != nil {
		return err
	}
	for pi, p := range w.pkgs {
		var d string
		for _, f := range p.CompiledGoFiles {
			if _, ok := dirs[filepath.Dir(f)]; ok {
				d = filepath.Dir(f)
			}
		}
		if d == "" {
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nvar verifRegistry = map[string]any{\n", p.Name)
		for _, c := range w.all {
			if c.body.Pkg != w.spkgs[pi] || c.trusted || c.noReplay {
				continue
			}
			fmt.Fprintf(&sb, "\t%q: %s,\n", c.name, c.name)
		}
		sb.WriteString("}\n")
		if err := put(filepath.Join(d, "zz_registry_verif_test.go"), []byte(sb.String())); err != nil {
			return err
		}
		if err := put(filepath.Join(d, "zz_replay_verif_test.go"), []byte(strings.Replace(string(drv), "package PKG", "package "+p.Name, 1))); err != nil {
			return err
		}
		rel, _ := filepath.Glob(filepath.Join(contracts, "*", "gen.go.txt"))
		for _, g := range rel {
			if filepath.Base(filepath.Dir(g)) == filepath.Base(d) {
				b, err := os.ReadFile(g)
				if err != nil {
					return err
				}
				if err := put(filepath.Join(d, "zz_gen_verif_test.go"), b); err != nil {
					return err
				}
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644)
}

func (w *World) collect(files map[string]string) {
	// concrete types
	seen := map[string]bool{}
	addT := func(t types.Type) {
		if isIfaceT(t) {
			return
		}
		if containsTypeParam(t) {
			return
		}
		k := tstr(t)
		if seen[k] {
			return
		}
		seen[k] = true
		w.concrete = append(w.concrete, t)
	}
	var fns []*ssa.Function
	for fn := range w.allFns {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].String() != fns[j].String() {
			return fns[i].String() < fns[j].String()
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	for _, p := range w.spkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if !isIfaceT(t.Type()) {
					addT(t.Type())
					addT(types.NewPointer(t.Type()))
				}
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MakeInterface:
					addT(i.X.Type())
				case *ssa.TypeAssert:
					addT(i.AssertedType)
				case *ssa.Store:
					if g := globOf(i.Addr); g != nil && !(fn.Name() == "init" && fn.Synthetic != "") {
						w.mutGlob["G:"+g.String()] = true
					}
				default:
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							switch in.(type) {
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
							default:
								if !(fn.Name() == "init" && fn.Synthetic != "") {
									w.mutGlob["G:"+g.String()] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for _, t := range w.concrete {
		func() {
			defer func() { recover() }()
			leavesOf(t, "", 0)
			n := "box#" + tstr(t)
			w.boxTag[n] = len(w.boxTag) + 1
			w.boxType[n] = t
			w.boxOrder = append(w.boxOrder, n)
		}()
	}
	// directives
	for pi, p := range w.pkgs {
		sp := w.spkgs[pi]
		for fi, f := range p.Syntax {
			name := p.CompiledGoFiles[fi]
			if !w.verifFiles[name] {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//verif:volatile ") {
						for _, n := range strings.Fields(c.Text)[1:] {
							w.volatile = append(w.volatile, "O:"+n+":")
						}
					}
					if strings.HasPrefix(c.Text, "//verif:opaque ") {
						for _, n := range strings.Fields(c.Text)[1:] {
							w.opaque[n] = true
						}
					}
				}
			}
			fileProps := []string{}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//verif:property ") && cg.End() < f.Package {
						fileProps = strings.Fields(c.Text)[1:]
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
				sf := w.prog.FuncValue(obj)
				if sf == nil {
					continue
				}
				w.verifFns[sf] = true
				if fd.Doc == nil {
					continue
				}
				ct := &Contract{name: fd.Name.Name, body: sf, props: fileProps, file: files[name]}
				isC := false
				for _, c := range fd.Doc.List {
					fs := strings.Fields(strings.TrimPrefix(c.Text, "//"))
					if len(fs) == 0 {
						continue
					}
					switch fs[0] {
					case "verif:contract":
						isC = true
						ct.targetStr = fs[1]
						ct.fn = w.lookup(sp, fs[1])

					case "verif:trusted":
						isC = true
						ct.trusted = true
						ct.targetStr = fs[1]
					case "verif:iface":
						isC = true
						ct.iface = true
						ct.trusted = true
						ct.targetStr = fs[1]
						if len(fs) > 2 && fs[2] == "opaque-only" {
							ct.closed = true
						}
					case "verif:lemma":
						isC = true
						ct.lemma = true
						ct.fn = sf
						ct.targetStr = fd.Name.Name
					case "verif:pure":
						ct.pure = true
					case "verif:abstract":
						for _, n := range fs[1:] {
							if ct.abstract == nil {
								ct.abstract = map[string]bool{}
							}
							ct.abstract[n] = true
						}
					case "verif:inline":
						ct.inline = true
					case "verif:lean":
						ct.lean = true
					case "verif:use":
						ct.uses = append(ct.uses, fs[1:]...)
					case "verif:unroll":
						ct.unroll, _ = strconv.Atoi(fs[1])
					case "verif:terminates":
						ct.terminates = true
					case "verif:noreplay":
						ct.noReplay = true
					case "verif:auto":
						ct.auto = true
					case "verif:purefuncs":
						ct.pureFuncs = true
					case "verif:for":
						ct.props = fs[1:]
					case "verif:typeinv":
						w.typeInvs[tstr(sf.Params[0].Type())] = sf
					case "verif:poolinv":
						w.poolInvs[fs[1]] = sf
					case "verif:spec":
						w.specFns[sf] = sf
					case "verif:inv", "verif:variant":
						w.invs = append(w.invs, &InvTemplate{fn: sf, targets: fs[1:], variant: fs[0] == "verif:variant"})
					}
				}
				if isC && !ct.trusted && !ct.lemma && ct.fn == nil {
					w.dropped = append(w.dropped, Drop{Name: ct.name, File: ct.file, Props: ct.props, Reason: "contract target " + ct.targetStr + " not found"})
					isC = false
				}
				if isC {
					w.all = append(w.all, ct)
					if w.byName == nil {
						w.byName = map[string]*Contract{}
					}
					w.byName[ct.name] = ct
					switch {
					case ct.iface:
						w.ifaceContracts[ct.targetStr] = ct
					case ct.trusted:
						w.trusted[ct.targetStr] = ct
					case ct.fn != nil:
						if w.contracts[ct.fn] == nil && ct.fn.Parent() == nil && !ct.inline {
							w.contracts[ct.fn] = ct
						}
					}
				}
			}
		}
	}
	sort.SliceStable(w.all, func(i, j int) bool { return w.all[i].name < w.all[j].name })
}

func containsTypeParam(t types.Type) bool {
	return strings.Contains(fmt.Sprintf("%T", t), "TypeParam") || hasTP(t, 0)
}
func hasTP(t types.Type, d int) bool {
	if d > 5 {
		return false
	}
	switch u := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTP(u.Elem(), d+1)
	case *types.Slice:
		return hasTP(u.Elem(), d+1)
	case *types.Map:
		return hasTP(u.Elem(), d+1) || hasTP(u.Key(), d+1)
	case *types.Named:
		for i := 0; i < u.TypeArgs().Len(); i++ {
			if hasTP(u.TypeArgs().At(i), d+1) {
				return true
			}
		}
		return u.TypeParams().Len() > 0 && u.TypeArgs().Len() == 0
	case *types.Signature:
		for i := 0; i < u.Params().Len(); i++ {
			if hasTP(u.Params().At(i).Type(), d+1) {
				return true
			}
		}
		for i := 0; i < u.Results().Len(); i++ {
			if hasTP(u.Results().At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func globOf(v ssa.Value) *ssa.Global {
	switch w := v.(type) {
	case *ssa.Global:
		return w
	case *ssa.FieldAddr:
		return globOf(w.X)
	case *ssa.IndexAddr:
		return globOf(w.X)
	}
	return nil
}

func (w *World) immutableGlobal(key string) bool {
	// key "G:<pkg.name>:<leaf>"
	for g := range w.mutGlob {
		if strings.HasPrefix(key, g+":") {
			return false
		}
	}
	return true
}

// lookup resolves "Func", "Type.Method", "Func$1" in package p.
func (w *World) lookup(p *ssa.Package, s string) *ssa.Function {
	anon := ""
	if i := strings.Index(s, "$"); i >= 0 {
		anon = s[i+1:]
		s = s[:i]
	}
	var fn *ssa.Function
	if i := strings.Index(s, "."); i >= 0 {
		t, ok := p.Members[s[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := w.prog.MethodSets.MethodSet(tt)
			sel := ms.Lookup(p.Pkg, s[i+1:])
			if sel != nil {
				f := w.prog.FuncValue(sel.Obj().(*types.Func))
				if f != nil {
					fn = f
					break
				}
			}
		}
	} else {
		fn = p.Func(s)
	}
	if fn != nil && anon != "" {
		for _, n := range strings.Split(anon, "$") {
			var found *ssa.Function
			for _, a := range fn.AnonFuncs {
				if strings.HasSuffix(a.Name(), "$"+n) {
					found = a
				}
			}
			if found == nil {
				return nil
			}
			fn = found
		}
	}
	return fn
}

func (w *World) implementers(it *types.Interface) []types.Type {
	k := it.String()
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.implCache[k]; ok {
		return r
	}
	var r []types.Type
	for _, n := range w.boxOrder {
		t := w.boxType[n]
		if types.Implements(t, it) {
			// a pointer to a type whose value also implements is rarely boxed; keep both only if boxed as such
			if p, ok := t.(*types.Pointer); ok && types.Implements(p.Elem(), it) && !w.boxedSomewhere(t) {
				continue
			}
			if !w.boxedSomewhere(t) && isVerifType(t) {
				continue
			}
			r = append(r, t)
		}
	}
	w.implCache[k] = r
	return r
}

func isVerifType(t types.Type) bool { return false }

var boxedCache map[string]bool

func (w *World) boxedSomewhere(t types.Type) bool {
	if boxedCache == nil {
		boxedCache = map[string]bool{}
		for fn := range w.allFns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.MakeInterface:
						boxedCache[tstr(i.X.Type())] = true
					case *ssa.TypeAssert:
						boxedCache[tstr(i.AssertedType)] = true
					}
				}
			}
		}
	}
	return boxedCache[tstr(t)]
}

// isVolatile: caches that any function may fill; never part of a frame.
func (w *World) isVolatile(k string) bool {
	for _, v := range w.volatile {
		if strings.HasPrefix(k, v) {
			return true
		}
	}
	return false
}

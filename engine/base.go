package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Base is the program and its post-initialisation heap, shared read-only by all workers.
type Base struct {
	prog               *ssa.Program
	pkgs               []*packages.Package
	globals            map[*ssa.Global]int
	baseHeap           ptree
	baseNext           int
	models             map[string]*ssa.Function // intercepted function name -> model
	harness            map[string]*ssa.Function
	rtErrType          types.Type
	repoPath           string
	notes              []string
	rtypeT             types.Type // *reflect.rtype
	byName             map[string]types.Type
	loadTime, initTime time.Duration
}

func (b *Base) isRepoPkg(p string) bool {
	return p == b.repoPath || strings.HasPrefix(p, b.repoPath+"/")
}

func (b *Base) globalObj(g *ssa.Global) int {
	id, ok := b.globals[g]
	if !ok {
		panic("unknown global " + g.String())
	}
	return id
}

// stubModule lets a harness package replace a third-party module by stand-ins: h/cNN/stub/<package>.go.txt (root.go.txt
// for the package at the root) become the packages of the module named in h/cNN/stub/module.txt. It returns a go.mod file to build with, and its cleanup.
func stubModule(dir string, patterns []string) (string, func(), error) {
	nop := func() {}
	stub := filepath.Join(dir, strings.TrimPrefix(patterns[0], "verifh/"), "stub")
	mod, err := os.ReadFile(filepath.Join(stub, "module.txt"))
	if err != nil {
		return "", nop, nil
	}
	name := strings.TrimSpace(string(mod))
	stubbedMod = name
	tmp, err := os.MkdirTemp("", "symgostub")
	if err != nil {
		return "", nop, err
	}
	clean := func() { os.RemoveAll(tmp) }
	put := func(f string, data []byte) {
		if err == nil {
			os.MkdirAll(filepath.Dir(filepath.Join(tmp, f)), 0o755)
			err = os.WriteFile(filepath.Join(tmp, f), data, 0o644)
		}
	}
	files, _ := filepath.Glob(filepath.Join(stub, "*.go.txt"))
	for _, f := range files {
		data, e := os.ReadFile(f)
		if e != nil {
			return "", clean, e
		}
		p := strings.TrimSuffix(filepath.Base(f), ".go.txt")
		if p == "root" {
			put("stub/root.go", data)
			continue
		}
		put("stub/"+p+"/"+p+".go", data)
	}
	put("stub/go.mod", []byte("module "+name+"\n\ngo 1.15\n"))
	gm, e := os.ReadFile(filepath.Join(dir, "go.mod"))
	if e != nil {
		return "", clean, e
	}
	put("go.mod", append(gm, []byte("\nreplace "+name+" => "+filepath.Join(tmp, "stub")+"\n")...))
	gs, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
	put("go.sum", gs)
	return filepath.Join(tmp, "go.mod"), clean, err
}

func loadBase(dir string, patterns []string, env []string) (*Base, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  env,
	}
	mf, clean, err := stubModule(dir, patterns)
	defer clean()
	if err != nil {
		return nil, err
	}
	if mf != "" {
		cfg.BuildFlags = []string{"-modfile=" + mf}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 && mf != "" {
		// the code calls something the stand-ins lack: explore with the real module, as far as that goes
		fmt.Fprintln(os.Stderr, "stand-ins not usable:", errs[0])
		stubbedMod = ""
		errs = nil
		cfg.BuildFlags = nil
		if pkgs, err = packages.Load(cfg, patterns...); err != nil {
			return nil, err
		}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		})
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	b := &Base{prog: prog, pkgs: pkgs, globals: map[*ssa.Global]int{}, models: map[string]*ssa.Function{}, harness: map[string]*ssa.Function{}, repoPath: "github.com/qri-io/dataset", byName: map[string]types.Type{}}
	b.loadTime = time.Since(t0)
	t1 := time.Now()
	e := b.newEngine()
	e.nextObj = 0
	s := &State{e: e, tok: &owner{}}
	for _, p := range prog.AllPackages() {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				el := g.Type().Underlying().(*types.Pointer).Elem()
				b.globals[g] = s.newObj(layoutOf(el), 1)
			}
		}
	}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path == "verifh/model" {
			for n, m := range p.Members {
				if fn, ok := m.(*ssa.Function); ok {
					if doc, ok := modelTargets[n]; ok {
						for _, d := range doc {
							b.models[d] = fn
						}
					}
				}
				if t, ok := m.(*ssa.Type); ok && n == "RuntimeError" {
					b.rtErrType = canon(t.Type())
				}
			}
		}
		if strings.HasPrefix(path, "verifh/h") {
			for n, m := range p.Members {
				if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") {
					b.harness[n] = fn
				}
			}
		}
		if path == "reflect" {
			if t := p.Type("rtype"); t != nil {
				b.rtypeT = canon(types.NewPointer(t.Type()))
			}
		}
	}
	for n := range modelTargets {
		found := false
		for _, d := range modelTargets[n] {
			if b.models[d] != nil {
				found = true
			}
		}
		if !found {
			b.notes = append(b.notes, "model missing: "+n)
		}
	}
	// package initialisation
	b.poisonUninit(s)
	e.initMode = true
	e.maxSteps = 200_000_000
	// the models' own package first: initialisers may run modelled functions
	var inits []*ssa.Package
	for _, sp := range prog.AllPackages() {
		if sp.Pkg.Path() == "verifh/model" {
			inits = append(inits, sp)
		}
	}
	for _, p := range pkgs {
		if sp := prog.Package(p.Types); sp != nil {
			inits = append(inits, sp)
		}
	}
	for _, sp := range inits {
		fn := sp.Func("init")
		s.gs = []*G{{tok: s.tok}}
		s.cur = 0
		s.dead = false
		e.pushCall(s, fn, nil, nil, -1)
		var fl []*State
		e.forks = &fl
		for !s.dead {
			e.slice(s, nil)
		}
		if len(fl) > 0 {
			return nil, fmt.Errorf("init forked")
		}
	}
	b.notes = append(b.notes, e.initNotes...)
	// prepare map indexes so that sharing is read-only
	for id := 1; id <= e.nextObj; id++ {
		if o, ok := s.heap.get(id).(*Obj); ok {
			if d, ok := o.ext.(*MapData); ok {
				d.reindex()
			}
		}
	}
	b.baseHeap = s.heap
	b.baseNext = e.nextObj
	b.initTime = time.Since(t1)
	if os.Getenv("SYM_INIT") != "" {
		for _, n := range b.notes {
			fmt.Fprintln(os.Stderr, "init:", n)
		}
		fmt.Fprintln(os.Stderr, "init instrs", e.stats.Instrs, "objs", e.nextObj, "load", b.loadTime, "init", b.initTime)
	}
	return b, nil
}

func (b *Base) newEngine() *Engine {
	e := &Engine{Base: b, ts: newTermStore(), varCache: map[int32][]int32{}, nextObj: b.baseNext,
		implCache: map[[2]interface{}]bool{}, methCache: map[[2]interface{}]*ssa.Function{}, intrCache: map[*ssa.Function]Intr{},
		maxSteps: 3_000_000, regionBudget: 200000,
		sharedSites: map[ssa.Value]bool{}, gAccess: map[int]int{}, objSite: map[int]ssa.Value{}}
	e.stats.Reach = map[string]int{}
	e.stats.Inconclusive = map[string]int{}
	e.stats.Funcs = map[string]bool{}
	e.sol = newSolver(e.ts, 20000)
	return e
}

// poisonUninit marks the variables that skipped initialisers would have set, so that code
// depending on them is reported as not decided.
func (b *Base) poisonUninit(s *State) {
	for _, p := range b.prog.AllPackages() {
		path := p.Pkg.Path()
		if !hasPkgPrefix(path, skipInit) || hasPkgPrefix(path, stubPrefixes) || zeroInitOK[path] {
			continue
		}
		for n, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || n != "init" && !strings.HasPrefix(n, "init#") {
				continue
			}
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					a := st.Addr
					for {
						if f, ok := a.(*ssa.FieldAddr); ok {
							a = f.X
						} else if f, ok := a.(*ssa.IndexAddr); ok {
							a = f.X
						} else {
							break
						}
					}
					g, ok := a.(*ssa.Global)
					if !ok || g.Pkg != p || strings.HasPrefix(g.Name(), "init$") {
						continue
					}
					o := s.wobj(b.globalObj(g))
					for i := 0; i < o.n; i++ {
						s.setCell(o, i, &Poison{"variable " + g.String() + " of an uninitialised package"})
					}
				}
			}
		}
	}
}

// packages whose skipped initialiser does not matter to what the engine executes of them
var zeroInitOK = map[string]bool{}

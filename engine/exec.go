package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	msg string
	val Value // Iface, when user value
	rt  bool  // runtime error
}
type killPath struct{ why string }
type blockG struct{}    // current instruction must be retried when the goroutine is rescheduled
type callModel struct { // tail-call another interpreted function in place of the intrinsic
	fn   *ssa.Function
	args []Value
}
type endPath struct{}

type Engine struct {
	*Base
	ts                        *TermStore
	sol                       *Solver
	nextObj                   int
	forks                     *[]*State
	varCache                  map[int32][]int32
	qcache                    map[string]*qres
	ufcache                   map[string]*Term
	lastQ                     int
	mark                      []int32
	markGen                   int32
	job                       *Job
	deadline                  time.Time
	stats                     Stats
	initMode                  bool
	curHarness                string
	verbose                   bool
	typeIDs                   map[types.Type]int
	regionStates              int
	sharedSites               map[ssa.Value]bool
	gAccess                   map[int]int // obj -> goroutine last accessing (sched mode discovery)
	objSite                   map[int]ssa.Value
	newShared                 bool
	maxSteps                  int
	hasUnions                 bool
	regionDepth, regionBudget int
	initNotes                 []string
	implCache                 map[[2]interface{}]bool
	methCache                 map[[2]interface{}]*ssa.Function
	intrCache                 map[*ssa.Function]Intr
	nvar                      int
	runner                    *Runner
	caseAbort                 bool
}

type Stats struct {
	Paths, PathsInconclusive, PathsInfeasible int
	Forks, Merges, Instrs                     int
	FastDecides, Audited, CacheHits           int
	AssertChecks, AssertTrivial               int
	Reach                                     map[string]int
	Inconclusive                              map[string]int
	Funcs                                     map[string]bool
	Timeout                                   bool
}

type Stop struct {
	gi     int // goroutine
	depth  int
	blk    int // -1: stop when stack depth < depth (returned)
	budget *int
}

func (e *Engine) modelOf(s *State) *Model {
	if s.model == nil {
		r, m := e.sol.Check(s.pc, nil, true)
		if r == Sat {
			s.model = m
		} else if r == Unsat {
			panic(killPath{"infeasible"})
		} else {
			panic(unsup("solver unknown (model)"))
		}
	}
	return s.model
}

func (e *Engine) decide(s *State, v Value) bool {
	switch x := v.(type) {
	case K:
		return x != 0
	case *Term:
		return e.decideT(s, x)
	}
	if isPoison(v) {
		panic(unsup("branch on unmodelled value: " + v.(*Poison).why))
	}
	panic(unsup(fmt.Sprintf("decide on %T", v)))
}

// feasible classifies t under the path condition: (canTrue, canFalse) and models.
func (e *Engine) feasible(s *State, t *Term) (ct, cf bool, mt, mf *Model) {
	if tt := e.ts.truthTable(t); tt != nil {
		d := s.domain(t.uv)
		yes := ttAnd(&d.tt, tt)
		no := ttAndNot(&d.tt, tt)
		if ttEmpty(&yes) {
			e.stats.FastDecides++
			e.audit(s, t, false, true)
			return false, true, nil, s.model
		}
		if ttEmpty(&no) {
			e.stats.FastDecides++
			e.audit(s, t, true, false)
			return true, false, s.model, nil
		}
		if !d.tang && s.model != nil {
			e.stats.FastDecides++
			e.audit(s, t, true, true)
			cur := s.model.get(int(t.uv))
			mt, mf = s.model, s.model
			if yes[cur>>6]>>(cur&63)&1 == 1 {
				mf = s.model.with(int(t.uv), ttFirst(&no))
			} else {
				mt = s.model.with(int(t.uv), ttFirst(&yes))
			}
			return true, true, mt, mf
		}
	}
	m := e.modelOf(s)
	if m.eval(t) == 1 {
		ct, mt = true, m
		r, m2 := e.query(s, e.ts.Not(t))
		if r != Unsat {
			cf, mf = true, m2
		}
	} else {
		cf, mf = true, m
		r, m2 := e.query(s, t)
		if r != Unsat {
			ct, mt = true, m2
		}
	}
	return
}

type qres struct {
	r    Res
	vars []int32
	vals []uint64
}

// slice returns the constraints of the path condition that are connected to t through
// shared variables.
func (e *Engine) pcSlice(s *State, t *Term) []*Term {
	n := len(e.ts.vars) + 1
	if len(e.mark) < n {
		e.mark = make([]int32, n*2)
		e.markGen = 0
	}
	e.markGen++
	g := e.markGen
	for _, v := range e.varsOf(t) {
		e.mark[v] = g
	}
	in := make([]bool, len(s.pc))
	cnt := 0
	for changed := true; changed; {
		changed = false
		for i, c := range s.pc {
			if in[i] {
				continue
			}
			vs := e.varsOf(c)
			hit := len(vs) == 0
			for _, v := range vs {
				if e.mark[v] == g {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			in[i] = true
			cnt++
			for _, v := range vs {
				if e.mark[v] != g {
					e.mark[v] = g
					changed = true
				}
			}
		}
	}
	out := make([]*Term, 0, cnt)
	for i, c := range s.pc {
		if in[i] {
			out = append(out, c)
		}
	}
	return out
}

// query decides pc ∧ t. The path condition is satisfiable (s.model is a witness), so only
// the part connected to t needs solving; the rest keeps its values.
func (e *Engine) query(s *State, t *Term) (Res, *Model) {
	if s.model == nil {
		return e.sol.Check(s.pc, t, true)
	}
	sl := e.pcSlice(s, t)
	kb := make([]byte, 0, 4*len(sl)+4)
	for _, c := range append(sl, t) {
		kb = append(kb, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	if e.qcache == nil {
		e.qcache = map[string]*qres{}
	}
	q := e.qcache[string(kb)]
	if q == nil {
		r, m := e.sol.Check(sl, t, true)
		q = &qres{r: r}
		if r == Sat {
			seen := map[int32]bool{}
			for _, c := range append(sl, t) {
				for _, v := range e.varsOf(c) {
					if !seen[v] {
						seen[v] = true
						q.vars = append(q.vars, v)
						q.vals = append(q.vals, m.get(int(v)))
					}
				}
			}
		}
		if r != Unknown && len(e.qcache) < 2000000 {
			e.qcache[string(kb)] = q
		}
	} else {
		e.stats.CacheHits++
	}
	if q.r != Sat {
		return q.r, nil
	}
	n := len(s.model.vals)
	for _, v := range q.vars {
		if int(v) >= n {
			n = int(v) + 1
		}
	}
	nv := make([]uint64, n)
	copy(nv, s.model.vals)
	for i, v := range q.vars {
		nv[v] = q.vals[i]
	}
	return Sat, &Model{vals: nv}
}

// audit cross-checks decisions of the byte-domain procedure with the solver (the first of
// each job and a thinning sample after that).
func (e *Engine) audit(s *State, t *Term, ct, cf bool) {
	n := e.stats.FastDecides
	if !(n <= 24 || n&(n-1) == 0 || n%997 == 0) || e.initMode {
		return
	}
	a, _ := e.sol.Check(s.pc, t, false)
	b, _ := e.sol.Check(s.pc, e.ts.Not(t), false)
	e.stats.Audited += 2
	if a == Unsat && ct || a == Sat && !ct || b == Unsat && cf || b == Sat && !cf {
		panic(unsup("domain procedure disagrees with the solver"))
	}
}

func (e *Engine) decideT(s *State, t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	if t.op == OpNot {
		return !e.decideT(s, t.a)
	}
	if b, ok := s.known.get(int(t.id)).(bool); ok {
		return b
	}
	ct, cf, mt, mf := e.feasible(s, t)
	if ct && !cf {
		s.learn(t, true)
		return true
	}
	if cf && !ct {
		s.learn(t, false)
		return false
	}
	if !ct && !cf {
		panic(killPath{"infeasible"})
	}
	e.stats.Forks++
	s2 := s.fork()
	nt := e.ts.Not(t)
	s2.assume(nt)
	s2.model = mf
	s.assume(t)
	s.model = mt
	*e.forks = append(*e.forks, s2)
	return true
}

// ---- run loop ----

func (e *Engine) reachedStop(s *State, st *Stop) bool {
	if s.cur != st.gi {
		return false
	}
	n := len(s.g().frames)
	if n < st.depth {
		return true
	}
	if st.blk >= 0 && n == st.depth {
		f := s.g().frames[n-1]
		return f.blk == st.blk && f.pc == f.fi.blocks[f.blk].nphi
	}
	return false
}

// run explores start and everything forked from it until each state stops or ends.
func (e *Engine) run(start *State, st *Stop) (out []*State) {
	saved := e.forks
	local := []*State{start}
	defer func() { e.forks = saved }()
	for len(local) > 0 {
		s := local[len(local)-1]
		local = local[:len(local)-1]
		e.forks = &local
		for !s.dead {
			if st != nil {
				if e.reachedStop(s, st) {
					out = append(out, s)
					break
				}
				if *st.budget <= 0 {
					// region too large: hand everything back unmerged
					out = append(out, s)
					out = append(out, local...)
					return
				}
			}
			if e.job != nil && (e.stats.Instrs&1023 == 0 || e.sol.Queries != e.lastQ) && (e.runner != nil && e.runner.stop.Load() || time.Now().After(e.deadline)) {
				e.stats.Timeout = true
				e.endState(s, "job time limit")
				for _, x := range local {
					e.endState(x, "job time limit")
				}
				return
			}
			e.lastQ = e.sol.Queries
			before := e.stats.Instrs
			cont := e.slice(s, st)
			if st != nil {
				*st.budget -= e.stats.Instrs - before + 1
			}
			if !cont {
				break
			}
		}
	}
	return
}

func (e *Engine) endState(s *State, inconclusive string) {
	if s.dead {
		return
	}
	s.dead = true
	if inconclusive != "" {
		e.stats.PathsInconclusive++
		e.stats.Inconclusive[inconclusive]++
	}
}

var debugPanics = os.Getenv("SYM_PANIC") != ""

// slice executes s until a block transition/call/return/fork boundary, handling engine panics.
func (e *Engine) slice(s *State, st *Stop) (cont bool) {
	cont = true
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case goPanic:
			if debugPanics {
				fmt.Fprintf(os.Stderr, "panic %s\n", x.msg)
				for i := len(s.wg().frames) - 1; i >= 0; i-- {
					f := s.wg().frames[i]
					fmt.Fprintf(os.Stderr, "  %s blk %d pc %d\n", f.fi.fn, f.blk, f.pc)
				}
				fmt.Fprintln(os.Stderr, e.where(s))
			}
			e.raise(s, x)
		case killPath:
			e.stats.PathsInfeasible++
			s.dead = true
		case takeOver:
			cont = false
		case endPath:
			e.stats.Paths++
			e.onPathEnd(s)
			s.dead = true
		case blockG:
			e.block(s)
		case unsupported:
			e.unsupportedAt(s, x.why)
		case callModel:
			e.handle(s, func() {
				f := s.top()
				ci := &f.fi.blocks[f.blk].ins[f.pc]
				f.pc++
				e.pushCall(s, x.fn, x.args, nil, ci.dst)
			})
		default:
			if os.Getenv("SYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s\n", r, e.where(s), debug.Stack())
			}
			e.unsupportedAt(s, fmt.Sprintf("engine: %v", r))
		}
	}()
	e.exec(s, st)
	return
}

func (e *Engine) handle(s *State, f func()) {
	defer func() {
		if r := recover(); r != nil {
			e.unsupportedAt(s, fmt.Sprintf("engine: %v", r))
		}
	}()
	f()
}

func (e *Engine) where(s *State) string {
	var sb strings.Builder
	g := s.g()
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-12; i-- {
		f := g.frames[i]
		pos := ""
		if f.blk < len(f.fi.blocks) && f.pc < len(f.fi.blocks[f.blk].ins) {
			in := f.fi.blocks[f.blk].ins[f.pc].in
			pos = e.prog.Fset.Position(in.Pos()).String() + " " + in.String()
		}
		fmt.Fprintf(&sb, "  %s  %s\n", f.fi.name, pos)
	}
	return sb.String()
}

func (e *Engine) unsupportedAt(s *State, why string) {
	if e.initMode {
		// tolerate: unwind to the package initialiser and poison the result
		g := s.wg()
		popped := 0
		for len(g.frames) > 0 {
			f := g.frames[len(g.frames)-1]
			if f.fi.fn.Synthetic == "package initializer" {
				break
			}
			g.frames = g.frames[:len(g.frames)-1]
			popped++
		}
		if len(g.frames) == 0 {
			s.dead = true
			return
		}
		f := s.top()
		f.pan = nil
		ins := f.fi.blocks[f.blk].ins
		ci := &ins[f.pc]
		if popped > 0 {
			ci = &ins[f.pc-1]
		} else {
			f.pc++
		}
		if ci.dst >= 0 {
			if tp, ok := ci.t.(*types.Tuple); ok {
				tu := make(Tuple, tp.Len())
				for i := range tu {
					tu[i] = &Poison{why}
				}
				f.env[ci.dst] = tu
			} else {
				f.env[ci.dst] = &Poison{why}
			}
		}
		e.initNotes = append(e.initNotes, f.fi.name+" "+e.prog.Fset.Position(ci.in.Pos()).String()+": "+why)
		return
	}
	loc := ""
	if n := len(s.g().frames); n > 0 {
		f := s.g().frames[n-1]
		loc = f.fi.name
		if f.pc < len(f.fi.blocks[f.blk].ins) {
			in := f.fi.blocks[f.blk].ins[f.pc].in
			loc += " " + e.prog.Fset.Position(in.Pos()).String()
		}
	}
	if e.verbose {
		fmt.Fprintf(os.Stderr, "[inconclusive] %s\n%s", why, e.where(s))
	}
	e.stuck(s, why)
	e.endState(s, why+" @ "+loc)
}

func (f *Frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return f.env[o.reg]
	}
	return o.val
}

// exec runs instructions of the current goroutine until control leaves the current block list.
func (e *Engine) exec(s *State, st *Stop) {
	if s.g().status != gRun {
		e.schedule(s)
		return
	}
	f := s.top()
	gi := s.cur
	nfr := len(s.g().frames)
	for {
		if s.tok != f.tok {
			// forked during last instruction
			f = s.top()
		}
		cb := &f.fi.blocks[f.blk]
		ci := &cb.ins[f.pc]
		e.stats.Instrs++
		s.steps++
		if s.steps > e.maxSteps {
			e.budgetExceeded(s)
			return
		}
		switch in := ci.in.(type) {
		case *ssa.Jump:
			e.jump(s, f, cb.b.Succs[0].Index)
			if st != nil {
				return
			}
			continue
		case *ssa.If:
			c := f.get(&ci.ops[0])
			if k, ok := c.(K); ok {
				if k != 0 {
					e.jump(s, f, cb.b.Succs[0].Index)
				} else {
					e.jump(s, f, cb.b.Succs[1].Index)
				}
				if st != nil {
					return
				}
				continue
			}
			e.branch(s, f, cb, c)
			return
		case *ssa.BinOp:
			x, y := f.get(&ci.ops[0]), f.get(&ci.ops[1])
			if _, ok := x.(*Union); ok && !(in.Op == token.EQL || in.Op == token.NEQ) {
				x = e.split(s, f, &ci.ops[0])
				f = s.top()
			}
			if _, ok := y.(*Union); ok && !(in.Op == token.EQL || in.Op == token.NEQ) {
				y = e.split(s, f, &ci.ops[1])
				f = s.top()
			}
			r := e.binop(s, in.Op, in.X.Type(), in.Y.Type(), x, y)
			f = s.top()
			f.env[ci.dst] = r
			f.pc++
			continue
		case *ssa.Phi:
			panic(unsup("phi reached"))
		}
		if e.hasUnions {
			for i := range ci.ops {
				o := &ci.ops[i]
				if o.reg < 0 {
					continue
				}
				if _, ok := f.env[o.reg].(*Union); ok && !unionOK(ci, i) {
					e.split(s, f, o)
					f = s.top()
				}
			}
		}
		if !e.step(s, f, cb, ci) {
			return
		}
		if s.cur != gi || len(s.g().frames) != nfr {
			return
		}
		f = s.top()
	}
}

func unionOK(ci *cins, i int) bool {
	switch ci.in.(type) {
	case *ssa.Store:
		return i == 1
	case *ssa.Return, *ssa.MakeClosure:
		return true
	case *ssa.MapUpdate:
		return i == 2
	case *ssa.ChangeType:
		return true
	}
	return false
}

// split forks on the alternatives of a union held in operand o and returns the chosen one.
func (e *Engine) split(s *State, f *Frame, o *opnd) Value {
	u := f.get(o).(*Union)
	for i, a := range u.alts {
		if i == len(u.alts)-1 || e.decide(s, val(a.g)) {
			if i == len(u.alts)-1 {
				if !e.decide(s, val(a.g)) {
					panic(killPath{"union"})
				}
			}
			nf := s.top()
			if o.reg >= 0 {
				nf.env[o.reg] = a.v
			}
			return a.v
		}
	}
	panic(killPath{"empty union"})
}

func (e *Engine) jump(s *State, f *Frame, to int) {
	from := f.fi.blocks[f.blk].b
	nb := &f.fi.blocks[to]
	if nb.nphi > 0 {
		pi := -1
		for k, p := range nb.b.Preds {
			if p == from {
				pi = k
				break
			}
		}
		// parallel assignment
		if nb.nphi == 1 {
			f.env[nb.ins[0].dst] = f.get(&nb.ins[0].ops[pi])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for k := 0; k < nb.nphi; k++ {
				t = append(t, f.get(&nb.ins[k].ops[pi]))
			}
			for k := 0; k < nb.nphi; k++ {
				f.env[nb.ins[k].dst] = t[k]
			}
		}
	}
	f.prev = f.blk
	f.blk = to
	f.pc = nb.nphi
}

// branch handles a conditional jump on a symbolic condition.
func (e *Engine) branch(s *State, f *Frame, cb *cblock, c Value) {
	t, ok := c.(*Term)
	if !ok {
		panic(unsup(fmt.Sprintf("if on %T", c)))
	}
	var b, decided bool
	base := t
	neg := false
	if t.op == OpNot {
		base = t.a
		neg = true
	}
	if kb, ok := s.known.get(int(base.id)).(bool); ok {
		b, decided = kb != neg, true
	} else {
		ct, cf, mt, mf := e.feasible(s, t)
		switch {
		case ct && !cf:
			s.learn(t, true)
			b, decided = true, true
		case cf && !ct:
			s.learn(t, false)
			b, decided = false, true
		case !ct && !cf:
			panic(killPath{"infeasible"})
		default:
			e.stats.Forks++
			preKnown, preDom, prePC := s.known, s.dom, len(s.pc)
			s2 := s.fork()
			s.assume(t)
			s.model = mt
			s2.assume(e.ts.Not(t))
			s2.model = mf
			e.jump(s, s.top(), cb.b.Succs[0].Index)
			e.jump(s2, s2.top(), cb.b.Succs[1].Index)
			if s.cfg.merge == 0 || e.regionDepth > 60 {
				*e.forks = append(*e.forks, s2)
				return
			}
			f := s.g().frames[len(s.g().frames)-1]
			f.fi.analyse()
			blkOf := cb.b.Index
			j := f.fi.ipdom[blkOf]
			budget := e.regionBudget
			stop := &Stop{gi: s.cur, depth: len(s.g().frames), blk: j, budget: &budget}
			if j == -1 && len(s.g().frames) == 1 {
				*e.forks = append(*e.forks, s2)
				return
			}
			e.regionDepth++
			o1 := e.run(s, stop)
			o2 := e.run(s2, stop)
			e.regionDepth--
			outs := e.mergeAll(append(o1, o2...), stop, preKnown, preDom, prePC)
			// push in reverse so that exploration order is stable
			for i := len(outs) - 1; i >= 0; i-- {
				*e.forks = append(*e.forks, outs[i])
			}
			// the driver continues from the fork list
			panic(takeOver{})
		}
	}
	_ = decided
	if b {
		e.jump(s, f2(s), cb.b.Succs[0].Index)
	} else {
		e.jump(s, f2(s), cb.b.Succs[1].Index)
	}
}

type takeOver struct{}

func f2(s *State) *Frame { return s.top() }

package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

// Job is one harness run with a fixed list of case selections.
type Job struct {
	Harness string
	Cases   []int
	Tier    string
}

type Trace struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Vals    []uint64 `json:"vals"`
	Reach   []string `json:"reach,omitempty"`
	Retry   bool     `json:"-"`
}

type Candidate struct {
	Kind  string
	Msg   string
	Loc   string
	Trace Trace
	Sched []int
}

type Runner struct {
	base     *Base
	mu       sync.Mutex
	queue    []*Job
	active   int
	cond     *sync.Cond
	tier     string
	deadline time.Time
	jobLimit time.Duration

	cands                                     []Candidate
	candSeen                                  map[string]int
	samples                                   map[string][]Trace
	total                                     Stats
	queries, satN, unsatN, unknownN, restarts int
	solveTime                                 time.Duration
	solverErrs                                []string
	jobs                                      int
	nodes                                     int
	perH                                      map[string]*HStat
	verbose, fast                             bool
	stop                                      atomic.Bool
	crosscheck                                int
	skipped                                   int
	pathSeq                                   map[string]int
	stuckSeq                                  map[string]int // per harness and reason
	stuckTr                                   map[string][]Trace
}

type HStat struct {
	Paths, Inconclusive, Asserts, Queries, Instrs, Forks, Merges int
	Wall                                                         float64
	Jobs                                                         int
	Reach                                                        map[string]int
	Incon                                                        map[string]int
	Timeout                                                      bool
	Cases                                                        map[string]bool
}

func newRunner(b *Base, tier string) *Runner {
	r := &Runner{base: b, tier: tier, candSeen: map[string]int{}, samples: map[string][]Trace{}, perH: map[string]*HStat{}, pathSeq: map[string]int{}, stuckSeq: map[string]int{}, stuckTr: map[string][]Trace{}}
	r.cond = sync.NewCond(&r.mu)
	r.total.Reach = map[string]int{}
	r.total.Inconclusive = map[string]int{}
	r.total.Funcs = map[string]bool{}
	return r
}

func (r *Runner) push(j *Job) {
	r.mu.Lock()
	r.queue = append(r.queue, j)
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *Runner) runAll(workers int) {
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r.mu.Lock()
				for len(r.queue) == 0 && r.active > 0 {
					r.cond.Wait()
				}
				if len(r.queue) == 0 {
					r.mu.Unlock()
					r.cond.Broadcast()
					return
				}
				j := r.queue[0]
				r.queue = r.queue[1:]
				r.active++
				r.mu.Unlock()
				r.runJob(j)
				r.mu.Lock()
				r.active--
				r.mu.Unlock()
				r.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (r *Runner) runJob(j *Job) {
	t0 := time.Now()
	fn := r.base.harness[j.Harness]
	if fn == nil {
		panic("no harness " + j.Harness)
	}
	if r.stop.Load() || time.Now().After(r.deadline) {
		r.mu.Lock()
		r.skipped++
		hs := r.hstat(j.Harness)
		hs.Timeout = true
		hs.Incon["check time limit (job not started)"]++
		hs.Inconclusive++
		r.mu.Unlock()
		return
	}
	var shared map[string]bool
	_ = shared
	e := r.base.newEngine()
	e.job = j
	e.runner = r
	e.verbose = r.verbose
	e.deadline = time.Now().Add(r.jobLimit)
	if e.deadline.After(r.deadline) {
		e.deadline = r.deadline
	}
	for round := 0; round < 6; round++ {
		s := &State{e: e, tok: &owner{}, heap: r.base.baseHeap, model: &Model{}}
		s.gs = []*G{{tok: s.tok}}
		e.caseAbort = false
		e.newShared = false
		e.gAccess = map[int]int{}
		e.pushCall(s, fn, nil, nil, -1)
		e.run(s, nil)
		if !e.newShared {
			break
		}
		// new shared objects discovered: explore again with them as scheduling points
		ss := e.sharedSites
		st := e.stats
		_ = st
		e.resetStats()
		e.sharedSites = ss
	}
	e.sol.Close()
	r.mu.Lock()
	defer r.mu.Unlock()
	hs := r.hstat(j.Harness)
	st := &e.stats
	hs.Jobs++
	hs.Paths += st.Paths
	hs.Inconclusive += st.PathsInconclusive
	hs.Asserts += st.AssertChecks + st.AssertTrivial
	hs.Queries += e.sol.Queries
	hs.Instrs += st.Instrs
	hs.Forks += st.Forks
	hs.Merges += st.Merges
	hs.Wall += time.Since(t0).Seconds()
	if st.Timeout {
		hs.Timeout = true
	}
	for k, n := range st.Reach {
		hs.Reach[k] += n
		r.total.Reach[k] += n
	}
	for k, n := range st.Inconclusive {
		hs.Incon[k] += n
		r.total.Inconclusive[k] += n
	}
	for k := range st.Funcs {
		r.total.Funcs[k] = true
	}
	r.total.Paths += st.Paths
	r.total.PathsInconclusive += st.PathsInconclusive
	r.total.PathsInfeasible += st.PathsInfeasible
	r.total.Forks += st.Forks
	r.total.Merges += st.Merges
	r.total.Instrs += st.Instrs
	r.total.FastDecides += st.FastDecides
	r.total.Audited += st.Audited
	r.total.CacheHits += st.CacheHits
	r.total.AssertChecks += st.AssertChecks
	r.total.AssertTrivial += st.AssertTrivial
	if st.Timeout {
		r.total.Timeout = true
	}
	r.queries += e.sol.Queries
	r.satN += e.sol.SatN
	r.unsatN += e.sol.UnsatN
	r.unknownN += e.sol.UnknownN
	r.restarts += e.sol.Restarts
	r.solveTime += e.sol.SolveTime
	r.solverErrs = append(r.solverErrs, e.sol.errs...)
	r.nodes += int(e.ts.n)
	r.jobs++
}

func (r *Runner) hstat(h string) *HStat {
	hs := r.perH[h]
	if hs == nil {
		hs = &HStat{Reach: map[string]int{}, Incon: map[string]int{}, Cases: map[string]bool{}}
		r.perH[h] = hs
	}
	return hs
}

func (e *Engine) resetStats() {
	f := e.stats.Funcs
	e.stats = Stats{Reach: map[string]int{}, Inconclusive: map[string]int{}, Funcs: f}
}

// traceOf evaluates the nondet events of s under model m.
func (e *Engine) traceOf(s *State, m *Model) Trace {
	t := Trace{Harness: e.job.Harness, Tier: e.job.Tier, Retry: s.cfg.sched || s.cfg.mapPerm, Reach: append([]string(nil), s.reached...)}
	for _, ev := range s.events() {
		for _, v := range ev.vals {
			switch x := v.(type) {
			case K:
				t.Vals = append(t.Vals, uint64(x))
			case *Term:
				t.Vals = append(t.Vals, m.eval(x))
			}
		}
	}
	return t
}

func (e *Engine) candidate(s *State, kind, msg string, m *Model) {
	loc := ""
	g := s.g()
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.pc < len(f.fi.blocks[f.blk].ins) {
			loc += f.fi.name + " " + e.prog.Fset.Position(f.fi.blocks[f.blk].ins[f.pc].in.Pos()).String() + "; "
		}
		if len(loc) > 400 {
			break
		}
	}
	e.candidateAt(s, kind, msg, loc, m)
}

func (e *Engine) candidateAt(s *State, kind, msg, loc string, m *Model) {
	r := e.runner
	if r == nil {
		return
	}
	if m == nil {
		if res, m2 := e.sol.Check(s.pc, nil, true); res == Sat {
			m = m2
		} else {
			e.stats.PathsInconclusive++
			e.stats.Inconclusive["violation candidate without model"]++
			return
		}
	}
	tr := e.traceOf(s, m)
	key := e.job.Harness + "|" + kind + "|" + msg
	r.mu.Lock()
	defer r.mu.Unlock()
	r.candSeen[key]++
	if r.candSeen[key] > 6 {
		return
	}
	r.cands = append(r.cands, Candidate{kind, msg, loc, tr, s.schedTrace})
	if r.fast && len(r.cands) == 3 {
		r.stop.Store(true)
	}
}

func (e *Engine) onPathEnd(s *State) {
	r := e.runner
	if r == nil {
		return
	}
	for _, l := range s.reached {
		e.stats.Reach[l]++
	}
	r.mu.Lock()
	r.pathSeq[e.job.Harness]++
	n := r.pathSeq[e.job.Harness]
	want := n <= 4 || (n&(n-1)) == 0 || n%257 == 0
	r.mu.Unlock()
	if want && s.model != nil && !s.cfg.sched {
		tr := e.traceOf(s, s.model)
		r.mu.Lock()
		if len(r.samples[e.job.Harness]) < 60 {
			r.samples[e.job.Harness] = append(r.samples[e.job.Harness], tr)
		}
		r.mu.Unlock()
	}
}

// stuck records models of a path that leaves the encodable fragment, to be run natively to its end: the model at hand, one
// with all values of a width distinct, and one that differs from the first in every value.
func (e *Engine) stuck(s *State, why string) {
	r := e.runner
	if r == nil || s.cfg.sched {
		return
	}
	r.mu.Lock()
	key := e.job.Harness + "|" + why
	r.stuckSeq[key]++
	n := r.stuckSeq[key]
	want := (n <= 400 || n&(n-1) == 0) && len(r.stuckTr[e.job.Harness]) < 2400
	r.mu.Unlock()
	if !want {
		return
	}
	m := s.model
	if m == nil {
		res, m2 := e.sol.Check(s.pc, nil, true)
		if res != Sat {
			return
		}
		m = m2
	}
	trs := []Trace{e.traceOf(s, m)}
	var ts []*Term
	seen := map[*Term]bool{}
	for _, ev := range s.events() {
		for _, v := range ev.vals {
			if t, ok := v.(*Term); ok && !seen[t] && len(ts) < 8 {
				seen[t] = true
				ts = append(ts, t)
			}
		}
	}
	distinct, differ := e.ts.Bool(true), e.ts.Bool(true)
	for i, a := range ts {
		if a.isFP {
			continue
		}
		differ = e.ts.And(differ, e.ts.Not(e.ts.Eq(a, e.ts.Const(a.w, m.eval(a)))))
		for _, b := range ts[:i] {
			if b.w == a.w && a.w > 1 && !b.isFP {
				distinct = e.ts.And(distinct, e.ts.Not(e.ts.Eq(a, b)))
			}
		}
	}
	if len(ts) > 0 {
		for _, x := range []*Term{distinct, differ} {
			if res, m2 := e.sol.Check(s.pc, x, true); res == Sat && m2 != nil {
				trs = append(trs, e.traceOf(s, m2))
			}
		}
	}
	r.mu.Lock()
	r.stuckTr[e.job.Harness] = append(r.stuckTr[e.job.Harness], trs...)
	r.mu.Unlock()
}

func (e *Engine) uncaught(s *State, p *PanicRec) {
	e.stats.Paths++
	e.candidateAt(s, "panic", p.msg, "", s.model)
	s.dead = true
}

func (e *Engine) deadlock(s *State) {
	e.stats.Paths++
	e.candidateAt(s, "deadlock", "all goroutines blocked", "", s.model)
	s.dead = true
}

func (e *Engine) budgetExceeded(s *State) {
	if e.initMode {
		s.dead = true
		return
	}
	e.candidate(s, "hang", fmt.Sprintf("no termination within %d steps", e.maxSteps), s.model)
	e.endState(s, "step budget exceeded")
}

var _ = json.Marshal

package main

import (
	"go/types"
)

type deferred struct {
	fn   Value
	args []Value
	// invoke form
	call *cins
}

type PanicRec struct {
	val       Value // Iface
	recovered bool
	msg       string
	goexit    bool
}

type Frame struct {
	tok    *owner
	fi     *FnInfo
	blk    int
	prev   int
	pc     int
	env    []Value
	defers []deferred
	retReg int  // caller register for result
	isDef  bool // invoked as a deferred call
	pan    *PanicRec
	// tail replacement: when an intrinsic model returns, nothing special
}

type gStatus int

const (
	gRun gStatus = iota
	gBlocked
	gDone
)

type G struct {
	tok    *owner
	id     int
	frames []*Frame
	status gStatus
	// rendezvous slots
	waitKind int // 1 send, 2 recv, 3 select, 4 other (mutex, waitgroup)
	waitCh   []int
	sendVal  []Value
	selDirs  []bool // true=send for select cases
	wakeIdx  int
	wakeVal  Value
	wakeOK   bool
	woken    bool
	waitObj  int
}

type ndEvent struct {
	kind string
	vals []Value // K or *Term
	w    uint8
}

type ndNode struct {
	prev *ndNode
	ev   ndEvent
	n    int
}

type domain struct {
	tt   [4]uint64
	tang bool
}

type State struct {
	e            *Engine
	tok          *owner
	heap         ptree
	known        ptree // term id -> bool
	dom          ptree // var idx -> *domain
	gs           []*G
	cur          int
	pc           []*Term
	model        *Model
	trace        *ndNode
	steps        int
	depthPreempt int
	cfg          stateCfg
	dead         bool
	pend         int // pending hidden choice + 1
	skipPre      bool
	caseIdx      int
	schedTrace   []int
	reached      []string
	notes        []string
	// region bookkeeping
}

type stateCfg struct {
	mapPerm bool
	sched   bool
	maxPre  int
	merge   int
}

func (s *State) fork() *State {
	n := *s
	s.tok = &owner{}
	n.tok = &owner{}
	// slices: limit capacity so appends reallocate
	s.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pc = s.pc
	n.gs = append([]*G(nil), s.gs...)
	s.schedTrace = s.schedTrace[:len(s.schedTrace):len(s.schedTrace)]
	n.schedTrace = s.schedTrace
	s.reached = s.reached[:len(s.reached):len(s.reached)]
	n.reached = s.reached
	return &n
}

func (s *State) g() *G { return s.gs[s.cur] }

// wg returns a writable current goroutine.
func (s *State) wgi(i int) *G {
	g := s.gs[i]
	if g.tok != s.tok {
		c := *g
		c.tok = s.tok
		c.frames = append([]*Frame(nil), g.frames...)
		g = &c
		s.gs[i] = g
	}
	return g
}

func (s *State) wg() *G { return s.wgi(s.cur) }

// wfi returns the writable frame i of goroutine gi.
func (s *State) wframe(gi, i int) *Frame {
	g := s.wgi(gi)
	f := g.frames[i]
	if f.tok != s.tok {
		c := *f
		c.tok = s.tok
		c.env = append([]Value(nil), f.env...)
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		f = &c
		g.frames[i] = f
	}
	return f
}

func (s *State) top() *Frame {
	g := s.g()
	return s.wframe(s.cur, len(g.frames)-1)
}

func (s *State) addEvent(ev ndEvent) {
	n := 0
	if s.trace != nil {
		n = s.trace.n
	}
	s.trace = &ndNode{s.trace, ev, n + 1}
}

func (s *State) events() []ndEvent {
	if s.trace == nil {
		return nil
	}
	r := make([]ndEvent, s.trace.n)
	for n := s.trace; n != nil; n = n.prev {
		r[n.n-1] = n.ev
	}
	return r
}

func (s *State) domain(v int32) *domain {
	d, _ := s.dom.get(int(v)).(*domain)
	if d == nil {
		return &fullDomain
	}
	return d
}

var fullDomain = domain{tt: [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}}

// learn records that t has truth value b without extending the path condition.
func (s *State) learn(t *Term, b bool) {
	for t.op == OpNot {
		t = t.a
		b = !b
	}
	s.known.set(s.tok, int(t.id), b)
	if b && t.op == OpAnd {
		s.learn(t.a, true)
		s.learn(t.b, true)
	}
	if !b && t.op == OpOr {
		s.learn(t.a, false)
		s.learn(t.b, false)
	}
	if b && t.op == OpEq && t.b.isConst() && t.a.uv >= 0 && t.a.op != OpVar {
		// nothing
	}
}

// assume adds t to the path condition (caller guarantees satisfiability or checks later).
func (s *State) assume(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			s.dead = true
		}
		return
	}
	if t.op == OpAnd {
		s.assume(t.a)
		s.assume(t.b)
		s.learn(t, true)
		return
	}
	s.pc = append(s.pc, t)
	s.learn(t, true)
	ts := s.e.ts
	if tt := ts.truthTable(t); tt != nil {
		d := s.domain(t.uv)
		nd := &domain{tt: ttAnd(&d.tt, tt), tang: d.tang}
		s.dom.set(s.tok, int(t.uv), nd)
		return
	}
	for _, v := range s.e.varsOf(t) {
		d := s.domain(v)
		if !d.tang {
			nd := *d
			nd.tang = true
			s.dom.set(s.tok, int(v), &nd)
		}
	}
}

func (e *Engine) varsOf(t *Term) []int32 {
	if v, ok := e.varCache[t.id]; ok {
		return v
	}
	seen := map[int32]bool{}
	vars := map[int]bool{}
	collectVars(seen, vars, t)
	var r []int32
	for v := range vars {
		r = append(r, int32(v))
	}
	e.varCache[t.id] = r
	return r
}

var _ types.Type

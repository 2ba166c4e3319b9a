package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// chooseHidden forks over n scheduler/environment alternatives that are not harness inputs.
func (e *Engine) chooseHidden(s *State, n int) int {
	if s.pend != 0 {
		v := s.pend - 1
		s.pend = 0
		return v
	}
	for i := n - 1; i >= 1; i-- {
		s2 := s.fork()
		s2.pend = i + 1
		*e.forks = append(*e.forks, s2)
	}
	return 0
}

func (s *State) runnable() []int {
	var r []int
	for i, g := range s.gs {
		if g.status == gRun {
			r = append(r, i)
		}
	}
	return r
}

// block marks the current goroutine blocked and schedules another.
func (e *Engine) block(s *State) {
	s.wg().status = gBlocked
	e.handle(s, func() { e.schedule(s) })
}

func (e *Engine) schedule(s *State) {
	r := s.runnable()
	if len(r) == 0 {
		if s.gs[0].status == gDone {
			s.dead = true
			return
		}
		e.deadlock(s)
		return
	}
	k := 0
	if s.cfg.sched && len(r) > 1 {
		k = e.chooseHidden(s, len(r))
	} else {
		// round robin: next after cur
		for i, x := range r {
			if x > s.cur {
				k = i
				break
			}
		}
	}
	s.cur = r[k]
	if s.cfg.sched {
		s.schedTrace = append(s.schedTrace, s.cur)
	}
}

// preempt possibly switches goroutine before a visible memory access; true = re-enter.
func (e *Engine) preempt(s *State, p Value) bool {
	pp, ok := p.(Ptr)
	if ok {
		if len(s.gs) < 2 {
			return false
		}
		// discover objects touched by more than one goroutine
		site := e.objSite[pp.obj]
		if site == nil {
			return false
		}
		if last, seen := e.gAccess[pp.obj]; seen && last != s.cur && !e.sharedSites[site] {
			e.sharedSites[site] = true
			e.newShared = true
		}
		e.gAccess[pp.obj] = s.cur
		if !e.sharedSites[site] {
			return false
		}
	}
	return e.yieldPoint(s)
}

// yieldPoint lets the scheduler switch; returns true when another goroutine was chosen.
func (e *Engine) yieldPoint(s *State) bool {
	if s.skipPre {
		s.skipPre = false
		return false
	}
	r := s.runnable()
	if len(r) < 2 || s.depthPreempt >= s.cfg.maxPre {
		return false
	}
	k := e.chooseHidden(s, len(r))
	// order alternatives so that 0 = stay
	order := []int{s.cur}
	for _, x := range r {
		if x != s.cur {
			order = append(order, x)
		}
	}
	c := order[k]
	if c == s.cur {
		return false
	}
	s.depthPreempt++
	s.cur = c
	s.schedTrace = append(s.schedTrace, c)
	return true
}

func (e *Engine) findWaiter(s *State, ch ChanRef, send bool) (int, int) {
	for i, g := range s.gs {
		if g.status != gBlocked || g.woken || i == s.cur {
			continue
		}
		for j, c := range g.waitCh {
			if c == ch.obj && g.selDirs[j] == send {
				return i, j
			}
		}
	}
	return -1, -1
}

func (e *Engine) wake(s *State, gi, idx int, v Value, ok bool) {
	g := s.wgi(gi)
	g.status = gRun
	g.woken = true
	g.wakeIdx = idx
	g.wakeVal = v
	g.wakeOK = ok
	g.waitCh = nil
	g.selDirs = nil
}

func (e *Engine) recv(s *State, cv Value, commaOk bool, ci *cins) bool {
	ch, ok := cv.(ChanRef)
	if !ok {
		panic(unsup(fmt.Sprintf("recv on %T", cv)))
	}
	g := s.wg()
	fin := func(v Value, ok bool) {
		if v == nil {
			in := ci.in.(*ssa.UnOp)
			v = zeroOf(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		f := s.top()
		if commaOk {
			f.env[ci.dst] = Tuple{v, boolV(ok)}
		} else {
			f.env[ci.dst] = v
		}
		f.pc++
	}
	if g.woken {
		g.woken = false
		fin(g.wakeVal, g.wakeOK)
		return false
	}
	if s.cfg.sched && e.yieldPoint(s) {
		return false
	}
	if v, ok, ready := e.tryRecv(s, ch); ready {
		fin(v, ok)
		return false
	}
	g = s.wg()
	g.waitCh = []int{ch.obj}
	g.selDirs = []bool{false}
	panic(blockG{})
}

func (e *Engine) tryRecv(s *State, ch ChanRef) (v Value, ok, ready bool) {
	if ch.obj == 0 {
		return nil, false, false
	}
	d := s.chanData(ch)
	if len(d.buf) > 0 {
		d = s.wchanData(ch)
		v = d.buf[0]
		d.buf = append([]Value(nil), d.buf[1:]...)
		if gi, j := e.findWaiter(s, ch, true); gi >= 0 {
			d.buf = append(d.buf, s.gs[gi].sendVal[j])
			e.wake(s, gi, j, nil, true)
		}
		return v, true, true
	}
	if gi, j := e.findWaiter(s, ch, true); gi >= 0 {
		v = s.gs[gi].sendVal[j]
		e.wake(s, gi, j, nil, true)
		return v, true, true
	}
	if d.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (e *Engine) trySend(s *State, ch ChanRef, v Value) bool {
	if ch.obj == 0 {
		return false
	}
	d := s.chanData(ch)
	if d.closed {
		panic(goPanic{msg: "send on closed channel", rt: true})
	}
	if gi, j := e.findWaiter(s, ch, false); gi >= 0 {
		e.wake(s, gi, j, v, true)
		return true
	}
	if len(d.buf) < d.cap {
		d = s.wchanData(ch)
		d.buf = append(d.buf, v)
		return true
	}
	return false
}

func (e *Engine) send(s *State, cv, v Value, ci *cins) bool {
	ch, ok := cv.(ChanRef)
	if !ok {
		panic(unsup(fmt.Sprintf("send on %T", cv)))
	}
	g := s.wg()
	if g.woken {
		g.woken = false
		if !g.wakeOK {
			panic(goPanic{msg: "send on closed channel", rt: true})
		}
		s.top().pc++
		return false
	}
	if s.cfg.sched && e.yieldPoint(s) {
		return false
	}
	if e.trySend(s, ch, v) {
		s.top().pc++
		return false
	}
	g = s.wg()
	g.waitCh = []int{ch.obj}
	g.selDirs = []bool{true}
	g.sendVal = []Value{v}
	panic(blockG{})
}

func (e *Engine) closeChan(s *State, ch ChanRef) {
	d := s.wchanData(ch)
	if d.closed {
		panic(goPanic{msg: "close of closed channel", rt: true})
	}
	d.closed = true
	for {
		gi, j := e.findWaiter(s, ch, false)
		if gi < 0 {
			break
		}
		e.wake(s, gi, j, nil, false)
	}
	for {
		gi, j := e.findWaiter(s, ch, true)
		if gi < 0 {
			break
		}
		e.wake(s, gi, j, nil, false)
	}
}

func (e *Engine) selectStmt(s *State, f *Frame, ci *cins, in *ssa.Select) bool {
	// result tuple: (index int, recvOk bool, r_0, ... r_n-1 for recv states)
	n := len(in.States)
	fin := func(idx int, ok bool, v Value) {
		t := Tuple{K(uint64(idx)), boolV(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				el := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx && v != nil {
					t = append(t, v)
				} else {
					t = append(t, zeroOf(el))
				}
			}
		}
		f := s.top()
		f.env[ci.dst] = t
		f.pc++
	}
	g := s.wg()
	if g.woken {
		g.woken = false
		if in.States[g.wakeIdx].Dir == types.SendOnly && !g.wakeOK {
			panic(goPanic{msg: "send on closed channel", rt: true})
		}
		fin(g.wakeIdx, g.wakeOK, g.wakeVal)
		return false
	}
	if s.cfg.sched && e.yieldPoint(s) {
		return false
	}
	chans := make([]ChanRef, n)
	sends := make([]Value, n)
	k := 0
	for i, st := range in.States {
		chans[i] = f.get(&ci.ops[k]).(ChanRef)
		k++
		if st.Dir == types.SendOnly {
			sends[i] = f.get(&ci.ops[k])
		}
		k++ // Operands lists Chan and Send for every state
	}
	var ready []int
	for i, st := range in.States {
		if chans[i].obj == 0 {
			continue
		}
		d := s.chanData(chans[i])
		if st.Dir == types.SendOnly {
			gi, _ := e.findWaiter(s, chans[i], false)
			if d.closed || gi >= 0 || len(d.buf) < d.cap {
				ready = append(ready, i)
			}
		} else {
			gi, _ := e.findWaiter(s, chans[i], true)
			if d.closed || gi >= 0 || len(d.buf) > 0 {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		c := 0
		if len(ready) > 1 {
			c = e.chooseHidden(s, len(ready))
		}
		i := ready[c]
		if in.States[i].Dir == types.SendOnly {
			e.trySend(s, chans[i], sends[i])
			fin(i, false, nil)
		} else {
			v, ok, _ := e.tryRecv(s, chans[i])
			fin(i, ok, v)
		}
		return false
	}
	if !in.Blocking {
		fin(-1, false, nil)
		t := s.top().env[ci.dst].(Tuple)
		t[0] = K(^uint64(0))
		return false
	}
	g = s.wg()
	g.waitCh = nil
	g.selDirs = nil
	g.sendVal = make([]Value, n)
	for i, st := range in.States {
		g.waitCh = append(g.waitCh, chans[i].obj)
		g.selDirs = append(g.selDirs, st.Dir == types.SendOnly)
		g.sendVal[i] = sends[i]
	}
	panic(blockG{})
}

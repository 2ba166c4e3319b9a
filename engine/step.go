package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func nilDeref() goPanic {
	return goPanic{msg: "runtime error: invalid memory address or nil pointer dereference", rt: true}
}

// step executes one non-branch instruction; returns false when the caller should re-enter.
func (e *Engine) step(s *State, f *Frame, cb *cblock, ci *cins) bool {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		id := s.newObj(ci.lay, 1)
		if s.cfg.sched {
			e.objSite[id] = in
		}
		f.env[ci.dst] = Ptr{id, 0}
		f.pc++
	case *ssa.UnOp:
		x := f.get(&ci.ops[0])
		var r Value
		switch in.Op {
		case token.MUL:
			if s.cfg.sched && e.preempt(s, x) {
				return false
			}
			r = e.loadPtr(s, x, ci.lay, in.Type())
		case token.NOT:
			r = e.not(x)
		case token.SUB:
			w, _, fl := width(in.Type())
			if k, ok := x.(K); ok {
				if fl {
					r = K(uint64(k) ^ uint64(1)<<(w-1))
				} else {
					r = K(-uint64(k) & mask(w))
				}
			} else if fl {
				r = val(e.ts.Un(OpFNeg, w, x.(*Term)))
			} else {
				r = val(e.ts.Un(OpNeg, w, x.(*Term)))
			}
		case token.XOR:
			w, _, _ := width(in.Type())
			if k, ok := x.(K); ok {
				r = K(^uint64(k) & mask(w))
			} else {
				r = val(e.ts.Un(OpBNot, w, x.(*Term)))
			}
		case token.ARROW:
			return e.recv(s, x, in.CommaOk, ci)
		default:
			panic(unsup("unop " + in.Op.String()))
		}
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.Store:
		a := f.get(&ci.ops[0])
		v := f.get(&ci.ops[1])
		if s.cfg.sched && e.preempt(s, a) {
			return false
		}
		e.storePtr(s, a, ci.lay, v, in.Val.Type())
		s.top().pc++
	case *ssa.ChangeType, *ssa.ChangeInterface:
		f.env[ci.dst] = f.get(&ci.ops[0])
		f.pc++
	case *ssa.Convert:
		r := e.convert(s, in.X.Type(), in.Type(), f.get(&ci.ops[0]))
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.MultiConvert:
		r := e.convert(s, in.X.Type(), in.Type(), f.get(&ci.ops[0]))
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.MakeInterface:
		f.env[ci.dst] = Iface{canon(in.X.Type()), f.get(&ci.ops[0])}
		f.pc++
	case *ssa.MakeClosure:
		b := make([]Value, len(ci.ops)-1)
		for i := range b {
			b[i] = f.get(&ci.ops[i+1])
		}
		f.env[ci.dst] = &Closure{in.Fn.(*ssa.Function), b}
		f.pc++
	case *ssa.MakeMap:
		f.env[ci.dst] = MapRef{s.newExt(&MapData{vt: in.Type().Underlying().(*types.Map).Elem()})}
		f.pc++
	case *ssa.MakeChan:
		n := e.concInt(s, f.get(&ci.ops[0]))
		s.top().env[ci.dst] = ChanRef{s.newExt(&ChanData{cap: n})}
		s.top().pc++
	case *ssa.MakeSlice:
		e.makeSlice(s, f, ci, in)
	case *ssa.Slice:
		r := e.sliceOp(s, f, ci, in)
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.SliceToArrayPointer:
		sl := f.get(&ci.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(sl.len) < n {
			panic(goPanic{msg: "runtime error: cannot convert slice to array pointer", rt: true})
		}
		f.env[ci.dst] = Ptr{sl.obj, sl.off}
		f.pc++
	case *ssa.FieldAddr:
		p := f.get(&ci.ops[0])
		if sp, ok := p.(*SPtr); ok {
			p = e.fixSPtr(s, sp)
			f = s.top()
		}
		pp, ok := p.(Ptr)
		if !ok {
			panic(unsup(fmt.Sprintf("fieldaddr of %T", p)))
		}
		if pp.obj == 0 {
			panic(nilDeref())
		}
		l := layoutOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		f.env[ci.dst] = Ptr{pp.obj, pp.off + l.offs[in.Field]}
		f.pc++
	case *ssa.Field:
		x := f.get(&ci.ops[0])
		a, ok := x.(Agg)
		if !ok {
			panic(unsup(fmt.Sprintf("field of %T", x)))
		}
		l := layoutOf(in.X.Type())
		f.env[ci.dst] = aggSub(a, l.offs[in.Field], l.flds[in.Field])
		f.pc++
	case *ssa.IndexAddr:
		r := e.indexAddr(s, f, ci, in)
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.Index:
		r := e.indexVal(s, f, ci, in)
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.Lookup:
		r := e.lookup(s, f, ci, in)
		f = s.top()
		f.env[ci.dst] = r
		f.pc++
	case *ssa.MapUpdate:
		m, ok := f.get(&ci.ops[0]).(MapRef)
		if !ok {
			panic(unsup("map update on non-map"))
		}
		if m.obj == 0 {
			panic(goPanic{msg: "assignment to entry in nil map", rt: true})
		}
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		e.mapSet(s, m, kt, f.get(&ci.ops[1]), f.get(&ci.ops[2]))
		s.top().pc++
	case *ssa.Range:
		x := f.get(&ci.ops[0])
		switch y := x.(type) {
		case string, *SStr:
			f.env[ci.dst] = &MapIter{str: y, isS: true}
		case MapRef:
			it := &MapIter{obj: y.obj}
			if y.obj != 0 {
				for _, en := range s.mapData(y).ents {
					if !en.del {
						it.keys = append(it.keys, en.key)
					}
				}
			}
			f.env[ci.dst] = it
		default:
			panic(unsup(fmt.Sprintf("range over %T", x)))
		}
		f.pc++
	case *ssa.Next:
		e.next(s, f, ci, in)
	case *ssa.TypeAssert:
		r := e.typeAssert(s, f.get(&ci.ops[0]), in)
		f.env[ci.dst] = r
		f.pc++
	case *ssa.Extract:
		t, ok := f.get(&ci.ops[0]).(Tuple)
		if !ok {
			panic(unsup(fmt.Sprintf("extract from %T", f.get(&ci.ops[0]))))
		}
		f.env[ci.dst] = t[in.Index]
		f.pc++
	case *ssa.Call:
		return e.call(s, f, ci, &in.Call)
	case *ssa.Return:
		var r Value
		switch len(ci.ops) {
		case 0:
		case 1:
			r = f.get(&ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range t {
				t[i] = f.get(&ci.ops[i])
			}
			r = t
		}
		e.ret(s, r)
		return false
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			e.callValue(s, d.fn, d.args, -1, true, d.call)
			return false
		}
		f.pc++
	case *ssa.Panic:
		v := f.get(&ci.ops[0])
		panic(goPanic{val: v})
	case *ssa.Defer:
		fn, args := e.callTarget(s, f, ci, &in.Call, 0)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{fn: fn, args: args, call: ci})
		f.pc++
	case *ssa.Go:
		fn, args := e.callTarget(s, f, ci, &in.Call, 0)
		f.pc++
		g := &G{tok: s.tok, id: len(s.gs)}
		s.gs = append(s.gs[:len(s.gs):len(s.gs)], g)
		cur := s.cur
		s.cur = len(s.gs) - 1
		e.callValue(s, fn, args, -1, false, ci)
		s.cur = cur
		return false
	case *ssa.Send:
		return e.send(s, f.get(&ci.ops[0]), f.get(&ci.ops[1]), ci)
	case *ssa.Select:
		return e.selectStmt(s, f, ci, in)
	default:
		panic(unsup(fmt.Sprintf("instr %T", in)))
	}
	return true
}

func aggSub(a Agg, off int, l *Layout) Value {
	if l.agg {
		return a[off : off+l.size : off+l.size]
	}
	return a[off]
}

func (e *Engine) fixSPtr(s *State, sp *SPtr) Ptr {
	i := int(e.concretize(s, sp.idx, 64))
	return Ptr{sp.obj, sp.base + i*sp.esz}
}

func (e *Engine) loadPtr(s *State, p Value, lay *Layout, t types.Type) Value {
	switch x := p.(type) {
	case Ptr:
		if x.obj == 0 {
			panic(nilDeref())
		}
		return s.load(x, lay)
	case *SPtr:
		if !lay.agg {
			if _, ok := t.Underlying().(*types.Basic); ok && !isString(t) {
				w, _, _ := width(t)
				o := s.obj(x.obj)
				scalar := true
				for i := 0; i < x.n && scalar; i++ {
					switch o.get(x.base + i*x.esz).(type) {
					case K, *Term:
					default:
						scalar = false
					}
				}
				if scalar {
					return e.mux(x.idx, x.n, w, func(i int) Value { return o.get(x.base + i*x.esz) })
				}
			}
		}
		return s.load(e.fixSPtr(s, x), lay)
	}
	panic(unsup(fmt.Sprintf("load through %T", p)))
}

func (e *Engine) storePtr(s *State, p Value, lay *Layout, v Value, t types.Type) {
	switch x := p.(type) {
	case Ptr:
		if x.obj == 0 {
			panic(nilDeref())
		}
		s.store(x, lay, v)
		return
	case *SPtr:
		if !lay.agg && x.n <= 64 {
			if _, ok := t.Underlying().(*types.Basic); ok && !isString(t) {
				w, _, _ := width(t)
				o := s.wobj(x.obj)
				tv := e.term(v, w)
				for i := 0; i < x.n; i++ {
					c := e.ts.Eq(x.idx, e.ts.Const(64, uint64(i)))
					s.setCell(o, x.base+i*x.esz, val(e.ts.Ite(c, tv, e.term(o.get(x.base+i*x.esz), w))))
				}
				return
			}
		}
		s.store(e.fixSPtr(s, x), lay, v)
		return
	}
	panic(unsup(fmt.Sprintf("store through %T", p)))
}

func boundsPanic(i, n interface{}) goPanic {
	return goPanic{msg: fmt.Sprintf("runtime error: index out of range [%v] with length %v", i, n), rt: true}
}

// idx64 widens an index value to 64 bits according to its type.
func (e *Engine) idx64(v Value, t types.Type) Value {
	return e.convNum(t, types.Typ[types.Int64], v)
}

func (e *Engine) indexAddr(s *State, f *Frame, ci *cins, in *ssa.IndexAddr) Value {
	x := f.get(&ci.ops[0])
	iv := e.idx64(f.get(&ci.ops[1]), in.Index.Type())
	var obj, base, n int
	var el *Layout
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		sl, ok := x.(Slice)
		if !ok {
			panic(unsup(fmt.Sprintf("index of %T", x)))
		}
		obj, base, n = sl.obj, sl.off, sl.len
		el = layoutOf(u.Elem())
	case *types.Pointer:
		if sp, ok := x.(*SPtr); ok {
			x = e.fixSPtr(s, sp)
		}
		p, ok := x.(Ptr)
		if !ok {
			panic(unsup(fmt.Sprintf("index of ptr %T", x)))
		}
		if p.obj == 0 {
			panic(nilDeref())
		}
		at := u.Elem().Underlying().(*types.Array)
		obj, base, n = p.obj, p.off, int(at.Len())
		el = layoutOf(at.Elem())
	default:
		panic(unsup("indexaddr"))
	}
	if k, ok := iv.(K); ok {
		i := int64(k)
		if i < 0 || i >= int64(n) {
			panic(boundsPanic(i, n))
		}
		return Ptr{obj, base + int(i)*el.size}
	}
	t := iv.(*Term)
	if !e.decide(s, val(e.ts.Bin(OpULt, t, e.ts.Const(64, uint64(n))))) {
		panic(boundsPanic("symbolic", n))
	}
	if n == 1 {
		return Ptr{obj, base}
	}
	if el.size == 1 && n <= 4096 {
		return &SPtr{obj: obj, base: base, n: n, esz: 1, idx: t}
	}
	i := int(e.concretize(s, t, 64))
	return Ptr{obj, base + i*el.size}
}

func (e *Engine) indexVal(s *State, f *Frame, ci *cins, in *ssa.Index) Value {
	x := f.get(&ci.ops[0])
	iv := e.idx64(f.get(&ci.ops[1]), in.Index.Type())
	if isString(in.X.Type()) {
		n := strLen(x)
		if k, ok := iv.(K); ok {
			if int64(k) < 0 || int64(k) >= int64(n) {
				panic(boundsPanic(int64(k), n))
			}
			return strAt(x, int(k))
		}
		t := iv.(*Term)
		if !e.decide(s, val(e.ts.Bin(OpULt, t, e.ts.Const(64, uint64(n))))) {
			panic(boundsPanic("symbolic", n))
		}
		return e.mux(t, n, 8, func(i int) Value { return strAt(x, i) })
	}
	a, ok := x.(Agg)
	if !ok {
		panic(unsup(fmt.Sprintf("index of %T", x)))
	}
	l := layoutOf(in.X.Type())
	if k, ok := iv.(K); ok {
		if int64(k) < 0 || int64(k) >= int64(l.n) {
			panic(boundsPanic(int64(k), l.n))
		}
		return aggSub(a, int(k)*l.elem.size, l.elem)
	}
	t := iv.(*Term)
	if !e.decide(s, val(e.ts.Bin(OpULt, t, e.ts.Const(64, uint64(l.n))))) {
		panic(boundsPanic("symbolic", l.n))
	}
	i := int(e.concretize(s, t, 64))
	return aggSub(a, i*l.elem.size, l.elem)
}

func (e *Engine) makeSlice(s *State, f *Frame, ci *cins, in *ssa.MakeSlice) {
	lv := e.idx64(f.get(&ci.ops[0]), in.Len.Type())
	cv := e.idx64(f.get(&ci.ops[1]), in.Cap.Type())
	const lim = 1 << 26
	chk := func(v Value, what string, exact bool) int {
		if k, ok := v.(K); ok {
			if int64(k) < 0 || int64(k) > 1<<46 {
				panic(goPanic{msg: "runtime error: makeslice: " + what + " out of range", rt: true})
			}
			if int64(k) > lim {
				panic(unsup("huge allocation"))
			}
			return int(k)
		}
		t := v.(*Term)
		if e.decide(s, val(e.ts.Bin(OpULt, e.ts.Const(64, 1<<46), t))) {
			panic(goPanic{msg: "runtime error: makeslice: " + what + " out of range", rt: true})
		}
		// sizes that would exhaust memory are a crash as well when above the limit the harness allows
		if e.decide(s, val(e.ts.Bin(OpULt, e.ts.Const(64, lim), t))) {
			panic(goPanic{msg: "runtime error: allocation of more than 64M elements driven by input", rt: true})
		}
		if !exact {
			// a capacity alone has no influence on what is computed
			return -1
		}
		// sizes above 512 are represented by one value; the others count as not decided
		if e.decide(s, val(e.ts.Bin(OpULt, e.ts.Const(64, 512), t))) {
			x := e.modelOf(s).eval(t)
			if !e.decide(s, val(e.ts.Eq(t, e.ts.Const(64, x)))) {
				panic(unsup("large allocation of a size that depends on input"))
			}
			return int(x)
		}
		return int(e.concretize(s, t, 64))
	}
	_, lk := lv.(K)
	c := chk(cv, "cap", cv == lv || !lk)
	var n int
	if cv == lv {
		n = c
	} else {
		n = chk(lv, "len", true)
	}
	if c < 0 {
		if e.decide(s, val(e.ts.Bin(OpULt, cv.(*Term), e.ts.Const(64, uint64(n))))) {
			panic(goPanic{msg: "runtime error: makeslice: cap out of range", rt: true})
		}
		c = n + 64
	}
	if n > c {
		panic(goPanic{msg: "runtime error: makeslice: cap out of range", rt: true})
	}
	el := layoutOf(in.Type().Underlying().(*types.Slice).Elem())
	id := s.newObj(el, c)
	if s.cfg.sched {
		e.objSite[id] = in
	}
	f = s.top()
	f.env[ci.dst] = Slice{id, 0, n, c}
	f.pc++
}

func (e *Engine) sliceOp(s *State, f *Frame, ci *cins, in *ssa.Slice) Value {
	x := f.get(&ci.ops[0])
	var ix [3]Value
	for i, o := range []ssa.Value{in.Low, in.High, in.Max} {
		if o != nil {
			ix[i] = e.idx64(f.get(&ci.ops[i+1]), o.Type())
		}
	}
	oob := func() { panic(goPanic{msg: "runtime error: slice bounds out of range", rt: true}) }
	// resolve concrete indices, checking range [0,lim]
	conc := func(v Value, lim int, def int) int {
		if v == nil {
			return def
		}
		if k, ok := v.(K); ok {
			if int64(k) < 0 || int64(k) > int64(lim) {
				oob()
			}
			return int(k)
		}
		t := v.(*Term)
		if !e.decide(s, val(e.ts.Bin(OpULe, t, e.ts.Const(64, uint64(lim))))) {
			oob()
		}
		return int(e.concretize(s, t, 64))
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		n := strLen(x)
		hi := conc(ix[1], n, n)
		lo := conc(ix[0], hi, 0)
		return strSub(x, lo, hi)
	case *types.Slice:
		sl, ok := x.(Slice)
		if !ok {
			panic(unsup(fmt.Sprintf("slice of %T", x)))
		}
		es := layoutOf(u.Elem()).size
		mx := conc(ix[2], sl.cap, sl.cap)
		hi := conc(ix[1], mx, sl.len)
		if hi > mx {
			oob()
		}
		lo := conc(ix[0], hi, 0)
		if sl.obj == 0 {
			return Slice{}
		}
		return Slice{sl.obj, sl.off + lo*es, hi - lo, mx - lo}
	case *types.Pointer:
		p, ok := x.(Ptr)
		if !ok {
			panic(unsup(fmt.Sprintf("slice of ptr %T", x)))
		}
		if p.obj == 0 {
			panic(nilDeref())
		}
		at := u.Elem().Underlying().(*types.Array)
		n := int(at.Len())
		es := layoutOf(at.Elem()).size
		mx := conc(ix[2], n, n)
		hi := conc(ix[1], mx, n)
		if hi > mx {
			oob()
		}
		lo := conc(ix[0], hi, 0)
		return Slice{p.obj, p.off + lo*es, hi - lo, mx - lo}
	}
	panic(unsup("slice op"))
}

// ---- maps ----

// mapFind returns the entry index for key or -1, forking on symbolic key equality.
func (e *Engine) mapFind(s *State, m MapRef, kt types.Type, key Value) int {
	if m.obj == 0 {
		return -1
	}
	d := s.mapData(m)
	ck, conc := ckeyStr(key)
	if conc && d.nsym == 0 {
		if len(d.ents) > 8 {
			if d.index == nil || len(d.index) == 0 {
				d.reindex() // benign cache fill (same content for all sharers)
			}
			if i, ok := d.index[ck]; ok && !d.ents[i].del {
				return i
			}
			return -1
		}
	}
	for i := range d.ents {
		en := &d.ents[i]
		if en.del {
			continue
		}
		if conc {
			if k2, ok := ckeyStr(en.key); ok {
				if k2 == ck {
					return i
				}
				continue
			}
		}
		if e.decide(s, e.eqVal(kt, key, en.key)) {
			return i
		}
	}
	return -1
}

func (e *Engine) checkHashable(key Value) {
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(goPanic{msg: "runtime error: hash of unhashable type " + i.t.String(), rt: true})
	}
}

func (e *Engine) mapSet(s *State, m MapRef, kt types.Type, key, v Value) {
	e.checkHashable(key)
	i := e.mapFind(s, m, kt, key)
	d := s.wmapData(m)
	if i >= 0 {
		d.ents[i].val = v
		return
	}
	d.compact()
	d.ents = append(d.ents, mapEntry{key: key, val: v})
	d.live++
	if ck, ok := ckeyStr(key); ok {
		if len(d.ents) > 8 && len(d.index) == 0 {
			d.reindex()
		} else if len(d.index) > 0 {
			d.index[ck] = len(d.ents) - 1
		}
	} else {
		d.nsym++
	}
}

func (e *Engine) mapDelete(s *State, m MapRef, kt types.Type, key Value) {
	if m.obj == 0 {
		return
	}
	i := e.mapFind(s, m, kt, key)
	if i < 0 {
		return
	}
	d := s.wmapData(m)
	if ck, ok := ckeyStr(d.ents[i].key); ok {
		delete(d.index, ck)
	} else {
		d.nsym--
	}
	d.ents[i].del = true
	d.live--
}

func (e *Engine) lookup(s *State, f *Frame, ci *cins, in *ssa.Lookup) Value {
	x := f.get(&ci.ops[0])
	if isString(in.X.Type()) {
		iv := e.idx64(f.get(&ci.ops[1]), in.Index.Type())
		n := strLen(x)
		if k, ok := iv.(K); ok {
			if int64(k) < 0 || int64(k) >= int64(n) {
				panic(boundsPanic(int64(k), n))
			}
			return strAt(x, int(k))
		}
		t := iv.(*Term)
		if !e.decide(s, val(e.ts.Bin(OpULt, t, e.ts.Const(64, uint64(n))))) {
			panic(boundsPanic("symbolic", n))
		}
		return e.mux(t, n, 8, func(i int) Value { return strAt(x, i) })
	}
	m, ok := x.(MapRef)
	if !ok {
		panic(unsup(fmt.Sprintf("lookup in %T", x)))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	key := f.get(&ci.ops[1])
	e.checkHashable(key)
	i := e.mapFind(s, m, mt.Key(), key)
	var v Value
	found := K(0)
	if i >= 0 {
		v = s.mapData(m).ents[i].val
		found = 1
	} else {
		v = zeroOf(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, found}
	}
	return v
}

func (e *Engine) next(s *State, f *Frame, ci *cins, in *ssa.Next) {
	it, ok := f.get(&ci.ops[0]).(*MapIter)
	if !ok {
		panic(unsup("next on non-iterator"))
	}
	ri := ci.ops[0].reg
	if it.isS {
		if it.pos >= strLen(it.str) {
			f.env[ci.dst] = Tuple{K(0), K(0), K(0)}
			f.pc++
			return
		}
		r, n := e.decodeRune(s, it.str, it.pos)
		f = s.top()
		f.env[ci.dst] = Tuple{K(1), K(uint64(it.pos)), r}
		ni := *it
		ni.pos += n
		f.env[ri] = &ni
		f.pc++
		return
	}
	tt := in.Type().(*types.Tuple)
	zero := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return K(0)
		}
		return zeroOf(t)
	}
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	for it.pos < len(it.keys) {
		// choose next key (order nondeterminism when enabled)
		if s.cfg.mapPerm && len(it.keys)-it.pos > 1 {
			rem := len(it.keys) - it.pos
			c := e.chooseHidden(s, rem)
			if c > 0 {
				ks := append([]Value(nil), it.keys...)
				k := ks[it.pos+c]
				copy(ks[it.pos+1:it.pos+c+1], ks[it.pos:it.pos+c])
				ks[it.pos] = k
				it = &MapIter{obj: it.obj, keys: ks, pos: it.pos}
			}
		}
		key := it.keys[it.pos]
		i := e.mapFindExact(s, it.obj, mt.Key(), key)
		ni := *it
		ni.pos++
		f = s.top()
		if i < 0 {
			it = &ni
			continue
		}
		v := s.mapData(MapRef{it.obj}).ents[i].val
		f.env[ci.dst] = Tuple{K(1), key, v}
		f.env[ri] = &ni
		f.pc++
		return
	}
	f.env[ci.dst] = Tuple{K(0), zero(1), zero(2)}
	f.pc++
}

// mapFindExact locates the entry that holds exactly this key value (identity, no forking).
func (e *Engine) mapFindExact(s *State, obj int, kt types.Type, key Value) int {
	d := s.mapData(MapRef{obj})
	ck, conc := ckeyStr(key)
	if conc && len(d.index) > 0 {
		if i, ok := d.index[ck]; ok && !d.ents[i].del {
			return i
		}
		if d.nsym == 0 {
			return -1
		}
	}
	for i := range d.ents {
		if d.ents[i].del {
			continue
		}
		if conc {
			if k2, ok := ckeyStr(d.ents[i].key); ok && k2 == ck {
				return i
			}
			continue
		}
		if e.eqVal(kt, key, d.ents[i].key) == K(1) {
			return i
		}
	}
	return -1
}

// ---- type assertions ----

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	type key struct {
		t  types.Type
		it *types.Interface
	}
	k := [2]interface{}{t, it}
	if r, ok := e.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implCache[k] = r
	return r
}

func (e *Engine) typeAssert(s *State, v Value, in *ssa.TypeAssert) Value {
	x, ok := v.(Iface)
	if !ok {
		panic(unsup(fmt.Sprintf("type assert on %T", v)))
	}
	at := canon(in.AssertedType)
	good := false
	if x.t != nil {
		if it, ok := at.Underlying().(*types.Interface); ok {
			good = e.implements(x.t, it)
		} else {
			good = canon(x.t) == at
		}
	}
	var r Value
	if good {
		if types.IsInterface(at) {
			r = x
		} else {
			r = x.v
		}
	} else {
		if !in.CommaOk {
			msg := fmt.Sprintf("interface conversion: interface is %v, not %s", x.t, at)
			panic(goPanic{msg: msg, rt: true})
		}
		r = zeroOf(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{r, boolV(good)}
	}
	return r
}

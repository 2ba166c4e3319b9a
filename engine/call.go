package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callTarget evaluates the callee and arguments of a call instruction.
func (e *Engine) callTarget(s *State, f *Frame, ci *cins, c *ssa.CallCommon, _ int) (Value, []Value) {
	if c.IsInvoke() {
		rv := f.get(&ci.ops[0])
		x, ok := rv.(Iface)
		if !ok {
			panic(unsup(fmt.Sprintf("invoke on %T", rv)))
		}
		if x.t == nil {
			panic(nilDeref())
		}
		fn := e.method(x.t, c.Method)
		args := make([]Value, 1+len(c.Args))
		args[0] = x.v
		for i := 1; i < len(args); i++ {
			args[i] = f.get(&ci.ops[i])
		}
		return fn, args
	}
	fv := f.get(&ci.ops[0])
	args := make([]Value, len(c.Args)) // a Defer has one more operand, its stack
	for i := range args {
		args[i] = f.get(&ci.ops[i+1])
	}
	return fv, args
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := [2]interface{}{t, m}
	if fn, ok := e.methCache[k]; ok {
		return fn
	}
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsup("no method " + m.Name() + " on " + t.String()))
	}
	e.methCache[k] = fn
	return fn
}

func (e *Engine) call(s *State, f *Frame, ci *cins, c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := make([]Value, len(ci.ops)-1)
		for i := range args {
			args[i] = f.get(&ci.ops[i+1])
		}
		r := e.builtin(s, b, args, c, ci)
		f = s.top()
		if ci.dst >= 0 {
			f.env[ci.dst] = r
		}
		f.pc++
		return true
	}
	fv, args := e.callTarget(s, f, ci, c, 0)
	return e.dispatch(s, fv, args, ci)
}

// dispatch performs a normal call from the instruction at the top frame's pc.
func (e *Engine) dispatch(s *State, fv Value, args []Value, ci *cins) bool {
	var fn *ssa.Function
	var bind []Value
	switch x := fv.(type) {
	case *ssa.Function:
		fn = x
	case *Closure:
		fn, bind = x.fn, x.bind
	case NilFunc:
		panic(nilDeref())
	case *nativeFn:
		r := x.f(&ictx{e: e, s: s, args: args, ci: ci})
		f := s.top()
		if ci.dst >= 0 {
			f.env[ci.dst] = r
		}
		f.pc++
		return true
	default:
		if isPoison(fv) {
			panic(unsup("call of unmodelled value: " + fv.(*Poison).why))
		}
		panic(unsup(fmt.Sprintf("call of %T", fv)))
	}
	if intr := e.intrinsic(fn); intr != nil {
		r := intr(&ictx{e: e, s: s, args: args, fn: fn, ci: ci})
		if _, ft := r.(fallThrough); !ft {
			f := s.top()
			if ci.dst >= 0 {
				f.env[ci.dst] = r
			}
			f.pc++
			return true
		}
	}
	if m := e.model(fn); m != nil {
		fn = m
	}
	f := s.top()
	f.pc++
	e.pushCall(s, fn, args, bind, ci.dst)
	return false
}

// callValue starts a call not tied to the current instruction (defer, go).
func (e *Engine) callValue(s *State, fv Value, args []Value, dst int, isDef bool, ci *cins) {
	var fn *ssa.Function
	var bind []Value
	switch x := fv.(type) {
	case *ssa.Function:
		fn = x
	case *Closure:
		fn, bind = x.fn, x.bind
	case *ssa.Builtin:
		var cc *ssa.CallCommon
		switch in := ci.in.(type) {
		case *ssa.Defer:
			cc = &in.Call
		case *ssa.Go:
			cc = &in.Call
		}
		e.builtin(s, x, args, cc, ci)
		return
	case NilFunc:
		panic(nilDeref())
	default:
		panic(unsup(fmt.Sprintf("deferred call of %T", fv)))
	}
	if intr := e.intrinsic(fn); intr != nil {
		if _, ft := intr(&ictx{e: e, s: s, args: args, fn: fn, ci: ci}).(fallThrough); !ft {
			if len(s.g().frames) == 0 {
				s.wg().status = gDone
			}
			return
		}
	}
	if m := e.model(fn); m != nil {
		fn = m
	}
	e.pushCall(s, fn, args, bind, dst)
	s.top().isDef = isDef
}

func (e *Engine) pushCall(s *State, fn *ssa.Function, args, bind []Value, dst int) {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: " + fn.String()))
	}
	fi := e.info(fn)
	if fi.inRepo {
		e.stats.Funcs[fi.name] = true
	}
	g := s.wg()
	if n := len(g.frames); n > 400 && (e.maxSteps <= 3_000_000 || n > e.maxSteps/1000) {
		panic(unsup("call depth"))
	}
	fr := &Frame{tok: s.tok, fi: fi, env: make([]Value, fi.nregs), retReg: dst, prev: -1}
	n := copy(fr.env, args)
	copy(fr.env[n:], bind)
	g.frames = append(g.frames, fr)
}

// ret pops the current frame delivering r.
func (e *Engine) ret(s *State, r Value) {
	g := s.wg()
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = gDone
		if s.cur == 0 {
			panic(endPath{})
		}
		e.schedule(s)
		return
	}
	caller := s.top()
	if fr.retReg >= 0 {
		caller.env[fr.retReg] = r
	}
	if fr.isDef && caller.pan != nil {
		e.unwind(s)
	}
}

// raise starts panicking in the current goroutine.
func (e *Engine) raise(s *State, p goPanic) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				e.unsupportedAt(s, x.why)
			case endPath:
				e.stats.Paths++
				s.dead = true
			case goPanic:
				e.unsupportedAt(s, "nested panic in unwind: "+x.msg)
			default:
				e.unsupportedAt(s, fmt.Sprintf("engine: %v", r))
			}
		}
	}()
	if e.initMode {
		e.unsupportedAt(s, "panic in init: "+p.msg)
		return
	}
	v := p.val
	if v == nil {
		v = e.runtimeError(p.msg)
	}
	msg := p.msg
	if msg == "" {
		msg = "panic: " + e.describe(s, v)
	}
	f := s.top()
	f.pan = &PanicRec{val: v, msg: msg}
	e.unwind(s)
}

func (e *Engine) runtimeError(msg string) Value {
	if e.rtErrType == nil {
		return Iface{canon(types.Typ[types.String]), msg}
	}
	return Iface{e.rtErrType, Agg{msg}}
}

// unwind continues a panic in the top frame: run defers, then leave the frame.
func (e *Engine) unwind(s *State) {
	for {
		f := s.top()
		if f.pan.recovered {
			f.pan = nil
			// return normally from f via its recover block
			if rb := f.fi.fn.Recover; rb != nil {
				f.defers = nil2(f.defers)
				f.blk = rb.Index
				f.prev = -1
				f.pc = 0
				return
			}
			// no named results: return zero values
			e.ret(s, zeroResults(f.fi.fn.Signature))
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			before := len(s.g().frames)
			e.callValue(s, d.fn, d.args, -1, true, d.call)
			if len(s.g().frames) > before {
				return
			}
			continue
		}
		g := s.wg()
		p := f.pan
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			e.uncaught(s, p)
			return
		}
		isDef := f.isDef
		nf := s.top()
		_ = isDef
		nf.pan = p
	}
}

func nil2(d []deferred) []deferred { return d }

func zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zeroOf(sig.Results().At(0).Type())
	}
	t := make(Tuple, sig.Results().Len())
	for i := range t {
		t[i] = zeroOf(sig.Results().At(i).Type())
	}
	return t
}

// describe renders a value for messages.
func (e *Engine) describe(s *State, v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%s) %s", x.t, e.describe(s, x.v))
	case string:
		return x
	case *SStr:
		m := s.model
		if m == nil {
			return "<symbolic>"
		}
		var sb strings.Builder
		for _, b := range x.b {
			switch y := b.(type) {
			case K:
				sb.WriteByte(byte(y))
			case *Term:
				sb.WriteByte(byte(m.eval(y)))
			}
		}
		return sb.String()
	case K:
		return fmt.Sprint(uint64(x))
	case Agg:
		var p []string
		for i, c := range x {
			if i > 4 {
				break
			}
			p = append(p, e.describe(s, c))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		o := s.obj(x.obj)
		if o.n > x.off && o.n-x.off < 8 {
			return "&" + e.describe(s, o.get(x.off))
		}
		return "&obj"
	}
	return fmt.Sprintf("%T", v)
}

// ---- builtins ----

func (e *Engine) builtin(s *State, b *ssa.Builtin, args []Value, c *ssa.CallCommon, ci *cins) Value {
	switch b.Name() {
	case "len":
		return e.lenOf(s, args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return K(uint64(x.cap))
		case ChanRef:
			if x.obj == 0 {
				return K(0)
			}
			return K(uint64(s.chanData(x).cap))
		case Agg:
			return K(uint64(layoutOf(c.Args[0].Type()).n))
		}
	case "append":
		return e.appendB(s, args, c)
	case "copy":
		return e.copyB(s, args, c)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(s, args[0].(MapRef), mt.Key(), args[1])
		return nil
	case "panic":
		panic(goPanic{val: args[0]})
	case "recover":
		g := s.g()
		n := len(g.frames)
		if n >= 2 && g.frames[n-1].isDef {
			p := s.wframe(s.cur, n-2)
			if p.pan != nil && !p.pan.recovered {
				v := p.pan.val
				np := *p.pan
				np.recovered = true
				p.pan = &np
				return v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		w, signed, fl := width(t)
		for _, a := range args[1:] {
			var lt Value
			switch {
			case isString(t):
				lt = e.strLess(a, r)
			case fl:
				lt = e.fcmp(OpFLt, a, r, w)
			case signed:
				lt = e.scmp(OpSLt, a, r, w)
			default:
				lt = e.scmp(OpULt, a, r, w)
			}
			if b.Name() == "max" {
				lt = e.not(e.or(lt, e.eqVal(t, a, r)))
			}
			if k, ok := lt.(K); ok {
				if k == 1 {
					r = a
				}
			} else if isString(t) {
				if e.decide(s, lt) {
					r = a
				}
			} else {
				r = val(e.ts.Ite(lt.(*Term), e.term(a, w), e.term(r, w)))
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				d := s.wmapData(x)
				*d = MapData{vt: d.vt}
			}
		case Slice:
			el := layoutOf(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			if x.len > 0 {
				o := s.wobj(x.obj)
				for i := 0; i < x.len*el.size; i++ {
					s.setCell(o, x.off+i, el.zeroAt(i%el.size))
				}
			}
		}
		return nil
	case "close":
		ch := args[0].(ChanRef)
		if ch.obj == 0 {
			panic(goPanic{msg: "close of nil channel", rt: true})
		}
		e.closeChan(s, ch)
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(nilDeref())
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := e.concInt(s, args[1])
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		o := s.obj(p.obj)
		bs := make([]Value, n)
		for i := range bs {
			bs[i] = o.get(p.off + i)
		}
		return mkStr(bs)
	case "StringData":
		if strLen(args[0]) == 0 {
			return Ptr{}
		}
		sl := e.mkByteSlice(s, strBytes(args[0]))
		return Ptr{sl.obj, 0}
	case "SliceData":
		x := args[0].(Slice)
		if x.obj == 0 {
			return Ptr{}
		}
		return Ptr{x.obj, x.off}
	case "Slice": // unsafe.Slice(ptr, len)
		n := e.concInt(s, args[1])
		p := args[0].(Ptr)
		if p.obj == 0 {
			return Slice{}
		}
		return Slice{p.obj, p.off, n, n}
	case "Add":
		panic(unsup("unsafe.Add"))
	case "real":
		return args[0].(Cplx).re
	case "imag":
		return args[0].(Cplx).im
	case "complex":
		return Cplx{args[0], args[1]}
	}
	panic(unsup("builtin " + b.Name()))
}

func (e *Engine) lenOf(s *State, v Value) Value {
	switch x := v.(type) {
	case string:
		return K(uint64(len(x)))
	case *SStr:
		return K(uint64(len(x.b)))
	case Slice:
		return K(uint64(x.len))
	case MapRef:
		if x.obj == 0 {
			return K(0)
		}
		return K(uint64(s.mapData(x).live))
	case ChanRef:
		if x.obj == 0 {
			return K(0)
		}
		return K(uint64(len(s.chanData(x).buf)))
	case *Union:
		var r *Term
		for i := len(x.alts) - 1; i >= 0; i-- {
			t := e.term(e.lenOf(s, x.alts[i].v), 64)
			if r == nil {
				r = t
			} else {
				r = e.ts.Ite(x.alts[i].g, t, r)
			}
		}
		return val(r)
	}
	panic(unsup(fmt.Sprintf("len of %T", v)))
}

func (e *Engine) appendB(s *State, args []Value, c *ssa.CallCommon) Value {
	st := c.Args[0].Type().Underlying().(*types.Slice)
	el := layoutOf(st.Elem())
	dst, ok := args[0].(Slice)
	if !ok {
		panic(unsup(fmt.Sprintf("append to %T", args[0])))
	}
	var cells []Value
	n := 0
	switch src := args[1].(type) {
	case Slice:
		n = src.len
		if n > 0 {
			o := s.obj(src.obj)
			cells = make([]Value, n*el.size)
			for i := range cells {
				cells[i] = o.get(src.off + i)
			}
		}
	case string, *SStr:
		cells = strBytes(src)
		n = len(cells)
	default:
		panic(unsup(fmt.Sprintf("append of %T", src)))
	}
	if n == 0 {
		return dst
	}
	if dst.len+n <= dst.cap {
		o := s.wobj(dst.obj)
		base := dst.off + dst.len*el.size
		for i, x := range cells {
			s.setCell(o, base+i, x)
		}
		return Slice{dst.obj, dst.off, dst.len + n, dst.cap}
	}
	nc := dst.cap * 2
	if dst.cap > 1024 {
		nc = dst.cap + dst.cap/4
	}
	if nc < dst.len+n {
		nc = dst.len + n
	}
	if el.size == 1 && nc < 8 {
		nc = 8
	}
	id := s.newObj(el, nc)
	o := s.wobj(id)
	if dst.len > 0 {
		so := s.obj(dst.obj)
		for i := 0; i < dst.len*el.size; i++ {
			s.setCell(o, i, so.get(dst.off+i))
		}
	}
	for i, x := range cells {
		s.setCell(o, dst.len*el.size+i, x)
	}
	return Slice{id, 0, dst.len + n, nc}
}

func (e *Engine) copyB(s *State, args []Value, c *ssa.CallCommon) Value {
	dst := args[0].(Slice)
	var cells []Value
	n := dst.len
	es := layoutOf(c.Args[0].Type().Underlying().(*types.Slice).Elem()).size
	switch src := args[1].(type) {
	case Slice:
		if src.len < n {
			n = src.len
		}
		if n == 0 {
			return K(0)
		}
		o := s.obj(src.obj)
		cells = make([]Value, n*es)
		for i := range cells {
			cells[i] = o.get(src.off + i)
		}
	default:
		b := strBytes(src)
		if len(b) < n {
			n = len(b)
		}
		if n == 0 {
			return K(0)
		}
		cells = b[:n]
	}
	o := s.wobj(dst.obj)
	for i, x := range cells {
		s.setCell(o, dst.off+i, x)
	}
	return K(uint64(n))
}

// fallThrough is returned by an intrinsic that leaves the call to the real function.
type fallThrough struct{}

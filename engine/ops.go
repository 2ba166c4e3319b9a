package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (e *Engine) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case K:
		return e.ts.Const(w, uint64(x))
	case *Term:
		if x.w != w {
			panic(unsup(fmt.Sprintf("term width %d, wanted %d", x.w, w)))
		}
		return x
	}
	panic(unsup(fmt.Sprintf("not a scalar: %T", v)))
}

func val(t *Term) Value {
	if t.op == OpConst {
		return K(t.k)
	}
	return t
}

func boolV(b bool) Value {
	if b {
		return K(1)
	}
	return K(0)
}

func (e *Engine) not(v Value) Value {
	if k, ok := v.(K); ok {
		return k ^ 1
	}
	return val(e.ts.Not(v.(*Term)))
}

func (e *Engine) and(a, b Value) Value {
	if k, ok := a.(K); ok {
		if k == 0 {
			return a
		}
		return b
	}
	if k, ok := b.(K); ok {
		if k == 0 {
			return b
		}
		return a
	}
	return val(e.ts.And(a.(*Term), b.(*Term)))
}

func (e *Engine) or(a, b Value) Value { return e.not(e.and(e.not(a), e.not(b))) }

// eqScalar compares two scalars of width w.
func (e *Engine) eqScalar(a, b Value, w uint8) Value {
	if x, ok := a.(K); ok {
		if y, ok := b.(K); ok {
			return boolV(x == y)
		}
	}
	return val(e.ts.Eq(e.term(a, w), e.term(b, w)))
}

func (e *Engine) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return boolV(x == y)
		}
	}
	if u, ok := a.(*Union); ok {
		var r Value = K(0)
		for _, alt := range u.alts {
			r = e.or(r, e.and(val(alt.g), e.strEq(alt.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return e.strEq(b, a)
	}
	if strLen(a) != strLen(b) {
		return K(0)
	}
	ab, bb := strBytes(a), strBytes(b)
	// check cheap mismatch first
	for i := range ab {
		x, ok1 := ab[i].(K)
		y, ok2 := bb[i].(K)
		if ok1 && ok2 && x != y {
			return K(0)
		}
	}
	var r Value = K(1)
	for i := range ab {
		r = e.and(r, e.eqScalar(ab[i], bb[i], 8))
	}
	return r
}

// strLess gives a<b lexicographically (bytewise).
func (e *Engine) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return boolV(x < y)
		}
	}
	ab, bb := strBytes(a), strBytes(b)
	n := len(ab)
	if len(bb) < n {
		n = len(bb)
	}
	r := e.ts.Bool(len(ab) < len(bb))
	for i := n - 1; i >= 0; i-- {
		x, y := e.term(ab[i], 8), e.term(bb[i], 8)
		r = e.ts.Ite(e.ts.Eq(x, y), r, e.ts.Bin(OpULt, x, y))
	}
	return val(r)
}

// eqVal implements == at type t.
func (e *Engine) eqVal(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return e.strEq(a, b)
		}
		if u.Kind() == types.UnsafePointer {
			return e.eqRef(a, b)
		}
		if u.Info()&types.IsComplex != 0 {
			x, y := a.(Cplx), b.(Cplx)
			return e.and(e.fcmp(OpFEq, x.re, y.re, 64), e.fcmp(OpFEq, x.im, y.im, 64))
		}
		w, _, f := width(t)
		if f {
			return e.fcmp(OpFEq, a, b, w)
		}
		return e.eqScalar(a, b, w)
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		l := layoutOf(t)
		var r Value = K(1)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			o := l.offs[i]
			f := l.flds[i]
			if f.agg {
				r = e.and(r, e.eqVal(u.Field(i).Type(), x[o:o+f.size], y[o:o+f.size]))
			} else {
				r = e.and(r, e.eqVal(u.Field(i).Type(), x[o], y[o]))
			}
			if r == K(0) {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		l := layoutOf(t)
		var r Value = K(1)
		sz := l.elem.size
		for i := 0; i < l.n; i++ {
			if l.elem.agg {
				r = e.and(r, e.eqVal(u.Elem(), x[i*sz:(i+1)*sz], y[i*sz:(i+1)*sz]))
			} else {
				r = e.and(r, e.eqVal(u.Elem(), x[i*sz], y[i*sz]))
			}
			if r == K(0) {
				return r
			}
		}
		return r
	case *types.Interface:
		return e.eqIface(a, b)
	}
	return e.eqRef(a, b)
}

func (e *Engine) eqIface(a, b Value) Value {
	if u, ok := a.(*Union); ok {
		var r Value = K(0)
		for _, alt := range u.alts {
			r = e.or(r, e.and(val(alt.g), e.eqIface(alt.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return e.eqIface(b, a)
	}
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 {
		panic(unsup(fmt.Sprintf("iface eq %T %T", a, b)))
	}
	if x.t == nil || y.t == nil {
		return boolV(x.t == nil && y.t == nil)
	}
	if canon(x.t) != canon(y.t) {
		return K(0)
	}
	if tx, ok := x.v.(types.Type); ok {
		ty, ok := y.v.(types.Type)
		return boolV(ok && canon(tx) == canon(ty))
	}
	if !types.Comparable(x.t) {
		panic(goPanic{msg: "runtime error: comparing uncomparable type " + x.t.String(), rt: true})
	}
	return e.eqVal(x.t, x.v, y.v)
}

func (e *Engine) eqRef(a, b Value) Value {
	if u, ok := a.(*Union); ok {
		var r Value = K(0)
		for _, alt := range u.alts {
			r = e.or(r, e.and(val(alt.g), e.eqRef(alt.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return e.eqRef(b, a)
	}
	switch x := a.(type) {
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return boolV(x == y)
		}
		if y, ok := b.(*SPtr); ok {
			if x.obj != y.obj {
				return K(0)
			}
		}
		return K(0)
	case Slice: // only vs nil
		y, ok := b.(Slice)
		if ok && (x.obj == 0 || y.obj == 0) {
			return boolV(x.obj == 0 && y.obj == 0)
		}
	case MapRef:
		if y, ok := b.(MapRef); ok {
			return boolV(x == y)
		}
	case ChanRef:
		if y, ok := b.(ChanRef); ok {
			return boolV(x == y)
		}
	case NilFunc:
		_, ok := b.(NilFunc)
		return boolV(ok)
	default:
		if _, ok := b.(NilFunc); ok {
			return K(0)
		}
		if _, ok := b.(Ptr); ok && !isPoison(a) {
			if sp, ok := a.(*SPtr); ok && sp != nil {
				return K(0)
			}
			return boolV(a == b)
		}
	}
	if isPoison(a) || isPoison(b) {
		panic(unsup("poison compare"))
	}
	panic(unsup(fmt.Sprintf("ref eq %T %T", a, b)))
}

func isPoison(v Value) bool { _, ok := v.(*Poison); return ok }

func (e *Engine) fcmp(op Op, a, b Value, w uint8) Value {
	if x, ok := a.(K); ok {
		if y, ok := b.(K); ok {
			r, _ := evalBin(op, w, uint64(x), uint64(y))
			return K(r)
		}
	}
	x, y := e.term(a, w), e.term(b, w)
	if op == OpFEq && x == y {
		return e.not(val(e.ts.isNaN(x)))
	}
	return val(e.ts.fcmp(op, x, y))
}

func (e *Engine) binop(s *State, op token.Token, t types.Type, yt types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return e.eqVal(t, a, b)
	case token.NEQ:
		return e.not(e.eqVal(t, a, b))
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		panic(unsup("binop on " + t.String()))
	}
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return e.strLess(a, b)
		case token.GTR:
			return e.strLess(b, a)
		case token.LEQ:
			return e.not(e.strLess(b, a))
		case token.GEQ:
			return e.not(e.strLess(a, b))
		}
	}
	if bt.Info()&types.IsComplex != 0 {
		panic(unsup("complex arithmetic"))
	}
	w, signed, fl := width(t)
	if fl {
		var fop Op
		switch op {
		case token.ADD:
			fop = OpFAdd
		case token.SUB:
			fop = OpFSub
		case token.MUL:
			fop = OpFMul
		case token.QUO:
			fop = OpFDiv
		case token.LSS:
			return e.fcmp(OpFLt, a, b, w)
		case token.LEQ:
			return e.fcmp(OpFLe, a, b, w)
		case token.GTR:
			return e.fcmp(OpFLt, b, a, w)
		case token.GEQ:
			return e.fcmp(OpFLe, b, a, w)
		default:
			panic(unsup("float op " + op.String()))
		}
		if x, ok := a.(K); ok {
			if y, ok := b.(K); ok {
				r, _ := evalBin(fop, w, uint64(x), uint64(y))
				return K(r)
			}
		}
		return val(e.ts.Bin(fop, e.term(a, w), e.term(b, w)))
	}
	if op == token.SHL || op == token.SHR {
		yw, ysigned, _ := width(yt)
		if ysigned {
			neg := e.scmp(OpSLt, b, K(0), yw)
			if e.decide(s, neg) {
				panic(goPanic{msg: "runtime error: negative shift amount", rt: true})
			}
		}
		var sop Op = OpShl
		if op == token.SHR {
			sop = OpLShr
			if signed {
				sop = OpAShr
			}
		}
		if x, ok := a.(K); ok {
			if y, ok := b.(K); ok {
				yy := uint64(y)
				if yy > 64 {
					yy = 64
				}
				r, _ := evalBin(sop, w, uint64(x), yy)
				return K(r)
			}
		}
		// bring shift amount to width w, saturating
		bt := e.term(b, yw)
		if yw > w {
			big := e.ts.Not(e.ts.Bin(OpULt, bt, e.ts.Const(yw, uint64(w))))
			bt = e.ts.Ite(big, e.ts.Const(w, uint64(w)&mask(w)), e.ts.Extract(bt, w-1, 0))
			if uint64(w)&mask(w) != uint64(w) {
				panic(unsup("shift width"))
			}
		} else {
			bt = e.ts.ZExt(bt, w)
		}
		return val(e.ts.Bin(sop, e.term(a, w), bt))
	}
	if op == token.QUO || op == token.REM {
		if e.decide(s, e.eqScalar(b, K(0), w)) {
			panic(goPanic{msg: "runtime error: integer divide by zero", rt: true})
		}
	}
	var bop Op
	swap := false
	switch op {
	case token.ADD:
		bop = OpAdd
	case token.SUB:
		bop = OpSub
	case token.MUL:
		bop = OpMul
	case token.QUO:
		bop = OpUDiv
		if signed {
			bop = OpSDiv
		}
	case token.REM:
		bop = OpURem
		if signed {
			bop = OpSRem
		}
	case token.AND:
		if w == 0 {
			return e.and(a, b)
		}
		bop = OpBAnd
	case token.OR:
		if w == 0 {
			return e.or(a, b)
		}
		bop = OpBOr
	case token.XOR:
		if w == 0 {
			return e.not(e.eqScalar(a, b, 0))
		}
		bop = OpBXor
	case token.AND_NOT:
		if y, ok := b.(K); ok {
			b = K(^uint64(y) & mask(w))
		} else {
			b = val(e.ts.Un(OpBNot, w, b.(*Term)))
		}
		bop = OpBAnd
	case token.LSS, token.GTR:
		bop = OpULt
		if signed {
			bop = OpSLt
		}
		swap = op == token.GTR
	case token.LEQ, token.GEQ:
		bop = OpULe
		if signed {
			bop = OpSLe
		}
		swap = op == token.GEQ
	default:
		panic(unsup("binop " + op.String()))
	}
	if swap {
		a, b = b, a
	}
	return e.scmp(bop, a, b, w)
}

func (e *Engine) scmp(op Op, a, b Value, w uint8) Value {
	if x, ok := a.(K); ok {
		if y, ok := b.(K); ok {
			r, _ := evalBin(op, w, uint64(x), uint64(y))
			return K(r)
		}
	}
	return val(e.ts.Bin(op, e.term(a, w), e.term(b, w)))
}

// conv converts scalar v between basic numeric types.
func (e *Engine) convNum(from, to types.Type, v Value) Value {
	fw, fs, ff := width(from)
	tw, tsg, tf := width(to)
	switch {
	case ff && tf:
		if fw == tw {
			return v
		}
		if k, ok := v.(K); ok {
			r, _ := evalUn(OpFCvt, tw, fw, uint64(k))
			return K(r)
		}
		return val(e.ts.Un(OpFCvt, tw, v.(*Term)))
	case ff:
		op := OpFToS
		if !tsg && tw == 64 {
			op = OpFToU
		}
		if k, ok := v.(K); ok {
			r, _ := evalUn(op, tw, fw, uint64(k))
			return K(r)
		}
		return val(e.ts.Un(op, tw, v.(*Term)))
	case tf:
		op := OpFFromU
		if fs {
			op = OpFFromS
		}
		if k, ok := v.(K); ok {
			r, _ := evalUn(op, tw, fw, uint64(k))
			return K(r)
		}
		return val(e.ts.Un(op, tw, v.(*Term)))
	}
	if k, ok := v.(K); ok {
		if fs {
			return K(uint64(sext(uint64(k), fw)) & mask(tw))
		}
		return K(uint64(k) & mask(tw))
	}
	t := v.(*Term)
	switch {
	case tw == fw:
		return t
	case tw < fw:
		return val(e.ts.Extract(t, tw-1, 0))
	case fs:
		return val(e.ts.SExt(t, tw))
	default:
		return val(e.ts.ZExt(t, tw))
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) convert(s *State, from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isString(to):
		if isByteSlice(from) {
			return mkStr(e.sliceCells(s, v.(Slice)))
		}
		if isRuneSlice(from) {
			var out []Value
			for _, r := range e.sliceCells(s, v.(Slice)) {
				out = append(out, e.encodeRune(s, r)...)
			}
			return mkStr(out)
		}
		if isString(from) {
			return v
		}
		// integer to string
		fw, fs, _ := width(from)
		r := v
		if fw > 32 {
			lo, hi := e.scmp(OpSLt, v, K(0), fw), e.scmp(OpSLt, K(0x10ffff), v, fw)
			if e.decide(s, e.or(lo, hi)) {
				return string(utf8.RuneError)
			}
		}
		_ = fs
		r = e.convNum(from, types.Typ[types.Int32], v)
		return mkStr(e.encodeRune(s, r))
	case isString(from):
		if isByteSlice(to) {
			b := strBytes(v)
			id := s.newObj(layoutOf(types.Typ[types.Uint8]), len(b))
			o := s.wobj(id)
			for i, x := range b {
				s.setCell(o, i, x)
			}
			return Slice{id, 0, len(b), len(b)}
		}
		if isRuneSlice(to) {
			var rs []Value
			b := v
			for i := 0; i < strLen(b); {
				r, n := e.decodeRune(s, b, i)
				rs = append(rs, r)
				i += n
			}
			id := s.newObj(layoutOf(types.Typ[types.Int32]), len(rs))
			o := s.wobj(id)
			for i, x := range rs {
				s.setCell(o, i, x)
			}
			return Slice{id, 0, len(rs), len(rs)}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsComplex != 0 || tb.Info()&types.IsComplex != 0 {
			return v
		}
		return e.convNum(from, to, v)
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsup(fmt.Sprintf("convert %s -> %s", from, to)))
}

// sliceCells returns the cells of a slice of scalar elements.
func (e *Engine) sliceCells(s *State, sl Slice) []Value {
	if sl.len == 0 {
		return nil
	}
	o := s.obj(sl.obj)
	r := make([]Value, sl.len)
	for i := range r {
		r[i] = o.get(sl.off + i)
	}
	return r
}

func (e *Engine) mkByteSlice(s *State, b []Value) Slice {
	id := s.newObj(layoutOf(types.Typ[types.Uint8]), len(b))
	if len(b) > 0 {
		o := s.wobj(id)
		for i, x := range b {
			s.setCell(o, i, x)
		}
	}
	return Slice{id, 0, len(b), len(b)}
}

func (e *Engine) inRange(v Value, lo, hi uint64, w uint8) Value {
	return e.and(e.scmp(OpULe, K(lo), v, w), e.scmp(OpULe, v, K(hi), w))
}

// decodeRune decodes one rune at i, forking on the byte classes of UTF-8.
func (e *Engine) decodeRune(s *State, str Value, i int) (Value, int) {
	n := strLen(str)
	if c, ok := str.(string); ok {
		r, sz := utf8.DecodeRuneInString(c[i:])
		return K(uint32(r)), sz
	}
	b0 := strAt(str, i)
	z32 := func(v Value) *Term { return e.ts.ZExt(e.term(v, 8), 32) }
	if e.decide(s, e.scmp(OpULt, b0, K(0x80), 8)) {
		return val(z32(b0)), 1
	}
	bad := K(uint32(utf8.RuneError))
	cont := func(v Value, lo, hi uint64) bool { return e.decide(s, e.inRange(v, lo, hi, 8)) }
	and := func(v Value, m uint64) *Term { return e.ts.Bin(OpBAnd, z32(v), e.ts.Const(32, m)) }
	shl := func(t *Term, k uint64) *Term { return e.ts.Bin(OpShl, t, e.ts.Const(32, k)) }
	or := func(a, b *Term) *Term { return e.ts.Bin(OpBOr, a, b) }
	if e.decide(s, e.inRange(b0, 0xC2, 0xDF, 8)) {
		if i+1 >= n {
			return bad, 1
		}
		b1 := strAt(str, i+1)
		if !cont(b1, 0x80, 0xBF) {
			return bad, 1
		}
		return val(or(shl(and(b0, 0x1f), 6), and(b1, 0x3f))), 2
	}
	if e.decide(s, e.inRange(b0, 0xE0, 0xEF, 8)) {
		if i+1 >= n {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.decide(s, e.eqScalar(b0, K(0xE0), 8)) {
			lo = 0xA0
		} else if e.decide(s, e.eqScalar(b0, K(0xED), 8)) {
			hi = 0x9F
		}
		b1 := strAt(str, i+1)
		if !cont(b1, lo, hi) || i+2 >= n {
			return bad, 1
		}
		b2 := strAt(str, i+2)
		if !cont(b2, 0x80, 0xBF) {
			return bad, 1
		}
		return val(or(or(shl(and(b0, 0x0f), 12), shl(and(b1, 0x3f), 6)), and(b2, 0x3f))), 3
	}
	if e.decide(s, e.inRange(b0, 0xF0, 0xF4, 8)) {
		if i+1 >= n {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.decide(s, e.eqScalar(b0, K(0xF0), 8)) {
			lo = 0x90
		} else if e.decide(s, e.eqScalar(b0, K(0xF4), 8)) {
			hi = 0x8F
		}
		b1 := strAt(str, i+1)
		if !cont(b1, lo, hi) || i+2 >= n {
			return bad, 1
		}
		b2 := strAt(str, i+2)
		if !cont(b2, 0x80, 0xBF) || i+3 >= n {
			return bad, 1
		}
		b3 := strAt(str, i+3)
		if !cont(b3, 0x80, 0xBF) {
			return bad, 1
		}
		return val(or(or(shl(and(b0, 0x07), 18), shl(and(b1, 0x3f), 12)), or(shl(and(b2, 0x3f), 6), and(b3, 0x3f)))), 4
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of an int32 value.
func (e *Engine) encodeRune(s *State, r Value) []Value {
	if k, ok := r.(K); ok {
		var out []Value
		for _, c := range []byte(string(rune(int32(k)))) {
			out = append(out, K(c))
		}
		return out
	}
	t := r.(*Term)
	ex := func(sh, m, o uint64) Value {
		x := e.ts.Bin(OpLShr, t, e.ts.Const(32, sh))
		x = e.ts.Bin(OpBOr, e.ts.Bin(OpBAnd, x, e.ts.Const(32, m)), e.ts.Const(32, o))
		return val(e.ts.Extract(x, 7, 0))
	}
	if e.decide(s, e.scmp(OpULt, r, K(0x80), 32)) {
		return []Value{val(e.ts.Extract(t, 7, 0))}
	}
	if e.decide(s, e.scmp(OpULt, r, K(0x800), 32)) {
		return []Value{ex(6, 0x1f, 0xC0), ex(0, 0x3f, 0x80)}
	}
	if e.decide(s, e.or(e.inRange(r, 0xD800, 0xDFFF, 32), e.scmp(OpULt, K(0x10FFFF), r, 32))) {
		return []Value{K(0xEF), K(0xBF), K(0xBD)}
	}
	if e.decide(s, e.scmp(OpULt, r, K(0x10000), 32)) {
		return []Value{ex(12, 0x0f, 0xE0), ex(6, 0x3f, 0x80), ex(0, 0x3f, 0x80)}
	}
	return []Value{ex(18, 0x07, 0xF0), ex(12, 0x3f, 0x80), ex(6, 0x3f, 0x80), ex(0, 0x3f, 0x80)}
}

// SPtr is a pointer to element idx (symbolic, in [0,n)) of an array of scalars.
type SPtr struct {
	obj, base, n, esz int
	idx               *Term // 64-bit
}

// muxLoad builds a balanced multiplexer on the index bits; equal subtrees collapse.
func (e *Engine) mux(idx *Term, n int, w uint8, cell func(i int) Value) Value {
	nb := uint8(0)
	for (1 << nb) < n {
		nb++
	}
	var rec func(bit int, base int) *Term
	rec = func(bit int, base int) *Term {
		if bit < 0 {
			if base >= n {
				return nil
			}
			return e.term(cell(base), w)
		}
		lo := rec(bit-1, base)
		hi := rec(bit-1, base|1<<uint(bit))
		if hi == nil || hi == lo {
			return lo
		}
		c := e.ts.Eq(e.ts.Extract(idx, uint8(bit), uint8(bit)), e.ts.Const(1, 1))
		return e.ts.Ite(c, hi, lo)
	}
	return val(rec(int(nb)-1, 0))
}

func (e *Engine) concretize(s *State, v Value, w uint8) uint64 {
	if k, ok := v.(K); ok {
		return uint64(k)
	}
	t := v.(*Term)
	for i := 0; i < 100000; i++ {
		m := e.modelOf(s)
		x := m.eval(t)
		if e.decide(s, val(e.ts.Eq(t, e.ts.Const(w, x)))) {
			return x
		}
	}
	panic(unsup("concretize loop"))
}

func (e *Engine) concInt(s *State, v Value) int { return int(int64(e.concretize(s, v, 64))) }

var _ = math.Abs

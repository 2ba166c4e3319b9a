package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed expressions over Bool (w==0) and BitVec (w in 1..64).
// Floating point numbers are carried as their IEEE bit patterns (BitVec 32/64).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpExtract // k = hi<<8|lo
	OpConcat
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFEq
	OpFLt
	OpFLe
	OpFFromS // signed bv a -> fp(w)
	OpFFromU
	OpFToS // fp a -> signed bv(w), truncating, amd64 indefinite when out of range
	OpFToU
	OpFCvt // fp a -> fp(w)
	OpFIsNaN
	OpFFloor
	OpFCeil
	OpFSqrt
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpULt: "bvult", OpULe: "bvule",
	OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
}

type Term struct {
	op      Op
	w       uint8
	id      int32
	uv      int32 // -1: no var, >=0 the only var, -2: several
	a, b, c *Term
	k       uint64
	tt      *[4]uint64 // truth table (Bool over one 8-bit var)
	isFP    bool       // contains FP ops
	solved  int32      // generation in which it was sent to solver
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type VarInfo struct {
	name string
	w    uint8
	t    *Term
}

// TermStore is owned by a single worker.
type TermStore struct {
	tab  map[termKey]*Term
	n    int32
	vars []VarInfo
	T, F *Term
	all  []*Term
}

func newTermStore() *TermStore {
	ts := &TermStore{tab: map[termKey]*Term{}}
	ts.F = ts.mk(OpConst, 0, nil, nil, nil, 0)
	ts.T = ts.mk(OpConst, 0, nil, nil, nil, 1)
	return ts
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *TermStore) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: ts.n, a: a, b: b, c: c, k: k, uv: -1}
	ts.n++
	if op == OpVar {
		t.uv = int32(k)
	}
	for _, x := range [3]*Term{a, b, c} {
		if x == nil {
			continue
		}
		if x.isFP {
			t.isFP = true
		}
		if x.uv == -1 {
			continue
		}
		if t.uv == -1 {
			t.uv = x.uv
		} else if t.uv != x.uv {
			t.uv = -2
		}
	}
	if op >= OpFAdd {
		t.isFP = true
	}
	ts.tab[key] = t
	return t
}

func (ts *TermStore) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 == 1 {
			return ts.T
		}
		return ts.F
	}
	return ts.mk(OpConst, w, nil, nil, nil, v&mask(w))
}

func (ts *TermStore) Var(name string, w uint8) *Term {
	i := len(ts.vars)
	t := ts.mk(OpVar, w, nil, nil, nil, uint64(i))
	ts.vars = append(ts.vars, VarInfo{name, w, t})
	return t
}

func (ts *TermStore) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (ts *TermStore) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return ts.mk(OpNot, 0, a, nil, nil, 0)
}

func (ts *TermStore) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpAnd, 0, a, b, nil, 0)
}

func (ts *TermStore) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpOr, 0, a, b, nil, 0)
}

func (ts *TermStore) Ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if c.op == OpNot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return c
			}
			return ts.Not(c)
		}
		if a.isConst() {
			if a.k == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.isConst() {
			if b.k == 0 {
				return ts.And(c, a)
			}
			return ts.Or(ts.Not(c), a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == OpIte && b.b == a {
		// ite(c,a,ite(d,a,e)) = ite(c|d,a,e)
		return ts.Ite(ts.Or(c, b.a), a, b.c)
	}
	return ts.mk(OpIte, a.w, c, a, b, 0)
}

func (ts *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			// push equality with constant into ite when a leaf is constant
			if a.b.isConst() || a.c.isConst() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		case OpZExt:
			if b.k > mask(a.a.w) {
				return ts.F
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.k))
		case OpSExt:
			lo := b.k & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.k {
				return ts.F
			}
			return ts.Eq(a.a, ts.Const(a.a.w, lo))
		case OpAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.k-a.b.k))
			}
		case OpBXor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.k^a.b.k))
			}
		case OpConcat:
			lw := a.b.w
			return ts.And(ts.Eq(a.a, ts.Const(a.a.w, b.k>>lw)), ts.Eq(a.b, ts.Const(lw, b.k)))
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk(OpEq, 0, a, b, nil, 0)
}

func (ts *TermStore) Bin(op Op, a, b *Term) *Term {
	if op >= OpFAdd && op <= OpFDiv {
		if r := ts.farith(op, a, b); r != nil {
			return r
		}
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, ok := evalBin(op, w, a.k, b.k)
		if ok {
			return ts.Const(resW(op, w), v)
		}
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return ts.Bin(OpAdd, a.a, ts.Const(w, a.b.k+b.k))
			}
		} else if a.id > b.id && b.op != OpConst {
			a, b = b, a
		}
	case OpSub:
		if b.isConst() {
			return ts.Bin(OpAdd, a, ts.Const(w, -b.k))
		}
		if a == b {
			return ts.Const(w, 0)
		}
		// (x+c) - x
		if a.op == OpAdd && a.a == b {
			return a.b
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch b.k {
			case 0:
				return b
			case 1:
				return a
			}
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OpZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OpZExt {
				return ts.ZExt(ts.Bin(OpBAnd, a.a, ts.Const(a.a.w, b.k)), w)
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return ts.Const(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if op != OpAShr && b.k >= uint64(w) {
				return ts.Const(w, 0)
			}
			if op == OpLShr {
				return ts.ZExt(ts.Extract(a, w-1, uint8(b.k)), w)
			}
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	case OpUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
	case OpULt:
		if a == b {
			return ts.F
		}
		if b.isConst() && b.k == 0 {
			return ts.F
		}
		if a.op == OpZExt && b.isConst() {
			if b.k > mask(a.a.w) {
				return ts.T
			}
			return ts.Bin(OpULt, a.a, ts.Const(a.a.w, b.k))
		}
		if b.op == OpZExt && a.isConst() {
			if a.k >= mask(b.a.w) {
				return ts.F
			}
			return ts.Bin(OpULt, ts.Const(b.a.w, a.k), b.a)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return ts.Bin(OpULt, a.a, b.a)
		}
		return ts.Not(ts.Bin(OpULe, b, a))
	case OpULe:
		if a == b {
			return ts.T
		}
		if a.isConst() && a.k == 0 {
			return ts.T
		}
		if b.isConst() && b.k == mask(w) {
			return ts.T
		}
		if a.op == OpZExt && b.isConst() {
			if b.k >= mask(a.a.w) {
				return ts.T
			}
			return ts.Bin(OpULe, a.a, ts.Const(a.a.w, b.k))
		}
		if b.op == OpZExt && a.isConst() {
			if a.k > mask(b.a.w) {
				return ts.F
			}
			return ts.Bin(OpULe, ts.Const(b.a.w, a.k), b.a)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return ts.Bin(OpULe, a.a, b.a)
		}
	case OpSLt:
		if a == b {
			return ts.F
		}
		if nonNeg(a) && nonNeg(b) {
			return ts.Bin(OpULt, a, b)
		}
		return ts.Not(ts.Bin(OpSLe, b, a))
	case OpSLe:
		if a == b {
			return ts.T
		}
		if nonNeg(a) && nonNeg(b) {
			return ts.Bin(OpULe, a, b)
		}
	}
	return ts.mk(op, resW(op, w), a, b, nil, 0)
}

// nonNeg is a cheap syntactic sign check (most significant bit known zero).
func nonNeg(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.k>>(t.w-1)&1 == 0
	case OpZExt:
		return t.w > t.a.w
	case OpIte:
		return nonNeg(t.b) && nonNeg(t.c)
	case OpBAnd:
		return nonNeg(t.a) || nonNeg(t.b)
	}
	return false
}

func resW(op Op, w uint8) uint8 {
	switch op {
	case OpULt, OpULe, OpSLt, OpSLe, OpFEq, OpFLt, OpFLe, OpEq:
		return 0
	}
	return w
}

func (ts *TermStore) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, a.k)
	}
	if a.op == OpZExt {
		return ts.ZExt(a.a, w)
	}
	return ts.mk(OpZExt, w, a, nil, nil, 0)
}

func (ts *TermStore) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, uint64(sext(a.k, a.w)))
	}
	if nonNeg(a) {
		return ts.ZExt(a, w)
	}
	return ts.mk(OpSExt, w, a, nil, nil, 0)
}

func (ts *TermStore) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, a.k>>lo)
	}
	switch a.op {
	case OpZExt:
		if lo >= a.a.w {
			return ts.Const(w, 0)
		}
		if hi < a.a.w {
			return ts.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return ts.ZExt(a.a, w)
		}
		return ts.ZExt(ts.Extract(a.a, a.a.w-1, lo), w)
	case OpSExt:
		if hi < a.a.w {
			return ts.Extract(a.a, hi, lo)
		}
	case OpExtract:
		l2 := uint8(a.k & 0xff)
		return ts.Extract(a.a, hi+l2, lo+l2)
	case OpConcat:
		if hi < a.b.w {
			return ts.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return ts.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return ts.Ite(a.a, ts.Extract(a.b, hi, lo), ts.Extract(a.c, hi, lo))
		}
	case OpBOr, OpBAnd, OpBXor:
		return ts.Bin(a.op, ts.Extract(a.a, hi, lo), ts.Extract(a.b, hi, lo))
	case OpShl:
		if a.b.isConst() {
			s := a.b.k
			if s >= uint64(a.w) {
				return ts.Const(w, 0)
			}
			if uint64(lo) >= s {
				return ts.Extract(a.a, hi-uint8(s), lo-uint8(s))
			}
			if uint64(hi) < s {
				return ts.Const(w, 0)
			}
		}
	case OpAdd, OpMul:
		if lo == 0 {
			return ts.Bin(a.op, ts.Extract(a.a, hi, 0), ts.Extract(a.b, hi, 0))
		}
	}
	return ts.mk(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (ts *TermStore) Un(op Op, w uint8, a *Term) *Term {
	if a.isConst() {
		if v, ok := evalUn(op, w, a.w, a.k); ok {
			return ts.Const(w, v)
		}
	}
	if op == OpNeg && a.op == OpNeg || op == OpBNot && a.op == OpBNot {
		return a.a
	}
	return ts.mk(op, w, a, nil, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	sx, sy := sext(x, w), sext(y, w)
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		if y == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	case OpULt:
		return b2(x < y), true
	case OpULe:
		return b2(x <= y), true
	case OpSLt:
		return b2(sx < sy), true
	case OpSLe:
		return b2(sx <= sy), true
	case OpEq:
		return b2(x == y), true
	case OpAnd:
		return x & y, true
	case OpOr:
		return x | y, true
	}
	if w == 64 {
		fx, fy := math.Float64frombits(x), math.Float64frombits(y)
		switch op {
		case OpFAdd:
			return math.Float64bits(fx + fy), true
		case OpFSub:
			return math.Float64bits(fx - fy), true
		case OpFMul:
			return math.Float64bits(fx * fy), true
		case OpFDiv:
			return math.Float64bits(fx / fy), true
		case OpFEq:
			return b2(fx == fy), true
		case OpFLt:
			return b2(fx < fy), true
		case OpFLe:
			return b2(fx <= fy), true
		}
	}
	if w == 32 {
		fx, fy := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		switch op {
		case OpFAdd:
			return uint64(math.Float32bits(fx + fy)), true
		case OpFSub:
			return uint64(math.Float32bits(fx - fy)), true
		case OpFMul:
			return uint64(math.Float32bits(fx * fy)), true
		case OpFDiv:
			return uint64(math.Float32bits(fx / fy)), true
		case OpFEq:
			return b2(fx == fy), true
		case OpFLt:
			return b2(fx < fy), true
		case OpFLe:
			return b2(fx <= fy), true
		}
	}
	return 0, false
}

func fget(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fput(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalUn(op Op, w, aw uint8, x uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpNot:
		return x ^ 1, true
	case OpBNot:
		return ^x & m, true
	case OpNeg:
		return -x & m, true
	case OpZExt:
		return x, true
	case OpSExt:
		return uint64(sext(x, aw)) & m, true
	case OpFNeg:
		return x ^ (uint64(1) << (w - 1)), true
	case OpFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(x, aw)))), true
		}
		return fput(float64(sext(x, aw)), w), true
	case OpFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return fput(float64(x), w), true
	case OpFToS:
		f := fget(x, aw)
		lim := math.Ldexp(1, 63)
		if f != f || f >= lim || f < -lim {
			return (uint64(1) << 63) & m, true
		}
		return uint64(int64(f)) & m, true
	case OpFToU:
		f := fget(x, aw)
		return uint64(f) & m, true
	case OpFCvt:
		if aw == w {
			return x, true
		}
		return fput(fget(x, aw), w), true
	case OpFIsNaN:
		f := fget(x, aw)
		if f != f {
			return 1, true
		}
		return 0, true
	case OpFFloor:
		return fput(math.Floor(fget(x, aw)), w), true
	case OpFCeil:
		return fput(math.Ceil(fget(x, aw)), w), true
	case OpFSqrt:
		return fput(math.Sqrt(fget(x, aw)), w), true
	}
	return 0, false
}

// Model assigns values to variables by index; missing = 0.
type Model struct {
	vals []uint64
	memo map[int32]uint64
}

func (m *Model) get(i int) uint64 {
	if i < len(m.vals) {
		return m.vals[i]
	}
	return 0
}

func (m *Model) with(i int, v uint64) *Model {
	n := len(m.vals)
	if i >= n {
		n = i + 1
	}
	nv := make([]uint64, n)
	copy(nv, m.vals)
	nv[i] = v
	return &Model{vals: nv}
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m.get(int(t.k))
	}
	if m.memo == nil {
		m.memo = map[int32]uint64{}
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpIte:
		if m.eval(t.a) == 1 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
	case OpExtract:
		r = (m.eval(t.a) >> (t.k & 0xff)) & mask(t.w)
	case OpConcat:
		r = m.eval(t.a)<<t.b.w | m.eval(t.b)
	case OpAnd:
		r = m.eval(t.a)
		if r == 1 {
			r = m.eval(t.b)
		}
	case OpOr:
		r = m.eval(t.a)
		if r == 0 {
			r = m.eval(t.b)
		}
	default:
		if t.b == nil {
			r, _ = evalUn(t.op, t.w, t.a.w, m.eval(t.a))
		} else {
			r, _ = evalBin(t.op, t.a.w, m.eval(t.a), m.eval(t.b))
		}
	}
	m.memo[t.id] = r
	return r
}

// eval1 evaluates t with its only variable set to x.
func eval1(t *Term, x uint64, memo map[int32]uint64) uint64 {
	m := Model{memo: memo}
	m.vals = nil
	return evalSingle(t, x, m.memo)
}

func evalSingle(t *Term, x uint64, memo map[int32]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return x
	}
	if t.tt != nil {
		return t.tt[x>>6] >> (x & 63) & 1
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpIte:
		if evalSingle(t.a, x, memo) == 1 {
			r = evalSingle(t.b, x, memo)
		} else {
			r = evalSingle(t.c, x, memo)
		}
	case OpExtract:
		r = (evalSingle(t.a, x, memo) >> (t.k & 0xff)) & mask(t.w)
	case OpConcat:
		r = evalSingle(t.a, x, memo)<<t.b.w | evalSingle(t.b, x, memo)
	default:
		if t.b == nil {
			r, _ = evalUn(t.op, t.w, t.a.w, evalSingle(t.a, x, memo))
		} else {
			r, _ = evalBin(t.op, t.a.w, evalSingle(t.a, x, memo), evalSingle(t.b, x, memo))
		}
	}
	memo[t.id] = r
	return r
}

// truthTable returns the 256-entry table of a Bool term over one 8-bit variable, or nil.
func (ts *TermStore) truthTable(t *Term) *[4]uint64 {
	if t.w != 0 || t.uv < 0 || ts.vars[t.uv].w != 8 {
		return nil
	}
	if t.tt != nil {
		return t.tt
	}
	var tt [4]uint64
	switch {
	case t.op == OpNot:
		a := ts.truthTable(t.a)
		for i := range tt {
			tt[i] = ^a[i]
		}
	case t.op == OpAnd || t.op == OpOr:
		a, b := ts.truthTable(t.a), ts.truthTable(t.b)
		for i := range tt {
			if t.op == OpAnd {
				tt[i] = a[i] & b[i]
			} else {
				tt[i] = a[i] | b[i]
			}
		}
	default:
		for x := uint64(0); x < 256; x++ {
			if evalSingle(t, x, map[int32]uint64{}) == 1 {
				tt[x>>6] |= 1 << (x & 63)
			}
		}
	}
	t.tt = &tt
	return t.tt
}

func ttEmpty(a *[4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func ttAnd(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func ttAndNot(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] &^ b[0], a[1] &^ b[1], a[2] &^ b[2], a[3] &^ b[3]}
}
func ttFirst(a *[4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if a[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(a[i]))
		}
	}
	return 0
}

// ---- SMT-LIB printing ----

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w uint8, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func fpOf(w uint8, s string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

// body renders the defining expression of t with references to children.
func (t *Term) body(ref func(*Term) string) string {
	switch t.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, ref(t.a))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fpOf(t.w, ref(t.a)), fpOf(t.w, ref(t.b)))
	case OpFNeg:
		return fmt.Sprintf("(bvxor %s %s)", ref(t.a), constStr(t.w, uint64(1)<<(t.w-1)))
	case OpFEq, OpFLt, OpFLe:
		n := map[Op]string{OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", n, fpOf(t.a.w, ref(t.a)), fpOf(t.a.w, ref(t.b)))
	case OpFFromS:
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", ref(t.a))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", ref(t.a))
	case OpFFromU:
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned 8 24) RNE %s))", ref(t.a))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", ref(t.a))
	case OpFToS, OpFToU:
		f := fpOf(t.a.w, ref(t.a))
		hi, lo := fpOf(64, constStr(64, math.Float64bits(math.Ldexp(1, 63)))), fpOf(64, constStr(64, math.Float64bits(-math.Ldexp(1, 63))))
		if t.a.w == 32 {
			f = "((_ to_fp 11 53) RNE " + f + ")"
		}
		// always via 64-bit conversion then truncate, like amd64
		core := fmt.Sprintf("(ite (and (fp.lt %s %s) (fp.leq %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", f, hi, lo, f, f)
		if t.w < 64 {
			return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, core)
		}
		return core
	case OpFCvt:
		if t.w == 64 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", fpOf(t.a.w, ref(t.a)))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", fpOf(t.a.w, ref(t.a)))
	case OpFIsNaN:
		return fmt.Sprintf("(fp.isNaN %s)", fpOf(t.a.w, ref(t.a)))
	case OpFFloor:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral RTN %s))", fpOf(t.w, ref(t.a)))
	case OpFCeil:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral RTP %s))", fpOf(t.w, ref(t.a)))
	case OpFSqrt:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", fpOf(t.w, ref(t.a)))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opName[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	n := 0
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		n++
		switch t.op {
		case OpConst:
			return constStr(t.w, t.k)
		case OpVar:
			return fmt.Sprintf("v%d", t.k)
		}
		if d == 0 || n > 200 {
			return fmt.Sprintf("t%d", t.id)
		}
		return t.body(func(x *Term) string { return rec(x, d-1) })
	}
	return rec(t, 8)
}

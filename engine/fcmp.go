package main

import (
	"fmt"
	"math"
)

// Floats are bit patterns, so comparisons need no floating point theory: they are
// comparisons of sign and magnitude, with NaN set apart.

func (ts *TermStore) isNaN(x *Term) *Term {
	if x.isConst() {
		f := fget(x.k, x.w)
		return ts.Const(0, b2u(f != f))
	}
	if x.op == OpFFromS || x.op == OpFFromU {
		return ts.Const(0, 0)
	}
	if x.op == OpFCvt {
		return ts.isNaN(x.a)
	}
	if x.isFP {
		return ts.Un(OpFIsNaN, 0, x)
	}
	return ts.Bin(OpULt, ts.Const(x.w, fInf(x.w)), ts.Bin(OpBAnd, x, ts.Const(x.w, mask(x.w)>>1)))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fInf(w uint8) uint64 { return fput(math.Inf(1), w) }

// fkey orders non-NaN floats as unsigned integers, the negative zero before the positive one.
func (ts *TermStore) fkey(x *Term) *Term {
	neg := ts.Bin(OpSLt, x, ts.Const(x.w, 0))
	return ts.Ite(neg, ts.Un(OpBNot, x.w, x), ts.Bin(OpBOr, x, ts.Const(x.w, 1<<(x.w-1))))
}

// exactInt gives the 64-bit integer a float term was converted from without rounding.
func (ts *TermStore) exactInt(x *Term) *Term {
	if x.w != 64 {
		return nil
	}
	if x.isConst() {
		f := math.Float64frombits(x.k)
		if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
			return ts.Const(64, uint64(int64(f)))
		}
		return nil
	}
	if x.op != OpFFromS && x.op != OpFFromU {
		return nil
	}
	a := x.a
	if a.w <= 32 {
		if x.op == OpFFromS {
			return ts.SExt(a, 64)
		}
		return ts.ZExt(a, 64)
	}
	if (a.op == OpSExt && x.op == OpFFromS || a.op == OpZExt) && a.a.w <= 32 {
		return a
	}
	return nil
}

func (ts *TermStore) fcmp(op Op, x, y *Term) *Term {
	if a, b := ts.exactInt(x), ts.exactInt(y); a != nil && b != nil {
		switch op {
		case OpFEq:
			return ts.Eq(a, b)
		case OpFLt:
			return ts.Bin(OpSLt, a, b)
		}
		return ts.Bin(OpSLe, a, b)
	}
	if x.op == OpFCvt && y.op == OpFCvt && x.a.w == 32 && y.a.w == 32 {
		return ts.fcmp(op, x.a, y.a)
	}
	if r := ts.fcmpConst(op, x, y); r != nil {
		return r
	}
	if x.op == OpIte && x.isFP && y.isConst() {
		return ts.Ite(x.a, ts.fcmp(op, x.b, y), ts.fcmp(op, x.c, y))
	}
	if y.op == OpIte && y.isFP && x.isConst() {
		return ts.Ite(y.a, ts.fcmp(op, x, y.b), ts.fcmp(op, x, y.c))
	}
	if x.isFP || y.isFP {
		return ts.Bin(op, x, y)
	}
	m := ts.Const(x.w, mask(x.w)>>1)
	zeros := ts.Eq(ts.Bin(OpBAnd, ts.Bin(OpBOr, x, y), m), ts.Const(x.w, 0))
	var r *Term
	switch op {
	case OpFEq:
		r = ts.Or(ts.Eq(x, y), zeros)
	case OpFLt:
		r = ts.And(ts.Bin(OpULt, ts.fkey(x), ts.fkey(y)), ts.Not(zeros))
	default:
		r = ts.Or(ts.Bin(OpULe, ts.fkey(x), ts.fkey(y)), zeros)
	}
	return ts.And(r, ts.And(ts.Not(ts.isNaN(x)), ts.Not(ts.isNaN(y))))
}

// fcmpConst compares a converted integer or single precision float with a constant.
func (ts *TermStore) fcmpConst(op Op, x, y *Term) *Term {
	swap := false
	t, k := x, y
	if x.isConst() {
		t, k, swap = y, x, true
	}
	if !k.isConst() || t.w != 64 {
		return nil
	}
	c := math.Float64frombits(k.k)
	if c != c {
		return ts.F
	}
	if a := ts.exactInt(t); a != nil {
		if op == OpFEq {
			return ts.F // an integer constant was handled before
		}
		if math.Abs(c) > 1<<53 {
			return ts.Bool((c > 0) != swap)
		}
		// c is no integer: strict and weak comparison agree
		n := ts.Const(64, uint64(int64(math.Floor(c))))
		if swap {
			return ts.Bin(OpSLt, n, a)
		}
		return ts.Bin(OpSLe, a, n)
	}
	if t.op != OpFCvt || t.a.w != 32 {
		return nil
	}
	c32 := float32(c)
	con := func(f float32) *Term { return ts.Const(32, uint64(math.Float32bits(f))) }
	if float64(c32) == c {
		if swap {
			return ts.fcmp(op, con(c32), t.a)
		}
		return ts.fcmp(op, t.a, con(c32))
	}
	if op == OpFEq {
		return ts.F
	}
	up, down := c32, c32
	if float64(c32) < c {
		up = math.Nextafter32(c32, float32(math.Inf(1)))
	} else {
		down = math.Nextafter32(c32, float32(math.Inf(-1)))
	}
	if swap {
		return ts.fcmp(OpFLe, con(up), t.a)
	}
	return ts.fcmp(OpFLe, t.a, con(down))
}

// farith simplifies arithmetic whose result needs no rounding.
func (ts *TermStore) farith(op Op, a, b *Term) *Term {
	nan := ts.Const(a.w, fput(math.NaN(), a.w))
	isNaNConst := func(t *Term) bool { return t.isConst() && t.k&(mask(t.w)>>1) > fInf(t.w) }
	if isNaNConst(a) || isNaNConst(b) {
		return nan
	}
	if a.isConst() && b.isConst() {
		return nil
	}
	ite := func(t *Term) bool { return t.op == OpIte && t.b.isConst() && t.c.isConst() }
	if ite(b) {
		return ts.Ite(b.a, ts.Bin(op, a, b.b), ts.Bin(op, a, b.c))
	}
	if ite(a) {
		return ts.Ite(a.a, ts.Bin(op, a.b, b), ts.Bin(op, a.c, b))
	}
	if op == OpFSub && a == b {
		if fin := ts.finite(a); fin != nil {
			return ts.Ite(fin, ts.Const(a.w, 0), nan)
		}
	}
	if op == OpFAdd && a.isConst() && a.k == 0 {
		a, b = b, a
	}
	if op == OpFAdd && b.isConst() && b.k == 0 {
		if a.op == OpFFromS || a.op == OpFFromU {
			return a // never a negative zero
		}
		if a.op == OpFCvt && a.a.w == 32 && !a.a.isFP {
			return ts.Ite(ts.Eq(a.a, ts.Const(32, 1<<31)), b, a)
		}
		return ts.Ite(ts.Eq(a, ts.Const(a.w, 1<<(a.w-1))), b, a)
	}
	return nil
}

// finite gives a term that holds when x is neither infinite nor NaN, or nil.
func (ts *TermStore) finite(x *Term) *Term {
	switch {
	case x.op == OpFFromS || x.op == OpFFromU:
		return ts.T
	case x.op == OpFCvt && x.a.w == 32:
		return ts.finite(x.a)
	case x.isFP:
		return nil
	}
	return ts.Bin(OpULt, ts.Bin(OpBAnd, x, ts.Const(x.w, mask(x.w)>>1)), ts.Const(x.w, fInf(x.w)))
}

func dumpTerm(t *Term, d int) string {
	if t == nil {
		return ""
	}
	if t.isConst() {
		return fmt.Sprintf("%x", t.k)
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d", t.k)
	}
	if d == 0 {
		return "..."
	}
	return fmt.Sprintf("(%d %s %s %s)", t.op, dumpTerm(t.a, d-1), dumpTerm(t.b, d-1), dumpTerm(t.c, d-1))
}

package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameVal(x.v, y.v)
	case *SStr:
		y, ok := b.(*SStr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *MapIter:
		y, ok := b.(*MapIter)
		return ok && (x == y || (x.isS == y.isS && x.pos == y.pos && x.obj == y.obj && len(x.keys) == len(y.keys) && (!x.isS || sameVal(x.str, y.str))))
	case *Union:
		y, ok := b.(*Union)
		return ok && x == y
	case Cplx:
		y, ok := b.(Cplx)
		return ok && sameVal(x.re, y.re) && sameVal(x.im, y.im)
	}
	switch b.(type) {
	case Agg, Tuple, Iface, Cplx:
		return false
	}
	return a == b
}

type mergeFail struct{}

type merger struct {
	e    *Engine
	gA   *Term
	mode int
}

func isScalar(v Value) bool {
	switch v.(type) {
	case K, *Term:
		return true
	}
	return false
}

// cell merges two cell values; w is the scalar width (255 unknown/non-scalar).
func (m *merger) cell(a, b Value, w uint8) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if isScalar(a) && isScalar(b) {
		if w == 255 {
			return nil, false
		}
		_, ka := a.(K)
		_, kb := b.(K)
		if ka && kb && w == 64 && m.mode < 3 {
			return nil, false
		}
		return val(m.e.ts.Ite(m.gA, m.e.term(a, w), m.e.term(b, w))), true
	}
	if isStr(a) && isStr(b) {
		if strLen(a) == strLen(b) {
			x, y := strBytes(a), strBytes(b)
			if len(x) > 64 {
				return nil, false
			}
			r := make([]Value, len(x))
			for i := range x {
				r[i] = val(m.e.ts.Ite(m.gA, m.e.term(x[i], 8), m.e.term(y[i], 8)))
			}
			return mkStr(r), true
		}
		return m.union(a, b)
	}
	ia, ok1 := a.(Iface)
	ib, ok2 := b.(Iface)
	if ok1 && ok2 && ia.t != nil && ia.t == ib.t {
		l := layoutOf(ia.t)
		if !l.agg {
			if v, ok := m.cell(ia.v, ib.v, l.w); ok {
				if _, isU := v.(*Union); !isU {
					return Iface{ia.t, v}, true
				}
			}
		}
		return m.union(a, b)
	}
	switch a.(type) {
	case Ptr, Slice, MapRef, Iface, *Union, *Closure, *ssa.Function, NilFunc, ChanRef:
		return m.union(a, b)
	}
	switch b.(type) {
	case *Union:
		return m.union(a, b)
	}
	return nil, false
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *SStr:
		return true
	}
	return false
}

func (m *merger) union(a, b Value) (Value, bool) {
	if m.mode < 2 || isPoison(a) || isPoison(b) {
		return nil, false
	}
	ts := m.e.ts
	var alts []Alt
	add := func(g *Term, v Value) {
		if g.isConst() && g.k == 0 {
			return
		}
		for i := range alts {
			if sameVal(alts[i].v, v) {
				alts[i].g = ts.Or(alts[i].g, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	each := func(g *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, x := range u.alts {
				add(ts.And(g, x.g), x.v)
			}
			return
		}
		add(g, v)
	}
	each(m.gA, a)
	each(ts.Not(m.gA), b)
	if len(alts) == 1 {
		return alts[0].v, true
	}
	if len(alts) > 16 {
		return nil, false
	}
	m.e.hasUnions = true
	return &Union{alts}, true
}

// typed merges register values with a static type.
func (m *merger) typed(a, b Value, t types.Type) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a == nil || b == nil {
		return nil, false
	}
	if tt, ok := t.(*types.Tuple); ok {
		x, ok1 := a.(Tuple)
		y, ok2 := b.(Tuple)
		if !ok1 || !ok2 || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			if i >= tt.Len() {
				return nil, false
			}
			v, ok := m.typed(x[i], y[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		l := layoutOf(t)
		x, ok1 := a.(Agg)
		y, ok2 := b.(Agg)
		if !ok1 || !ok2 || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := m.cell(x[i], y[i], l.widthAt(i))
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	w := uint8(255)
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&(types.IsBoolean|types.IsNumeric) != 0 {
		w, _, _ = width(t)
	}
	return m.cell(a, b, w)
}

func sameDefers(a, b []deferred) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].call != b[i].call || !sameVal(a[i].fn, b[i].fn) || len(a[i].args) != len(b[i].args) {
			return false
		}
		for j := range a[i].args {
			if !sameVal(a[i].args[j], b[i].args[j]) {
				return false
			}
		}
	}
	return true
}

// mergeAll merges the states that reached the join point where possible.
func (e *Engine) mergeAll(outs []*State, st *Stop, known, dom ptree, prePC int) []*State {
	if len(outs) < 2 {
		return outs
	}
	var res []*State
	for _, s := range outs {
		if s.dead {
			continue
		}
		merged := false
		if e.reachedStop(s, st) {
			n := len(res)
			lo := 0
			if n > 24 {
				lo = n - 24
			}
			for i := lo; i < n; i++ {
				if e.reachedStop(res[i], st) && e.merge(res[i], s, st, known, dom, prePC) {
					merged = true
					break
				}
			}
		}
		if !merged {
			res = append(res, s)
		}
	}
	return res
}

func (e *Engine) merge(a, b *State, st *Stop, known, dom ptree, prePC int) bool {
	if a.cur != b.cur || len(a.gs) != len(b.gs) || a.trace != b.trace || a.pend != 0 || b.pend != 0 || a.skipPre != b.skipPre || a.cfg != b.cfg {
		return false
	}
	if len(a.schedTrace) != len(b.schedTrace) {
		return false
	}
	for i := range a.gs {
		if i != a.cur && a.gs[i] != b.gs[i] {
			return false
		}
	}
	ga, gb := a.g(), b.g()
	if len(ga.frames) != len(gb.frames) || ga.status != gb.status || ga.woken != gb.woken {
		return false
	}
	ts := e.ts
	gA, gB := ts.T, ts.T
	for _, t := range a.pc[prePC:] {
		gA = ts.And(gA, t)
	}
	for _, t := range b.pc[prePC:] {
		gB = ts.And(gB, t)
	}
	m := &merger{e: e, gA: gA, mode: a.cfg.merge}
	type envUpd struct {
		fi, reg int
		v       Value
	}
	var upd []envUpd
	for i := range ga.frames {
		fa, fb := ga.frames[i], gb.frames[i]
		if fa == fb {
			continue
		}
		if fa.fi != fb.fi || fa.blk != fb.blk || fa.pc != fb.pc || fa.retReg != fb.retReg || fa.isDef != fb.isDef || fa.pan != fb.pan || !sameDefers(fa.defers, fb.defers) {
			return false
		}
		var live []bool
		if i == len(ga.frames)-1 && st.blk >= 0 && fa.pc == fa.fi.blocks[fa.blk].nphi {
			fa.fi.analyse()
			live = fa.fi.live[fa.blk]
		}
		types := fa.fi.regTypes()
		for r := range fa.env {
			if live != nil && !live[r] {
				continue
			}
			if sameVal(fa.env[r], fb.env[r]) {
				continue
			}
			v, ok := m.typed(fa.env[r], fb.env[r], types[r])
			if !ok {
				return false
			}
			upd = append(upd, envUpd{i, r, v})
		}
	}
	type cellUpd struct {
		obj, i int
		v      Value
	}
	var cups []cellUpd
	type adopt struct {
		k int
		v interface{}
	}
	var ads []adopt
	type mapUpd struct {
		obj, i int
		v      Value
	}
	var mups []mapUpd
	ok := pdiff(&a.heap, &b.heap, func(k int, va, vb interface{}) bool {
		if vb == nil {
			return true
		}
		if va == nil {
			ads = append(ads, adopt{k, vb})
			return true
		}
		oa, ob := va.(*Obj), vb.(*Obj)
		if oa.ext != nil || ob.ext != nil {
			if oa.ext == ob.ext {
				return true
			}
			da, ok1 := oa.ext.(*MapData)
			db, ok2 := ob.ext.(*MapData)
			if ok1 && ok2 {
				if len(da.ents) != len(db.ents) || da.live != db.live || da.vt == nil {
					return false
				}
				for i := range da.ents {
					x, y := da.ents[i], db.ents[i]
					if x.del != y.del || !sameVal(x.key, y.key) {
						return false
					}
					if x.del || sameVal(x.val, y.val) {
						continue
					}
					v, ok := m.typed(x.val, y.val, da.vt)
					if !ok {
						return false
					}
					mups = append(mups, mapUpd{k, i, v})
				}
				return true
			}
			return false
		}
		if oa.n != ob.n {
			return false
		}
		for c := range oa.chunks {
			ca, cb := oa.chunks[c], ob.chunks[c]
			if ca == cb {
				continue
			}
			base := c * chunkSize
			n := oa.n - base
			if n > chunkSize {
				n = chunkSize
			}
			for i := 0; i < n; i++ {
				x, y := oa.get(base+i), ob.get(base+i)
				if sameVal(x, y) {
					continue
				}
				v, ok := m.cell(x, y, oa.lay.widthAt((base+i)%oa.lay.size))
				if !ok {
					return false
				}
				cups = append(cups, cellUpd{k, base + i, v})
			}
		}
		return true
	})
	if !ok {
		return false
	}
	// commit into a
	e.stats.Merges++
	for _, ad := range ads {
		a.heap.set(a.tok, ad.k, ad.v)
	}
	for _, c := range cups {
		a.setCell(a.wobj(c.obj), c.i, c.v)
	}
	for _, c := range mups {
		a.wmapData(MapRef{c.obj}).ents[c.i].val = c.v
	}
	for _, u := range upd {
		a.wframe(a.cur, u.fi).env[u.reg] = u.v
	}
	mdl := a.model
	if mdl == nil {
		mdl = b.model
	}
	a.pc = a.pc[:prePC:prePC]
	a.known = known
	a.dom = dom
	a.tok = &owner{}
	dis := ts.Or(gA, gB)
	a.assume(dis)
	a.model = mdl
	if b.steps > a.steps {
		a.steps = b.steps
	}
	for _, r := range b.reached {
		a.reached = append(a.reached[:len(a.reached):len(a.reached)], r)
	}
	return true
}

func (fi *FnInfo) regTypes() []types.Type {
	fi.tonce.Do(func() {
		fi.rtypes = make([]types.Type, fi.nregs)
		for v, r := range fi.reg {
			fi.rtypes[r] = v.Type()
		}
	})
	return fi.rtypes
}

package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// RV is the content of a reflect.Value: a value of type t, or an addressable location.
type RV struct {
	t    types.Type
	addr bool
	p    Ptr
	v    Value
	ro   bool
}

func mkRV(r *RV) Value { return Agg{r, Ptr{}, K(0)} }

var invalidRV = Agg{Ptr{}, Ptr{}, K(0)}

func (c *ictx) rv(i int) *RV {
	if a, ok := c.args[i].(Agg); ok && len(a) == 3 {
		if r, ok := a[0].(*RV); ok {
			return r
		}
	}
	return nil
}

func (c *ictx) rvOK(i int, m string) *RV {
	r := c.rv(i)
	if r == nil {
		panic(goPanic{msg: "reflect: call of reflect.Value." + m + " on zero Value", rt: true})
	}
	return r
}

func (c *ictx) get(r *RV) Value {
	if r.addr {
		return c.s.load(r.p, layoutOf(r.t))
	}
	return r.v
}

func (c *ictx) getU(r *RV) Value {
	v := c.get(r)
	if u, ok := v.(*Union); ok {
		for i, a := range u.alts {
			if i == len(u.alts)-1 || c.e.decide(c.s, val(a.g)) {
				return a.v
			}
		}
	}
	return v
}

func rtKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (c *ictx) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{c.e.rtypeT, canon(t)}
}

func (c *ictx) typ(i int) types.Type {
	v := c.args[i]
	if x, ok := v.(Iface); ok {
		if x.t == nil {
			panic(nilDeref())
		}
		v = x.v
	}
	t, ok := v.(types.Type)
	if !ok {
		panic(unsup(fmt.Sprintf("reflect type operand %T", v)))
	}
	return t
}

func (c *ictx) toIface(r *RV) Value {
	v := c.get(r)
	if types.IsInterface(r.t) {
		return v
	}
	return Iface{canon(r.t), v}
}

// assignTo converts value v of type vt for storage in a location of type t.
func (c *ictx) assignTo(r *RV, t types.Type) Value {
	v := c.get(r)
	if types.IsInterface(t) {
		if types.IsInterface(r.t) {
			return v
		}
		return Iface{canon(r.t), v}
	}
	if canon(r.t) != canon(t) && !types.AssignableTo(r.t, t) {
		panic(goPanic{msg: "reflect.Set: value of type " + r.t.String() + " is not assignable to type " + t.String(), rt: true})
	}
	return v
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return strings.ReplaceAll(s, "]any", "]interface {}")
}

func (c *ictx) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	idx := Slice{c.s.newObj(layoutOf(types.Typ[types.Int]), 1), 0, 1, 1}
	c.s.setCell(c.s.wobj(idx.obj), 0, K(uint64(i)))
	return Agg{f.Name(), pkg, c.rtype(f.Type()), st.Tag(i), K(0), idx, boolV(f.Anonymous())}
}

func (c *ictx) field(r *RV, i int) *RV {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		panic(goPanic{msg: "reflect: call of reflect.Value.Field on " + rtKind(r.t).String() + " Value", rt: true})
	}
	l := layoutOf(r.t)
	f := st.Field(i)
	ro := r.ro || !f.Exported()
	if r.addr {
		return &RV{t: f.Type(), addr: true, p: Ptr{r.p.obj, r.p.off + l.offs[i]}, ro: ro}
	}
	return &RV{t: f.Type(), v: aggSub(r.v.(Agg), l.offs[i], l.flds[i]), ro: ro}
}

func (c *ictx) isZero(t types.Type, v Value) Value {
	e := c.e
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return boolV(v.(Slice).obj == 0)
	case *types.Map:
		return e.eqRef(v, MapRef{})
	case *types.Pointer, *types.Chan:
		return e.eqRef(v, zeroOf(t))
	case *types.Signature:
		_, ok := v.(NilFunc)
		return boolV(ok)
	case *types.Interface:
		if x, ok := v.(Iface); ok {
			return boolV(x.t == nil)
		}
		panic(unsup("isZero of merged interface"))
	case *types.Struct:
		l := layoutOf(t)
		var r Value = K(1)
		for i := 0; i < u.NumFields(); i++ {
			r = e.and(r, c.isZero(u.Field(i).Type(), aggSub(v.(Agg), l.offs[i], l.flds[i])))
		}
		return r
	case *types.Basic:
		if f := isFloat(t); f {
			w, _, _ := width(t)
			return e.eqScalar(v, K(0), w)
		}
	}
	return e.eqVal(t, v, zeroOf(t))
}

func init() {
	in := intrinsics
	in["reflect.TypeOf"] = func(c *ictx) Value {
		x, ok := c.args[0].(Iface)
		if !ok {
			panic(unsup("reflect.TypeOf merged value"))
		}
		return c.rtype(x.t)
	}
	in["reflect.ValueOf"] = func(c *ictx) Value {
		x, ok := c.args[0].(Iface)
		if !ok {
			panic(unsup("reflect.ValueOf merged value"))
		}
		if x.t == nil {
			return invalidRV
		}
		return mkRV(&RV{t: x.t, v: x.v})
	}
	in["reflect.New"] = func(c *ictx) Value {
		t := c.typ(0)
		return mkRV(&RV{t: canon(types.NewPointer(t)), v: Ptr{c.s.newObj(layoutOf(t), 1), 0}})
	}
	in["reflect.Zero"] = func(c *ictx) Value {
		t := c.typ(0)
		return mkRV(&RV{t: t, v: zeroOf(t)})
	}
	in["reflect.MakeSlice"] = func(c *ictx) Value {
		t := c.typ(0)
		n, m := c.int(1), c.int(2)
		el := t.Underlying().(*types.Slice).Elem()
		return mkRV(&RV{t: t, v: Slice{c.s.newObj(layoutOf(el), m), 0, n, m}})
	}
	mkmap := func(c *ictx) Value {
		t := c.typ(0)
		return mkRV(&RV{t: t, v: MapRef{c.s.newExt(&MapData{vt: t.Underlying().(*types.Map).Elem()})}})
	}
	in["reflect.MakeMap"] = mkmap
	in["reflect.MakeMapWithSize"] = mkmap
	in["reflect.Append"] = func(c *ictx) Value {
		r := c.rvOK(0, "Append")
		el := r.t.Underlying().(*types.Slice).Elem()
		l := layoutOf(el)
		sl := c.get(r).(Slice)
		xs := c.e.sliceCells3(c.s, c.args[1].(Slice), 3)
		n := sl.len + len(xs)
		if n > sl.cap {
			m := 2 * n
			no := c.s.newObj(l, m)
			o := c.s.wobj(no)
			if sl.obj != 0 {
				old := c.s.obj(sl.obj)
				for i := 0; i < sl.len*l.size; i++ {
					c.s.setCell(o, i, old.get(sl.off+i))
				}
			}
			sl = Slice{no, 0, sl.len, m}
		}
		for i, x := range xs {
			cc := &ictx{e: c.e, s: c.s, args: []Value{x}}
			v := cc.assignTo(cc.rvOK(0, "Append"), el)
			c.s.store(Ptr{sl.obj, sl.off + (sl.len+i)*l.size}, l, v)
		}
		sl.len = n
		return mkRV(&RV{t: r.t, v: sl})
	}
	in["reflect.Indirect"] = func(c *ictx) Value {
		r := c.rvOK(0, "Indirect")
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			q := c.getU(r).(Ptr)
			if q.obj == 0 {
				return invalidRV
			}
			return mkRV(&RV{t: p.Elem(), addr: true, p: q})
		}
		return c.args[0]
	}
	in["reflect.PtrTo"] = func(c *ictx) Value { return c.rtype(types.NewPointer(c.typ(0))) }
	in["reflect.PointerTo"] = in["reflect.PtrTo"]
	in["reflect.SliceOf"] = func(c *ictx) Value { return c.rtype(types.NewSlice(c.typ(0))) }

	m := func(n string, f func(c *ictx, r *RV) Value) {
		in["(reflect.Value)."+n] = func(c *ictx) Value { return f(c, c.rvOK(0, n)) }
	}
	in["(reflect.Value).IsValid"] = func(c *ictx) Value { return boolV(c.rv(0) != nil) }
	in["(reflect.Value).Kind"] = func(c *ictx) Value {
		r := c.rv(0)
		if r == nil {
			return K(0)
		}
		return K(uint64(rtKind(r.t)))
	}
	m("Type", func(c *ictx, r *RV) Value { return c.rtype(r.t) })
	m("Interface", func(c *ictx, r *RV) Value { return c.toIface(r) })
	m("CanInterface", func(c *ictx, r *RV) Value { return boolV(!r.ro) })
	m("CanAddr", func(c *ictx, r *RV) Value { return boolV(r.addr) })
	m("CanSet", func(c *ictx, r *RV) Value { return boolV(r.addr && !r.ro) })
	m("Addr", func(c *ictx, r *RV) Value {
		if !r.addr {
			panic(goPanic{msg: "reflect.Value.Addr of unaddressable value", rt: true})
		}
		return mkRV(&RV{t: canon(types.NewPointer(r.t)), v: r.p, ro: r.ro})
	})
	m("Elem", func(c *ictx, r *RV) Value {
		v := c.getU(r)
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := v.(Ptr)
			if !ok {
				panic(unsup("reflect Elem of symbolic pointer"))
			}
			if p.obj == 0 {
				return invalidRV
			}
			return mkRV(&RV{t: u.Elem(), addr: true, p: p, ro: r.ro})
		case *types.Interface:
			x := v.(Iface)
			if x.t == nil {
				return invalidRV
			}
			return mkRV(&RV{t: x.t, v: x.v, ro: r.ro})
		}
		panic(goPanic{msg: "reflect: call of reflect.Value.Elem on " + rtKind(r.t).String() + " Value", rt: true})
	})
	m("NumField", func(c *ictx, r *RV) Value { return K(uint64(r.t.Underlying().(*types.Struct).NumFields())) })
	m("Field", func(c *ictx, r *RV) Value { return mkRV(c.field(r, c.int(1))) })
	m("FieldByName", func(c *ictx, r *RV) Value {
		st := r.t.Underlying().(*types.Struct)
		n := c.str(1)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return mkRV(c.field(r, i))
			}
		}
		return invalidRV
	})
	m("Len", func(c *ictx, r *RV) Value {
		if a, ok := r.t.Underlying().(*types.Array); ok {
			return K(uint64(a.Len()))
		}
		return c.e.lenOf(c.s, c.getU(r))
	})
	m("Cap", func(c *ictx, r *RV) Value { return K(uint64(c.getU(r).(Slice).cap)) })
	m("Index", func(c *ictx, r *RV) Value {
		i := c.int(1)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			sl := c.getU(r).(Slice)
			if i < 0 || i >= sl.len {
				panic(goPanic{msg: "reflect: slice index out of range", rt: true})
			}
			l := layoutOf(u.Elem())
			return mkRV(&RV{t: u.Elem(), addr: true, p: Ptr{sl.obj, sl.off + i*l.size}, ro: r.ro})
		case *types.Array:
			l := layoutOf(u.Elem())
			if int64(i) >= u.Len() {
				panic(goPanic{msg: "reflect: array index out of range", rt: true})
			}
			if r.addr {
				return mkRV(&RV{t: u.Elem(), addr: true, p: Ptr{r.p.obj, r.p.off + i*l.size}, ro: r.ro})
			}
			return mkRV(&RV{t: u.Elem(), v: aggSub(r.v.(Agg), i*l.size, l), ro: r.ro})
		case *types.Basic:
			return mkRV(&RV{t: types.Typ[types.Uint8], v: strAt(c.get(r), i)})
		}
		panic(unsup("reflect Index"))
	})
	m("IsNil", func(c *ictx, r *RV) Value {
		v := c.getU(r)
		switch x := v.(type) {
		case Ptr:
			return boolV(x.obj == 0)
		case Slice:
			return boolV(x.obj == 0)
		case MapRef:
			return boolV(x.obj == 0)
		case ChanRef:
			return boolV(x.obj == 0)
		case NilFunc:
			return K(1)
		case *Closure:
			return K(0)
		case Iface:
			return boolV(x.t == nil)
		}
		if rtKind(r.t) == reflect.Func {
			return K(0)
		}
		panic(goPanic{msg: "reflect: call of reflect.Value.IsNil on " + rtKind(r.t).String() + " Value", rt: true})
	})
	m("IsZero", func(c *ictx, r *RV) Value { return c.isZero(r.t, c.get(r)) })
	m("Bool", func(c *ictx, r *RV) Value { return c.get(r) })
	m("Int", func(c *ictx, r *RV) Value { return c.e.convNum(r.t, types.Typ[types.Int64], c.get(r)) })
	m("Uint", func(c *ictx, r *RV) Value { return c.e.convNum(r.t, types.Typ[types.Uint64], c.get(r)) })
	m("Float", func(c *ictx, r *RV) Value { return c.e.convNum(r.t, types.Typ[types.Float64], c.get(r)) })
	in["(reflect.Value).String"] = func(c *ictx) Value {
		r := c.rv(0)
		if r == nil {
			return "<invalid Value>"
		}
		if rtKind(r.t) == reflect.String {
			return c.get(r)
		}
		return "<" + typeStr(r.t) + " Value>"
	}
	m("Bytes", func(c *ictx, r *RV) Value { return c.get(r) })
	m("Pointer", func(c *ictx, r *RV) Value {
		switch x := c.getU(r).(type) {
		case Ptr:
			return K(uint64(x.obj)<<20 | uint64(x.off))
		case MapRef:
			return K(uint64(x.obj) << 20)
		case Slice:
			return K(uint64(x.obj)<<20 | uint64(x.off))
		}
		panic(unsup("reflect Pointer"))
	})
	m("Set", func(c *ictx, r *RV) Value {
		if !r.addr {
			panic(goPanic{msg: "reflect: reflect.Value.Set using unaddressable value", rt: true})
		}
		x := c.rvOK(1, "Set")
		c.s.store(r.p, layoutOf(r.t), c.assignTo(x, r.t))
		return nil
	})
	set := func(n string, from types.Type) {
		m(n, func(c *ictx, r *RV) Value {
			if !r.addr {
				panic(goPanic{msg: "reflect: reflect.Value." + n + " using unaddressable value", rt: true})
			}
			v := c.args[1]
			if from != nil {
				v = c.e.convNum(from, r.t, v)
			}
			c.s.store(r.p, layoutOf(r.t), v)
			return nil
		})
	}
	set("SetString", nil)
	set("SetBool", nil)
	set("SetBytes", nil)
	set("SetInt", types.Typ[types.Int64])
	set("SetUint", types.Typ[types.Uint64])
	set("SetFloat", types.Typ[types.Float64])
	m("SetLen", func(c *ictx, r *RV) Value {
		sl := c.get(r).(Slice)
		sl.len = c.int(1)
		c.s.store(r.p, layoutOf(r.t), sl)
		return nil
	})
	m("OverflowInt", func(c *ictx, r *RV) Value {
		x := c.e.convNum(types.Typ[types.Int64], r.t, c.args[1])
		return c.e.not(c.e.eqScalar(c.e.convNum(r.t, types.Typ[types.Int64], x), c.args[1], 64))
	})
	m("OverflowUint", func(c *ictx, r *RV) Value {
		x := c.e.convNum(types.Typ[types.Uint64], r.t, c.args[1])
		return c.e.not(c.e.eqScalar(c.e.convNum(r.t, types.Typ[types.Uint64], x), c.args[1], 64))
	})
	m("MapKeys", func(c *ictx, r *RV) Value {
		mr := c.getU(r).(MapRef)
		var keys []Value
		if mr.obj != 0 {
			for _, en := range c.s.mapData(mr).ents {
				if !en.del {
					keys = append(keys, en.key)
				}
			}
		}
		kt := r.t.Underlying().(*types.Map).Key()
		rvt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		l := layoutOf(rvt)
		o := c.s.newObj(l, len(keys))
		for i, k := range keys {
			c.s.store(Ptr{o, i * l.size}, l, mkRV(&RV{t: kt, v: k}))
		}
		return Slice{o, 0, len(keys), len(keys)}
	})
	m("MapIndex", func(c *ictx, r *RV) Value {
		mt := r.t.Underlying().(*types.Map)
		mr := c.getU(r).(MapRef)
		i := c.e.mapFind(c.s, mr, mt.Key(), c.assignTo(c.rvOK(1, "MapIndex"), mt.Key()))
		if i < 0 {
			return invalidRV
		}
		return mkRV(&RV{t: mt.Elem(), v: c.s.mapData(mr).ents[i].val})
	})
	m("SetMapIndex", func(c *ictx, r *RV) Value {
		mt := r.t.Underlying().(*types.Map)
		mr := c.getU(r).(MapRef)
		if mr.obj == 0 {
			panic(goPanic{msg: "assignment to entry in nil map", rt: true})
		}
		k := c.assignTo(c.rvOK(1, "SetMapIndex"), mt.Key())
		x := c.rv(2)
		if x == nil {
			c.e.mapDelete(c.s, mr, mt.Key(), k)
			return nil
		}
		c.e.mapSet(c.s, mr, mt.Key(), k, c.assignTo(x, mt.Elem()))
		return nil
	})
	m("NumMethod", func(c *ictx, r *RV) Value {
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return K(uint64(it.NumMethods()))
		}
		return K(uint64(types.NewMethodSet(r.t).Len()))
	})
	m("Slice", func(c *ictx, r *RV) Value {
		sl := c.getU(r).(Slice)
		i, j := c.int(1), c.int(2)
		l := layoutOf(r.t.Underlying().(*types.Slice).Elem())
		return mkRV(&RV{t: r.t, v: Slice{sl.obj, sl.off + i*l.size, j - i, sl.cap - i}})
	})
	m("Convert", func(c *ictx, r *RV) Value {
		t := c.typ(1)
		return mkRV(&RV{t: t, v: c.e.convert(c.s, r.t, t, c.get(r))})
	})

	tm := func(n string, f func(c *ictx, t types.Type) Value) {
		in["(*reflect.rtype)."+n] = func(c *ictx) Value { return f(c, c.typ(0)) }
	}
	tm("Kind", func(c *ictx, t types.Type) Value { return K(uint64(rtKind(t))) })
	tm("String", func(c *ictx, t types.Type) Value { return typeStr(t) })
	tm("Name", func(c *ictx, t types.Type) Value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	})
	tm("PkgPath", func(c *ictx, t types.Type) Value {
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	})
	tm("Elem", func(c *ictx, t types.Type) Value {
		if x, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return c.rtype(x.Elem())
		}
		panic(goPanic{msg: "reflect: Elem of invalid type", rt: true})
	})
	tm("Key", func(c *ictx, t types.Type) Value { return c.rtype(t.Underlying().(*types.Map).Key()) })
	tm("Len", func(c *ictx, t types.Type) Value { return K(uint64(t.Underlying().(*types.Array).Len())) })
	tm("NumField", func(c *ictx, t types.Type) Value { return K(uint64(t.Underlying().(*types.Struct).NumFields())) })
	tm("Field", func(c *ictx, t types.Type) Value { return c.structField(t.Underlying().(*types.Struct), c.int(1)) })
	tm("Implements", func(c *ictx, t types.Type) Value {
		return boolV(c.e.implements(t, c.typ(1).Underlying().(*types.Interface)))
	})
	tm("AssignableTo", func(c *ictx, t types.Type) Value { return boolV(types.AssignableTo(t, c.typ(1))) })
	tm("ConvertibleTo", func(c *ictx, t types.Type) Value { return boolV(types.ConvertibleTo(t, c.typ(1))) })
	tm("Comparable", func(c *ictx, t types.Type) Value { return boolV(types.Comparable(t)) })
	tm("NumMethod", func(c *ictx, t types.Type) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return K(uint64(it.NumMethods()))
		}
		return K(uint64(types.NewMethodSet(t).Len()))
	})
	in["reflect.DeepEqual"] = func(c *ictx) Value {
		return c.deepIface(c.args[0], c.args[1], 0)
	}
	in["internal/reflectlite.TypeOf"] = func(c *ictx) Value { panic(unsup("reflectlite.TypeOf")) }
}

// sliceCells3 loads a slice of reflect.Value.
func (e *Engine) sliceCells3(s *State, sl Slice, sz int) []Value {
	var r []Value
	if sl.len == 0 {
		return nil
	}
	o := s.obj(sl.obj)
	for i := 0; i < sl.len; i++ {
		a := make(Agg, sz)
		for j := range a {
			a[j] = o.get(sl.off + i*sz + j)
		}
		r = append(r, a)
	}
	return r
}

func (c *ictx) deepIface(a, b Value, d int) Value {
	if u, ok := a.(*Union); ok {
		a = c.pickAlt(u)
	}
	if u, ok := b.(*Union); ok {
		b = c.pickAlt(u)
	}
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 {
		panic(unsup("DeepEqual operand"))
	}
	if x.t == nil || y.t == nil {
		return boolV(x.t == nil && y.t == nil)
	}
	if canon(x.t) != canon(y.t) {
		return K(0)
	}
	return c.deep(x.t, x.v, y.v, d+1)
}

func (c *ictx) pickAlt(u *Union) Value {
	for i, a := range u.alts {
		if i == len(u.alts)-1 || c.e.decide(c.s, val(a.g)) {
			return a.v
		}
	}
	return nil
}

func (c *ictx) deep(t types.Type, a, b Value, d int) Value {
	e := c.e
	if d > 60 {
		panic(unsup("DeepEqual recursion"))
	}
	if u, ok := a.(*Union); ok {
		a = c.pickAlt(u)
	}
	if u, ok := b.(*Union); ok {
		b = c.pickAlt(u)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			panic(unsup("DeepEqual pointer"))
		}
		if x == y {
			return K(1)
		}
		if x.obj == 0 || y.obj == 0 {
			return K(0)
		}
		l := layoutOf(u.Elem())
		return c.deep(u.Elem(), c.s.load(x, l), c.s.load(y, l), d+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x.obj == 0) != (y.obj == 0) || x.len != y.len {
			return K(0)
		}
		if x.obj == y.obj && x.off == y.off {
			return K(1)
		}
		l := layoutOf(u.Elem())
		var r Value = K(1)
		for i := 0; i < x.len && r != K(0); i++ {
			r = e.and(r, c.deep(u.Elem(), c.s.load(Ptr{x.obj, x.off + i*l.size}, l), c.s.load(Ptr{y.obj, y.off + i*l.size}, l), d+1))
		}
		return r
	case *types.Array:
		l := layoutOf(u.Elem())
		var r Value = K(1)
		for i := 0; i < int(u.Len()) && r != K(0); i++ {
			r = e.and(r, c.deep(u.Elem(), aggSub(a.(Agg), i*l.size, l), aggSub(b.(Agg), i*l.size, l), d+1))
		}
		return r
	case *types.Struct:
		l := layoutOf(t)
		var r Value = K(1)
		for i := 0; i < u.NumFields() && r != K(0); i++ {
			r = e.and(r, c.deep(u.Field(i).Type(), aggSub(a.(Agg), l.offs[i], l.flds[i]), aggSub(b.(Agg), l.offs[i], l.flds[i]), d+1))
		}
		return r
	case *types.Map:
		x, ok1 := a.(MapRef)
		y, ok2 := b.(MapRef)
		if !ok1 || !ok2 {
			panic(unsup("DeepEqual map"))
		}
		if x == y {
			return K(1)
		}
		if x.obj == 0 || y.obj == 0 {
			return K(0)
		}
		dx := c.s.mapData(x)
		if dx.live != c.s.mapData(y).live {
			return K(0)
		}
		var r Value = K(1)
		for _, en := range dx.ents {
			if en.del {
				continue
			}
			i := e.mapFind(c.s, y, u.Key(), en.key)
			if i < 0 {
				return K(0)
			}
			r = e.and(r, c.deep(u.Elem(), en.val, c.s.mapData(y).ents[i].val, d+1))
			if r == K(0) {
				return r
			}
		}
		return r
	case *types.Interface:
		return c.deepIface(a, b, d+1)
	case *types.Signature:
		_, o1 := a.(NilFunc)
		_, o2 := b.(NilFunc)
		return boolV(o1 && o2)
	}
	return e.eqVal(t, a, b)
}

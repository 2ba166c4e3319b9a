package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the content of one register or memory cell.
//
//	K         concrete scalar (bool, integers masked to width, float bits)
//	*Term     symbolic scalar
//	string    concrete string
//	*SStr     string with concrete length and (some) symbolic bytes
//	Ptr, Slice, MapRef, ChanRef, *Closure, *ssa.Function, *ssa.Builtin, Iface
//	Agg       flattened struct/array value
//	Tuple     multiple results
//	*Union    guarded alternatives (merged states)
//	*Poison   result of something the engine does not model
//	native    anything else (reflect.Type etc.)
type Value interface{}

type K uint64

type SStr struct{ b []Value }

type Ptr struct {
	obj int
	off int
}

type Slice struct {
	obj, off, len, cap int
}

type MapRef struct{ obj int }
type ChanRef struct{ obj int }

type Closure struct {
	fn   *ssa.Function
	bind []Value
}

type NilFunc struct{}

type Iface struct {
	t types.Type
	v Value
}

type Agg []Value
type Tuple []Value

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

type Poison struct{ why string }

// complex numbers
type Cplx struct{ re, im Value }

type MapIter struct {
	keys []Value
	vals []Value
	pos  int
	obj  int
	str  Value // string iteration
	isS  bool
}

// ---- types ----

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonC   sync.Map
)

// canon returns a canonical representative for identical types.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonC.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	if c := canonMap.At(u); c != nil {
		canonC.Store(t, c.(types.Type))
		return c.(types.Type)
	}
	canonMap.Set(u, u)
	canonC.Store(t, u)
	return u
}

type Layout struct {
	agg  bool
	size int
	zero []Value
	elem *Layout // arrays
	n    int
	offs []int // struct field offsets
	flds []*Layout
	w    uint8 // scalar cells: bit width (0 bool); 255 = reference-like cell
}

// widthAt gives the scalar width of cell i (255 for non-scalars).
func (l *Layout) widthAt(i int) uint8 {
	if !l.agg {
		return l.w
	}
	if l.elem != nil {
		return l.elem.widthAt(i % l.elem.size)
	}
	for j := len(l.offs) - 1; j >= 0; j-- {
		if i >= l.offs[j] && l.flds[j].size > 0 {
			return l.flds[j].widthAt(i - l.offs[j])
		}
	}
	return 255
}

func (l *Layout) zeroAt(i int) Value {
	if l.zero != nil {
		return l.zero[i]
	}
	if l.elem != nil {
		return l.elem.zeroAt(i % l.elem.size)
	}
	for j := len(l.offs) - 1; j >= 0; j-- {
		if i >= l.offs[j] && l.flds[j].size > 0 {
			return l.flds[j].zeroAt(i - l.offs[j])
		}
	}
	panic("zeroAt")
}

var layoutCache sync.Map
var layoutMu sync.Mutex

func layoutOf(t types.Type) *Layout {
	if l, ok := layoutCache.Load(t); ok {
		return l.(*Layout)
	}
	l := buildLayout(t)
	layoutCache.Store(t, l)
	return l
}

func scalarLayout(z Value) *Layout { return &Layout{size: 1, zero: []Value{z}, w: 255} }

func buildLayout(t types.Type) *Layout {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return scalarLayout("")
		case u.Kind() == types.UnsafePointer:
			return scalarLayout(Ptr{})
		case u.Info()&types.IsComplex != 0:
			return scalarLayout(Cplx{K(0), K(0)})
		case u.Kind() == types.UntypedNil:
			return scalarLayout(Ptr{})
		}
		l := scalarLayout(K(0))
		l.w, _, _ = width(t)
		return l
	case *types.Pointer:
		return scalarLayout(Ptr{})
	case *types.Slice:
		return scalarLayout(Slice{})
	case *types.Map:
		return scalarLayout(MapRef{})
	case *types.Chan:
		return scalarLayout(ChanRef{})
	case *types.Signature:
		return scalarLayout(NilFunc{})
	case *types.Interface:
		return scalarLayout(Iface{})
	case *types.Struct:
		l := &Layout{agg: true}
		for i := 0; i < u.NumFields(); i++ {
			f := layoutOf(u.Field(i).Type())
			l.offs = append(l.offs, l.size)
			l.flds = append(l.flds, f)
			l.size += f.size
		}
		if l.size <= 512 {
			l.zero = make([]Value, 0, l.size)
			for _, f := range l.flds {
				for j := 0; j < f.size; j++ {
					l.zero = append(l.zero, f.zeroAt(j))
				}
			}
		}
		return l
	case *types.Array:
		e := layoutOf(u.Elem())
		n := int(u.Len())
		l := &Layout{agg: true, elem: e, n: n, size: e.size * n}
		if l.size <= 64 {
			l.zero = make([]Value, 0, l.size)
			for i := 0; i < l.size; i++ {
				l.zero = append(l.zero, e.zeroAt(i%e.size))
			}
		}
		return l
	case *types.Tuple:
		return &Layout{size: 1, zero: []Value{Tuple(nil)}}
	case *types.TypeParam:
		panic(unsup("type parameter layout"))
	}
	panic(unsup(fmt.Sprintf("layout of %s", t)))
}

func zeroOf(t types.Type) Value {
	l := layoutOf(t)
	if !l.agg {
		return l.zero[0]
	}
	a := make(Agg, l.size)
	for i := range a {
		a[i] = l.zeroAt(i)
	}
	return a
}

// width returns bit width and signedness of a scalar basic type (0 for bool).
func width(t types.Type) (w uint8, signed, float bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false
	case types.Int8:
		return 8, true, false
	case types.Uint8:
		return 8, false, false
	case types.Int16:
		return 16, true, false
	case types.Uint16:
		return 16, false, false
	case types.Int32, types.UntypedRune:
		return 32, true, false
	case types.Uint32:
		return 32, false, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false
	case types.Float32:
		return 32, true, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true
	}
	return 64, false, false
}

func isFloat(t types.Type) bool { _, _, f := width(t); return f }

// ---- strings ----

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	}
	panic(unsup(fmt.Sprintf("strLen of %T", v)))
}

func strAt(v Value, i int) Value {
	switch x := v.(type) {
	case string:
		return K(x[i])
	case *SStr:
		return x.b[i]
	}
	panic(unsup(fmt.Sprintf("strAt of %T", v)))
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(K); !ok {
			return &SStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(K))
	}
	return string(bs)
}

func strSub(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SStr:
		return mkStr(x.b[lo:hi:hi])
	}
	panic(unsup(fmt.Sprintf("strSub of %T", v)))
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = K(x[i])
		}
		return r
	case *SStr:
		return x.b
	}
	panic(unsup(fmt.Sprintf("strBytes of %T", v)))
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return &SStr{r}
}

// ---- keys for concrete map lookup ----

func ckey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case K:
		sb.WriteByte('k')
		sb.WriteString(strconv.FormatUint(uint64(x), 36))
	case string:
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(x)))
		sb.WriteByte(':')
		sb.WriteString(x)
	case Ptr:
		sb.WriteByte('p')
		sb.WriteString(strconv.Itoa(x.obj))
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(x.off))
	case ChanRef:
		sb.WriteByte('c')
		sb.WriteString(strconv.Itoa(x.obj))
	case Iface:
		if x.t == nil {
			sb.WriteByte('n')
			return true
		}
		sb.WriteByte('i')
		fmt.Fprintf(sb, "%p", canon(x.t))
		return ckey(x.v, sb)
	case Agg:
		sb.WriteByte('a')
		for _, c := range x {
			if !ckey(c, sb) {
				return false
			}
			sb.WriteByte(',')
		}
	case types.Type:
		sb.WriteByte('t')
		fmt.Fprintf(sb, "%p", canon(x))
	default:
		return false
	}
	return true
}

func ckeyStr(v Value) (string, bool) {
	if s, ok := v.(string); ok {
		return s, true
	}
	var sb strings.Builder
	sb.WriteByte(0)
	if ckey(v, &sb) {
		return sb.String(), true
	}
	return "", false
}

// ---- unsupported ----

type unsupported struct{ why string }

func unsup(why string) unsupported { return unsupported{why} }

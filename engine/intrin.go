package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type ictx struct {
	e    *Engine
	s    *State
	args []Value
	fn   *ssa.Function
	ci   *cins
}

type Intr func(c *ictx) Value

type nativeFn struct {
	name string
	f    Intr
}

var intrinsics = map[string]Intr{}

// packages whose functions (and initialisers) are replaced by no-ops returning zero values
var stubPrefixes = []string{
	"github.com/ipfs/go-log", "go.uber.org/zap", "log", "github.com/opentracing/opentracing-go",
	"github.com/gogo/protobuf", "github.com/golang/protobuf",
}

// packages whose initialiser is skipped entirely
var skipInit = []string{
	"runtime", "internal/abi", "internal/bytealg", "internal/cpu", "internal/goarch", "internal/poll", "internal/godebug", "internal/godebugs", "internal/reflectlite", "internal/syscall", "internal/testlog", "internal/runtime", "internal/race", "internal/sync", "internal/bisect", "internal/oserror", "internal/fmtsort", "net", "crypto", "os", "syscall", "vendor/", "golang.org/x/crypto", "golang.org/x/net", "testing", "go/", "debug/", "expvar",
	"encoding/gob", "encoding/xml", "text/template", "html/template", "compress/", "hash/", "archive/", "image", "database/", "mime", "flag", "plugin",
	"github.com/multiformats", "github.com/libp2p", "github.com/btcsuite", "github.com/minio", "github.com/360EntSecGroup-Skylar", "golang.org/x/sys", "golang.org/x/text",
	"github.com/ipfs", "github.com/gogo", "github.com/jbenet", "github.com/ugorji", "github.com/klauspost", "lukechampine", "github.com/spaolacci",
	"github.com/mitchellh", "github.com/golang", "google.golang.org", "encoding/json", "github.com/google/go-cmp", "sync", "reflect", "weak", "unique", "iter", "maps", "log", "go.uber.org", "github.com/opentracing",
}

// stubbedMod is the module replaced by stand-ins, which is run like any other code.
var stubbedMod string

func hasPkgPrefix(path string, list []string) bool {
	if stubbedMod != "" && (path == stubbedMod || strings.HasPrefix(path, stubbedMod+"/")) {
		return false
	}
	for _, p := range list {
		if path == p || strings.HasPrefix(path, strings.TrimSuffix(p, "/")+"/") || (strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)) {
			return true
		}
		if strings.Contains(p, ".") && strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// intrinsic resolves the native implementation of fn, or nil.
func (e *Engine) intrinsic(fn *ssa.Function) Intr {
	if i, ok := e.intrCache[fn]; ok {
		return i
	}
	var r Intr
	n := fnName(fn)
	if x, ok := intrinsics[n]; ok {
		r = x
	} else if e.Base.models[n] != nil {
		r = nil
	} else {
		p := fnPkgPath(fn)
		if fn.Synthetic == "package initializer" && p != "net/url" && hasPkgPrefix(p, skipInit) {
			r = func(*ictx) Value { return nil }
		} else if hasPkgPrefix(p, stubPrefixes) {
			r = stubZero
		} else if len(fn.Blocks) == 0 {
			r = func(c *ictx) Value { panic(unsup("no body: " + n)) }
		}
	}
	e.intrCache[fn] = r
	return r
}

func (e *Engine) model(fn *ssa.Function) *ssa.Function { return e.Base.models[fnName(fn)] }

// stubZero returns zero results; pointers get a fresh zero object.
func stubZero(c *ictx) Value {
	res := c.fn.Signature.Results()
	mk := func(t types.Type) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return Ptr{c.s.newObj(layoutOf(p.Elem()), 1), 0}
		}
		return zeroOf(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = mk(res.At(i).Type())
	}
	return t
}

func (c *ictx) str(i int) string {
	switch x := c.args[i].(type) {
	case string:
		return x
	}
	panic(unsup("symbolic string argument"))
}

func (c *ictx) int(i int) int { return c.e.concInt(c.s, c.args[i]) }

func (c *ictx) fresh(kind string, w uint8) *Term {
	c.e.nvar++
	return c.e.ts.Var(fmt.Sprintf("%s%d", kind, c.e.nvar), w)
}

func nondet(kind string, w uint8) Intr {
	return func(c *ictx) Value {
		t := c.fresh(kind, w)
		c.s.addEvent(ndEvent{kind: kind, vals: []Value{t}, w: w})
		return t
	}
}

func (c *ictx) assume(v Value) {
	e, s := c.e, c.s
	switch x := v.(type) {
	case K:
		if x == 0 {
			panic(killPath{"assume"})
		}
	case *Term:
		ct, _, mt, _ := e.feasible(s, x)
		if !ct {
			panic(killPath{"assume"})
		}
		s.assume(x)
		s.model = mt
	default:
		panic(unsup(fmt.Sprintf("assume %T", v)))
	}
}

func init() {
	in := intrinsics
	in["verifh/v.Bool"] = nondet("bool", 0)
	in["verifh/v.Byte"] = nondet("byte", 8)
	in["verifh/v.Uint16"] = nondet("u16", 16)
	in["verifh/v.Uint32"] = nondet("u32", 32)
	in["verifh/v.Uint64"] = nondet("u64", 64)
	in["verifh/v.Int64"] = nondet("i64", 64)
	in["verifh/v.Float64"] = nondet("f64", 64)
	in["verifh/v.Int"] = func(c *ictx) Value {
		lo, hi := int64(c.int(0)), int64(c.int(1))
		t := c.fresh("int", 64)
		c.s.addEvent(ndEvent{kind: "int", vals: []Value{t}, w: 64})
		ts := c.e.ts
		c.assume(val(ts.And(ts.Bin(OpSLe, ts.Const(64, uint64(lo)), t), ts.Bin(OpSLe, t, ts.Const(64, uint64(hi))))))
		return t
	}
	in["verifh/v.Bytes"] = func(c *ictx) Value {
		n := c.int(0)
		b := make([]Value, n)
		for i := range b {
			b[i] = c.fresh("byte", 8)
		}
		c.s.addEvent(ndEvent{kind: "bytes", vals: b, w: 8})
		return c.e.mkByteSlice(c.s, b)
	}
	in["verifh/v.String"] = func(c *ictx) Value {
		n := c.int(0)
		b := make([]Value, n)
		for i := range b {
			b[i] = c.fresh("byte", 8)
		}
		c.s.addEvent(ndEvent{kind: "bytes", vals: b, w: 8})
		return mkStr(b)
	}
	in["verifh/v.Pick"] = func(c *ictx) Value {
		n := c.int(0)
		if n <= 0 {
			panic(killPath{"empty pick"})
		}
		k := c.e.chooseHidden(c.s, n)
		c.s.addEvent(ndEvent{kind: "pick", vals: []Value{K(uint64(k))}, w: 64})
		return K(uint64(k))
	}
	in["verifh/v.Case"] = func(c *ictx) Value {
		n := c.int(0)
		e := c.e
		i := c.s.caseIdx
		if i < len(e.job.Cases) {
			c.s.caseIdx++
			k := e.job.Cases[i]
			c.s.addEvent(ndEvent{kind: "pick", vals: []Value{K(uint64(k))}, w: 64})
			return K(uint64(k))
		}
		for k := 0; k < n; k++ {
			cs := append(append([]int(nil), e.job.Cases...), k)
			e.runner.push(&Job{Harness: e.job.Harness, Cases: cs, Tier: e.job.Tier})
		}
		e.caseAbort = true
		panic(killPath{"case split"})
	}
	in["verifh/v.Bound"] = func(c *ictx) Value {
		if c.e.job.Tier == "thorough" {
			return c.args[1]
		}
		return c.args[0]
	}
	in["verifh/v.Assume"] = func(c *ictx) Value { c.assume(c.args[0]); return nil }
	in["verifh/v.Assert"] = func(c *ictx) Value {
		e, s := c.e, c.s
		msg, _ := c.args[1].(string)
		switch x := c.args[0].(type) {
		case K:
			if x == 0 {
				e.candidate(s, "assert", msg, s.model)
				panic(killPath{"assert"})
			}
			e.stats.AssertTrivial++
		case *Term:
			e.stats.AssertChecks++
			r, m := e.query(s, e.ts.Not(x))
			switch r {
			case Sat:
				e.candidate(s, "assert", msg, m)
			case Unknown:
				e.stats.PathsInconclusive++
				e.stats.Inconclusive["solver unknown on assertion: "+msg]++
			}
			if r != Unsat {
				ct, _, mt, _ := e.feasible(s, x)
				if !ct {
					panic(killPath{"assert"})
				}
				s.assume(x)
				s.model = mt
			} else {
				s.learn(x, true)
			}
		default:
			panic(unsup(fmt.Sprintf("assert %T", x)))
		}
		return nil
	}
	in["verifh/v.Reach"] = func(c *ictx) Value {
		l := c.str(0)
		for _, r := range c.s.reached {
			if r == l {
				return nil
			}
		}
		c.s.reached = append(c.s.reached[:len(c.s.reached):len(c.s.reached)], l)
		return nil
	}
	in["verifh/v.Merge"] = func(c *ictx) Value { c.s.cfg.merge = c.int(0); return nil }
	in["verifh/v.MapPerm"] = func(c *ictx) Value { c.s.cfg.mapPerm = c.e.decide(c.s, c.args[0]); return nil }
	in["verifh/v.Sched"] = func(c *ictx) Value {
		c.s.cfg.sched = true
		c.s.cfg.maxPre = c.int(0)
		return nil
	}
	in["verifh/v.Steps"] = func(c *ictx) Value { c.e.maxSteps = c.int(0); return nil }
	in["verifh/v.Symbolic"] = func(c *ictx) Value { return K(1) }
	in["verifh/v.Conc"] = func(c *ictx) Value { return K(uint64(c.int(0))) }
	in["verifh/v.Unsupported"] = func(c *ictx) Value { panic(unsup(c.str(0))) }
	in["verifh/v.Stop"] = func(c *ictx) Value { panic(endPath{}) }
	in["verifh/v.And"] = func(c *ictx) Value { return c.e.and(c.args[0], c.args[1]) }
	in["verifh/v.Or"] = func(c *ictx) Value { return c.e.or(c.args[0], c.args[1]) }
	in["verifh/v.Ite"] = func(c *ictx) Value {
		switch x := c.args[0].(type) {
		case K:
			if x != 0 {
				return c.args[1]
			}
			return c.args[2]
		case *Term:
			return val(c.e.ts.Ite(x, c.e.term(c.args[1], 64), c.e.term(c.args[2], 64)))
		}
		panic(unsup("ite"))
	}
	in["verifh/v.Debug"] = func(c *ictx) Value {
		if c.e.verbose {
			fmt.Println("DEBUG", c.str(0), c.e.where(c.s))
		}
		return nil
	}

	// ---- runtime, sync ----
	nop := func(c *ictx) Value { return nil }
	zero := func(c *ictx) Value { return stubZero(c) }
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "time.Sleep", "time.initLocal", "runtime/debug.SetGCPercent", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault",
		"runtime.LockOSThread", "os.Exit", "internal/abi.Escape"} {
		in[n] = nop
	}
	in["internal/godebug.New"] = zero
	in["(*internal/godebug.Setting).Value"] = func(c *ictx) Value { return "" }
	in["internal/abi.NoEscape"] = func(c *ictx) Value { return c.args[0] }
	in["internal/abi.Escape"] = func(c *ictx) Value { return c.args[0] }
	in["strings.noescape"] = func(c *ictx) Value { return c.args[0] }
	in["runtime.NumCPU"] = func(c *ictx) Value { return K(8) }
	in["runtime.GOMAXPROCS"] = func(c *ictx) Value { return K(8) }
	in["runtime.Caller"] = func(c *ictx) Value { return Tuple{K(0), "", K(0), K(0)} }
	in["os.Getenv"] = func(c *ictx) Value { return "" }
	in["os.LookupEnv"] = func(c *ictx) Value { return Tuple{"", K(0)} }
	in["runtime.Gosched"] = func(c *ictx) Value {
		if c.s.cfg.sched {
			if c.s.skipPre {
				c.s.skipPre = false
			}
		}
		return nil
	}
	lock := func(c *ictx) Value {
		p := c.args[0].(Ptr)
		if p.obj == 0 {
			panic(nilDeref())
		}
		if c.s.load(p, layoutOf(types.Typ[types.Int32])) != K(0) {
			c.s.wg().waitObj = p.obj
			panic(blockG{})
		}
		c.s.setCell(c.s.wobj(p.obj), p.off, K(1))
		return nil
	}
	unlock := func(c *ictx) Value {
		p := c.args[0].(Ptr)
		if c.s.load(p, layoutOf(types.Typ[types.Int32])) == K(0) {
			panic(goPanic{msg: "sync: unlock of unlocked mutex", rt: true})
		}
		c.s.setCell(c.s.wobj(p.obj), p.off, K(0))
		for i, g := range c.s.gs {
			if g.status == gBlocked && g.waitObj == p.obj {
				ng := c.s.wgi(i)
				ng.status = gRun
				ng.waitObj = 0
			}
		}
		return nil
	}
	in["(*sync.Mutex).Lock"], in["(*sync.Mutex).Unlock"] = lock, unlock
	in["(*sync.RWMutex).Lock"], in["(*sync.RWMutex).Unlock"] = nop, nop
	in["(*sync.RWMutex).RLock"], in["(*sync.RWMutex).RUnlock"] = nop, nop
	in["(*sync.Once).Do"] = nil
	delete(in, "(*sync.Once).Do")
	// sync/atomic
	for _, ty := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := ty.t
		l := layoutOf(t)
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			in[pk+"Load"+ty.n] = func(c *ictx) Value { return c.e.loadPtr(c.s, c.args[0], l, t) }
			in[pk+"Store"+ty.n] = func(c *ictx) Value { c.e.storePtr(c.s, c.args[0], l, c.args[1], t); return nil }
			in[pk+"Swap"+ty.n] = func(c *ictx) Value {
				o := c.e.loadPtr(c.s, c.args[0], l, t)
				c.e.storePtr(c.s, c.args[0], l, c.args[1], t)
				return o
			}
			in[pk+"CompareAndSwap"+ty.n] = func(c *ictx) Value {
				o := c.e.loadPtr(c.s, c.args[0], l, t)
				if c.e.decide(c.s, c.e.eqVal(t, o, c.args[1])) {
					c.e.storePtr(c.s, c.args[0], l, c.args[2], t)
					return K(1)
				}
				return K(0)
			}
			in[pk+"Add"+ty.n] = func(c *ictx) Value {
				o := c.e.loadPtr(c.s, c.args[0], l, t)
				w, _, _ := width(t)
				n := c.e.scmp(OpAdd, o, c.args[1], w)
				c.e.storePtr(c.s, c.args[0], l, n, t)
				return n
			}
		}
	}
	ifl := func() *Layout { return &Layout{size: 1, zero: []Value{Iface{}}, w: 255} }
	in["(*sync/atomic.Value).Load"] = func(c *ictx) Value { return c.s.load(c.args[0].(Ptr), ifl()) }
	in["(*sync/atomic.Value).Store"] = func(c *ictx) Value { c.s.store(c.args[0].(Ptr), ifl(), c.args[1]); return nil }

	// ---- math ----
	id := func(c *ictx) Value { return c.args[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		in[n] = id
	}
	fun := func(name string, op Op, f func(float64) float64) {
		g := func(c *ictx) Value {
			if k, ok := c.args[0].(K); ok {
				return K(math.Float64bits(f(math.Float64frombits(uint64(k)))))
			}
			if op == 0 {
				panic(unsup(name + " on symbolic float"))
			}
			return val(c.e.ts.Un(op, 64, c.args[0].(*Term)))
		}
		in["math."+name] = g
		in["math.arch"+name] = g
	}
	fun("Floor", OpFFloor, math.Floor)
	fun("Ceil", OpFCeil, math.Ceil)
	fun("Sqrt", OpFSqrt, math.Sqrt)
	fun("Trunc", 0, math.Trunc)
	fun("Log", 0, math.Log)
	fun("Log2", 0, math.Log2)
	fun("Log10", 0, math.Log10)
	fun("Exp", 0, math.Exp)
	in["math.Abs"] = func(c *ictx) Value {
		if k, ok := c.args[0].(K); ok {
			return K(uint64(k) &^ (1 << 63))
		}
		return val(c.e.ts.Bin(OpBAnd, c.args[0].(*Term), c.e.ts.Const(64, ^uint64(0)>>1)))
	}
	minmax := func(name string, isMax bool, f func(x, y float64) float64) {
		in["math."+name] = func(c *ictx) Value {
			x, ok1 := c.args[0].(K)
			y, ok2 := c.args[1].(K)
			if ok1 && ok2 {
				return K(math.Float64bits(f(math.Float64frombits(uint64(x)), math.Float64frombits(uint64(y)))))
			}
			ts := c.e.ts
			a, b := c.e.term(c.args[0], 64), c.e.term(c.args[1], 64)
			inf := ts.Const(64, math.Float64bits(f(math.Inf(1), math.Inf(-1))))
			less, eq := ts.fcmp(OpFLt, a, b), ts.Bin(OpBOr, a, b)
			if isMax {
				less, eq = ts.fcmp(OpFLt, b, a), ts.Bin(OpBAnd, a, b)
			}
			r := ts.Ite(less, a, ts.Ite(ts.fcmp(OpFEq, a, b), eq, b))
			r = ts.Ite(ts.Or(ts.isNaN(a), ts.isNaN(b)), ts.Const(64, math.Float64bits(math.NaN())), r)
			return val(ts.Ite(ts.Or(ts.Eq(a, inf), ts.Eq(b, inf)), inf, r))
		}
	}
	minmax("Min", false, math.Min)
	minmax("Max", true, math.Max)
	in["math.Pow"] = func(c *ictx) Value {
		x, ok1 := c.args[0].(K)
		y, ok2 := c.args[1].(K)
		if !ok1 || !ok2 {
			panic(unsup("math.Pow symbolic"))
		}
		return K(math.Float64bits(math.Pow(math.Float64frombits(uint64(x)), math.Float64frombits(uint64(y)))))
	}
	in["math.Mod"] = func(c *ictx) Value {
		x, ok1 := c.args[0].(K)
		y, ok2 := c.args[1].(K)
		if !ok1 || !ok2 {
			panic(unsup("math.Mod symbolic"))
		}
		return K(math.Float64bits(math.Mod(math.Float64frombits(uint64(x)), math.Float64frombits(uint64(y)))))
	}
	in["math.FMA"] = func(c *ictx) Value { panic(unsup("FMA")) }

	// ---- strings / bytes primitives ----
	in["internal/bytealg.MakeNoZero"] = func(c *ictx) Value {
		n := c.int(0)
		return Slice{c.s.newObj(layoutOf(types.Typ[types.Uint8]), n), 0, n, n}
	}
	byteEqAny := func(c *ictx, cells []Value, b Value) Value {
		for i, x := range cells {
			if c.e.decide(c.s, c.e.eqScalar(x, b, 8)) {
				return K(uint64(i))
			}
		}
		return K(^uint64(0))
	}
	in["internal/bytealg.IndexByte"] = func(c *ictx) Value {
		return byteEqAny(c, c.e.sliceCells(c.s, c.args[0].(Slice)), c.args[1])
	}
	in["internal/bytealg.IndexByteString"] = func(c *ictx) Value { return byteEqAny(c, strBytes(c.args[0]), c.args[1]) }
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["bytes.IndexByte"] = in["internal/bytealg.IndexByte"]
	count := func(c *ictx, cells []Value, b Value) Value {
		e := c.e
		var n Value = K(0)
		for _, x := range cells {
			q := e.eqScalar(x, b, 8)
			if k, ok := q.(K); ok {
				n = e.scmp(OpAdd, n, k, 64)
			} else {
				n = e.scmp(OpAdd, n, val(e.ts.Ite(q.(*Term), e.ts.Const(64, 1), e.ts.Const(64, 0))), 64)
			}
		}
		return n
	}
	in["internal/bytealg.Count"] = func(c *ictx) Value { return count(c, c.e.sliceCells(c.s, c.args[0].(Slice)), c.args[1]) }
	in["internal/bytealg.CountString"] = func(c *ictx) Value { return count(c, strBytes(c.args[0]), c.args[1]) }
	in["internal/bytealg.Equal"] = func(c *ictx) Value {
		return c.e.strEq(mkStr(c.e.sliceCells(c.s, c.args[0].(Slice))), mkStr(c.e.sliceCells(c.s, c.args[1].(Slice))))
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	cmp := func(c *ictx, a, b Value) Value {
		e := c.e
		lt := e.strLess(a, b)
		eq := e.strEq(a, b)
		lk, ok1 := lt.(K)
		ek, ok2 := eq.(K)
		if ok1 && ok2 {
			if ek == 1 {
				return K(0)
			}
			if lk == 1 {
				return K(^uint64(0))
			}
			return K(1)
		}
		return val(e.ts.Ite(e.term(eq, 0), e.ts.Const(64, 0), e.ts.Ite(e.term(lt, 0), e.ts.Const(64, ^uint64(0)), e.ts.Const(64, 1))))
	}
	in["internal/bytealg.Compare"] = func(c *ictx) Value {
		return cmp(c, mkStr(c.e.sliceCells(c.s, c.args[0].(Slice))), mkStr(c.e.sliceCells(c.s, c.args[1].(Slice))))
	}
	in["bytes.Compare"] = in["internal/bytealg.Compare"]
	in["internal/bytealg.CompareString"] = func(c *ictx) Value { return cmp(c, c.args[0], c.args[1]) }
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["cmp.Compare"] = nil
	delete(in, "cmp.Compare")
	index := func(c *ictx, a, b Value) Value {
		e := c.e
		n, m := strLen(a), strLen(b)
		for i := 0; i+m <= n; i++ {
			if e.decide(c.s, e.strEq(strSub(a, i, i+m), b)) {
				return K(uint64(i))
			}
		}
		return K(^uint64(0))
	}
	in["strings.Index"] = func(c *ictx) Value { return index(c, c.args[0], c.args[1]) }
	in["bytes.Index"] = func(c *ictx) Value {
		return index(c, mkStr(c.e.sliceCells(c.s, c.args[0].(Slice))), mkStr(c.e.sliceCells(c.s, c.args[1].(Slice))))
	}
	in["internal/bytealg.Index"] = in["bytes.Index"]
	in["internal/bytealg.IndexString"] = in["strings.Index"]
	in["internal/stringslite.Index"] = in["strings.Index"]
	in["internal/stringslite.IndexByte"] = in["internal/bytealg.IndexByteString"]
	// ASCII case mapping without forking; non-ASCII handled by the real code when concrete
	caseMap := func(lo, hi byte, add uint64, f func(string) string) func(c *ictx, v Value) Value {
		return func(c *ictx, v Value) Value {
			if s, ok := v.(string); ok {
				return f(s)
			}
			e := c.e
			b := strBytes(v)
			for _, x := range b {
				if !e.decide(c.s, e.scmp(OpULt, x, K(0x80), 8)) {
					panic(unsup("case mapping of symbolic non-ASCII text"))
				}
			}
			r := make([]Value, len(b))
			for i, x := range b {
				t := e.term(x, 8)
				in := e.term(e.inRange(x, uint64(lo), uint64(hi), 8), 0)
				r[i] = val(e.ts.Ite(in, e.ts.Bin(OpAdd, t, e.ts.Const(8, add)), t))
			}
			return mkStr(r)
		}
	}
	lower := caseMap('A', 'Z', 32, strings.ToLower)
	upper := caseMap('a', 'z', ^uint64(31), strings.ToUpper)
	in["strings.ToLower"] = func(c *ictx) Value { return lower(c, c.args[0]) }
	in["strings.ToUpper"] = func(c *ictx) Value { return upper(c, c.args[0]) }
	in["bytes.ToLower"] = func(c *ictx) Value {
		return c.e.mkByteSlice(c.s, strBytes(lower(c, mkStr(c.e.sliceCells(c.s, c.args[0].(Slice))))))
	}

	// ---- utf8 ----
	dec := func(c *ictx, v Value) Value {
		if strLen(v) == 0 {
			return Tuple{K(uint32(utf8.RuneError)), K(0)}
		}
		r, n := c.e.decodeRune(c.s, v, 0)
		return Tuple{r, K(uint64(n))}
	}
	in["unicode/utf8.DecodeRuneInString"] = func(c *ictx) Value { return dec(c, c.args[0]) }
	in["unicode/utf8.DecodeRune"] = func(c *ictx) Value {
		sl := c.args[0].(Slice)
		if sl.len > 4 {
			sl.len = 4
		}
		return dec(c, mkStr(c.e.sliceCells(c.s, sl)))
	}
	in["unicode/utf8.EncodeRune"] = func(c *ictx) Value {
		bs := c.e.encodeRune(c.s, c.args[1])
		sl := c.args[0].(Slice)
		if sl.len < len(bs) {
			panic(boundsPanic(len(bs)-1, sl.len))
		}
		o := c.s.wobj(sl.obj)
		for i, b := range bs {
			c.s.setCell(o, sl.off+i, b)
		}
		return K(uint64(len(bs)))
	}
	valid := func(c *ictx, v Value) Value {
		if s, ok := v.(string); ok {
			return boolV(utf8.ValidString(s))
		}
		for i := 0; i < strLen(v); {
			r, n := c.e.decodeRune(c.s, v, i)
			if n == 1 && r == K(uint32(utf8.RuneError)) {
				return K(0)
			}
			i += n
		}
		return K(1)
	}
	in["unicode/utf8.ValidString"] = func(c *ictx) Value { return valid(c, c.args[0]) }
	in["unicode/utf8.Valid"] = func(c *ictx) Value { return valid(c, mkStr(c.e.sliceCells(c.s, c.args[0].(Slice)))) }
	rcount := func(c *ictx, v Value) Value {
		k := 0
		for i := 0; i < strLen(v); {
			_, n := c.e.decodeRune(c.s, v, i)
			i += n
			k++
		}
		return K(uint64(k))
	}
	in["unicode/utf8.RuneCountInString"] = func(c *ictx) Value { return rcount(c, c.args[0]) }
	in["unicode/utf8.RuneCount"] = func(c *ictx) Value { return rcount(c, mkStr(c.e.sliceCells(c.s, c.args[0].(Slice)))) }

	in["strconv.ParseFloat"] = parseFloat
	in["strconv.Itoa"] = func(c *ictx) Value { return formatInt(c, c.args[0], true) }
	in["strconv.FormatInt"] = func(c *ictx) Value {
		if c.int(1) != 10 {
			return fallThrough{}
		}
		return formatInt(c, c.args[0], true)
	}
	in["strconv.FormatUint"] = func(c *ictx) Value {
		if c.int(1) != 10 {
			return fallThrough{}
		}
		return formatInt(c, c.args[0], false)
	}
	in["strconv.FormatFloat"] = func(c *ictx) Value {
		k, ok := c.args[0].(K)
		if !ok {
			panic(unsup("formatting a symbolic float"))
		}
		return strconv.FormatFloat(math.Float64frombits(uint64(k)), byte(c.int(1)), c.int(2), c.int(3))
	}
	in["time.now"] = func(c *ictx) Value { return Tuple{K(1600000000), K(0), K(0)} }
	in["time.runtimeNow"] = in["time.now"]
	in["time.runtimeNano"] = func(c *ictx) Value { return K(1) }
	in["time.Now"] = func(c *ictx) Value { return Agg{K(0), K(63735596800), Ptr{}} }
	in["runtime.fastrand"] = func(c *ictx) Value { return K(4) }
	in["math/rand.Intn"] = func(c *ictx) Value {
		n := c.int(0)
		if n <= 0 {
			panic(goPanic{msg: "invalid argument to Intn", rt: true})
		}
		t := c.fresh("rand", 64)
		c.s.addEvent(ndEvent{kind: "rand", vals: []Value{t}, w: 64})
		c.assume(val(c.e.ts.Bin(OpULt, t, c.e.ts.Const(64, uint64(n)))))
		return t
	}
	in["math/rand.Seed"] = nop
}

// parseFloat decides the shape of the text. Concrete text is parsed natively; whole numbers
// of up to 15 digits become an exact term; other decimal texts become an uninterpreted
// function of the digits (finite); everything else is left to the real function.
func parseFloat(c *ictx) Value {
	e, s := c.e, c.s
	if c.int(1) != 64 {
		return fallThrough{}
	}
	if t, ok := c.args[0].(string); ok {
		f, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return fallThrough{}
		}
		return Tuple{K(math.Float64bits(f)), Iface{}}
	}
	str := c.args[0]
	n := strLen(str)
	is := func(i int, lo, hi byte) bool {
		if i >= n {
			return false
		}
		switch x := strAt(str, i).(type) {
		case K:
			return byte(x) >= lo && byte(x) <= hi
		case *Term:
			if lo == hi {
				return e.decideT(s, e.ts.Eq(x, e.ts.Const(8, uint64(lo))))
			}
			return e.decideT(s, e.ts.And(e.ts.Bin(OpULe, e.ts.Const(8, uint64(lo)), x), e.ts.Bin(OpULe, x, e.ts.Const(8, uint64(hi)))))
		}
		panic(unsup("parse float of odd text"))
	}
	i := 0
	neg := false
	if is(0, '-', '-') {
		neg, i = true, 1
	} else if is(0, '+', '+') {
		i = 1
	}
	st := i
	for is(i, '0', '9') {
		i++
	}
	nd := i - st
	whole := i == n
	if is(i, '.', '.') {
		i++
		for is(i, '0', '9') {
			i++
			nd++
		}
	}
	if nd == 0 || nd > 300 {
		return fallThrough{}
	}
	if i < n {
		if !is(i, 'e', 'e') && !is(i, 'E', 'E') {
			return fallThrough{}
		}
		i++
		if !is(i, '-', '-') {
			if is(i, '+', '+') {
				i++
			}
		} else {
			i++
		}
		x0 := i
		for is(i, '0', '9') {
			i++
		}
		if i == x0 {
			return fallThrough{}
		}
		if i-x0 > 2 {
			if i < n {
				return fallThrough{}
			}
			panic(unsup("parsing a symbolic float with a long exponent"))
		}
	}
	if i < n {
		return fallThrough{}
	}
	var r *Term
	if whole && nd <= 15 {
		r = e.ts.Const(64, 0)
		for j := st; j < n; j++ {
			var d *Term
			switch x := strAt(str, j).(type) {
			case K:
				d = e.ts.Const(64, uint64(x)-'0')
			case *Term:
				d = e.ts.Bin(OpSub, e.ts.Un(OpZExt, 64, x), e.ts.Const(64, '0'))
			}
			r = e.ts.Bin(OpAdd, e.ts.Bin(OpMul, r, e.ts.Const(64, 10)), d)
		}
		r = e.ts.Un(OpFFromU, 64, r)
	} else {
		var kb strings.Builder
		for j := st; j < n; j++ {
			switch x := strAt(str, j).(type) {
			case K:
				fmt.Fprintf(&kb, "%d.", uint64(x))
			case *Term:
				fmt.Fprintf(&kb, "t%d.", x.id)
			}
		}
		if e.ufcache == nil {
			e.ufcache = map[string]*Term{}
		}
		r = e.ufcache[kb.String()]
		if r == nil {
			r = c.fresh("float", 64)
			e.ufcache[kb.String()] = r
		}
		fin := e.ts.Bin(OpULt, r, e.ts.Const(64, 0x7ff0000000000000))
		if b, ok := s.known.get(int(fin.id)).(bool); !ok || !b {
			c.assume(val(fin))
		}
	}
	if neg {
		r = e.ts.Bin(OpBXor, r, e.ts.Const(64, 1<<63))
	}
	return Tuple{val(r), Iface{}}
}

// formatInt gives the decimal text of a symbolic integer: its sign and number of digits are
// decided, its digits are fresh bytes tied to the value by one linear equation.
func formatInt(c *ictx, v Value, signed bool) Value {
	x, ok := v.(*Term)
	if !ok {
		return fallThrough{}
	}
	e, s := c.e, c.s
	neg := signed && e.decideT(s, e.ts.Bin(OpSLt, x, e.ts.Const(64, 0)))
	abs := x
	if neg {
		abs = e.ts.Un(OpNeg, 64, x)
	}
	nd := 1
	for p := uint64(10); nd < 19; nd, p = nd+1, p*10 {
		if e.decideT(s, e.ts.Bin(OpULt, abs, e.ts.Const(64, p))) {
			break
		}
	}
	if nd == 19 && !signed && !e.decideT(s, e.ts.Bin(OpULt, abs, e.ts.Const(64, 10000000000000000000))) {
		return fallThrough{}
	}
	var out []Value
	if neg {
		out = append(out, K('-'))
	}
	cond := e.ts.Bool(true)
	var h *Term
	var m *Model
	if s.model != nil {
		m = s.model
		txt := strconv.FormatUint(m.eval(abs), 10)
		for i := 0; i < nd; i++ {
			d := c.fresh("digit", 8)
			if len(txt) == nd {
				m = m.with(int(d.k), uint64(txt[i]))
			}
			cond = e.ts.And(cond, e.ts.And(e.ts.Bin(OpULe, e.ts.Const(8, '0'), d), e.ts.Bin(OpULe, d, e.ts.Const(8, '9'))))
			z := e.ts.Un(OpZExt, 64, e.ts.Bin(OpSub, d, e.ts.Const(8, '0')))
			if h == nil {
				h = z
			} else {
				h = e.ts.Bin(OpAdd, e.ts.Bin(OpMul, h, e.ts.Const(64, 10)), z)
			}
			out = append(out, d)
		}
	} else {
		panic(unsup("formatting without a model"))
	}
	cond = e.ts.And(cond, e.ts.Eq(abs, h))
	if m.eval(cond) != 1 {
		panic(unsup("formatting: model"))
	}
	s.assume(cond)
	s.model = m
	return mkStr(out)
}

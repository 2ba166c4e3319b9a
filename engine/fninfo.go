package main

import (
	"go/constant"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int   // >=0 register
	val Value // when reg<0
	typ types.Type
}

type cins struct {
	in  ssa.Instruction
	ops []opnd
	dst int
	lay *Layout    // load/store/alloc layout
	t   types.Type // result type
	aux interface{}
}

type cblock struct {
	b    *ssa.BasicBlock
	nphi int
	ins  []cins
}

type FnInfo struct {
	fn     *ssa.Function
	nregs  int
	reg    map[ssa.Value]int
	blocks []cblock
	inRepo bool

	once   sync.Once
	tonce  sync.Once
	rtypes []types.Type
	ipdom  []int // -1 exit
	live   [][]bool
	name   string
}

var fnMu sync.Mutex
var fnCache sync.Map

func (b *Base) info(fn *ssa.Function) *FnInfo {
	if fi, ok := fnCache.Load(fn); ok {
		return fi.(*FnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if fi, ok := fnCache.Load(fn); ok {
		return fi.(*FnInfo)
	}
	fi := b.compile(fn)
	fnCache.Store(fn, fi)
	return fi
}

func (b *Base) compile(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Pkg != nil {
		fi.inRepo = b.isRepoPkg(fn.Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		fi.inRepo = b.isRepoPkg(fn.Parent().Pkg.Pkg.Path())
	}
	for _, blk := range fn.Blocks {
		cb := cblock{b: blk}
		for _, in := range blk.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = fi.reg[v]
				c.t = v.Type()
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				c.ops = append(c.ops, b.operand(fi, *r))
			}
			switch x := in.(type) {
			case *ssa.Phi:
				cb.nphi++
			case *ssa.Alloc:
				c.lay = layoutOf(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					c.lay = layoutOf(x.Type())
				}
			case *ssa.Store:
				c.lay = layoutOf(x.Val.Type())
			}
			cb.ins = append(cb.ins, c)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	return fi
}

func (b *Base) operand(fi *FnInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{reg: -1}
	case *ssa.Const:
		return opnd{reg: -1, val: constVal(x), typ: x.Type()}
	case *ssa.Global:
		return opnd{reg: -1, val: Ptr{obj: b.globalObj(x)}, typ: x.Type()}
	case *ssa.Function:
		return opnd{reg: -1, val: x, typ: x.Type()}
	case *ssa.Builtin:
		return opnd{reg: -1, val: x, typ: x.Type()}
	}
	r, ok := fi.reg[v]
	if !ok {
		panic("no register for " + v.Name())
	}
	return opnd{reg: r, typ: v.Type()}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			return &Poison{"type param zero"}
		}
		return zeroOf(t)
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return &Poison{"const of " + t.String()}
	}
	w, _, isf := width(t)
	switch {
	case bt.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return K(1)
		}
		return K(0)
	case bt.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
		return constant.StringVal(c.Value)
	case isf:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return K(math.Float32bits(f32))
		}
		return K(math.Float64bits(f))
	case bt.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(constant.ToComplex(c.Value)))
		im, _ := constant.Float64Val(constant.Imag(constant.ToComplex(c.Value)))
		return Cplx{K(math.Float64bits(re)), K(math.Float64bits(im))}
	default:
		iv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(iv); ok {
			return K(uint64(i) & mask(w))
		}
		u, _ := constant.Uint64Val(iv)
		return K(u & mask(w))
	}
}

// analyse computes immediate post-dominators (ignoring panicking blocks) and liveness.
func (fi *FnInfo) analyse() {
	fi.once.Do(func() {
		n := len(fi.blocks)
		exit := n
		// blocks that inevitably panic
		dead := make([]bool, n)
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				if dead[i] {
					continue
				}
				b := fi.blocks[i].b
				last := b.Instrs[len(b.Instrs)-1]
				if _, ok := last.(*ssa.Panic); ok {
					dead[i] = true
					changed = true
					continue
				}
				if len(b.Succs) > 0 {
					all := true
					for _, s := range b.Succs {
						if !dead[s.Index] {
							all = false
						}
					}
					if all {
						dead[i] = true
						changed = true
					}
				}
			}
		}
		// post-dominator sets (bitsets)
		wn := (n + 1 + 63) / 64
		pd := make([][]uint64, n+1)
		for i := range pd {
			pd[i] = make([]uint64, wn)
			for j := range pd[i] {
				pd[i][j] = ^uint64(0)
			}
		}
		set := func(b []uint64, i int) { b[i/64] |= 1 << (i % 64) }
		has := func(b []uint64, i int) bool { return b[i/64]>>(i%64)&1 == 1 }
		for j := range pd[exit] {
			pd[exit][j] = 0
		}
		set(pd[exit], exit)
		succs := func(i int) []int {
			b := fi.blocks[i].b
			var r []int
			for _, s := range b.Succs {
				if !dead[s.Index] {
					r = append(r, s.Index)
				}
			}
			if len(b.Succs) == 0 && !dead[i] {
				r = append(r, exit)
			}
			return r
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				if dead[i] {
					continue
				}
				nw := make([]uint64, wn)
				for j := range nw {
					nw[j] = ^uint64(0)
				}
				for _, s := range succs(i) {
					for j := range nw {
						nw[j] &= pd[s][j]
					}
				}
				set(nw, i)
				for j := range nw {
					if nw[j] != pd[i][j] {
						changed = true
					}
				}
				pd[i] = nw
			}
		}
		fi.ipdom = make([]int, n)
		count := func(b []uint64) int {
			c := 0
			for i := 0; i <= n; i++ {
				if has(b, i) {
					c++
				}
			}
			return c
		}
		for i := 0; i < n; i++ {
			fi.ipdom[i] = -1
			if dead[i] {
				continue
			}
			ci := count(pd[i])
			for j := 0; j < n; j++ {
				if j != i && has(pd[i], j) && !dead[j] && count(pd[j]) == ci-1 {
					fi.ipdom[i] = j
				}
			}
		}
		// liveness: registers live right after the phis of a block
		live := make([][]bool, n)
		liveOut := make([][]bool, n)
		for i := range live {
			live[i] = make([]bool, fi.nregs)
			liveOut[i] = make([]bool, fi.nregs)
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				cb := &fi.blocks[i]
				out := liveOut[i]
				for _, s := range cb.b.Succs {
					sb := &fi.blocks[s.Index]
					defs := map[int]bool{}
					for k := 0; k < sb.nphi; k++ {
						defs[sb.ins[k].dst] = true
					}
					for r, l := range live[s.Index] {
						if l && !defs[r] && !out[r] {
							out[r] = true
							changed = true
						}
					}
					pi := -1
					for k, p := range s.Preds {
						if p == cb.b {
							pi = k
						}
					}
					for k := 0; k < sb.nphi; k++ {
						for k2, p := range s.Preds {
							if p != cb.b {
								continue
							}
							_ = pi
							o := sb.ins[k].ops[k2]
							if o.reg >= 0 && !out[o.reg] {
								out[o.reg] = true
								changed = true
							}
						}
					}
				}
				cur := append([]bool(nil), out...)
				for k := len(cb.ins) - 1; k >= cb.nphi; k-- {
					c := &cb.ins[k]
					if c.dst >= 0 {
						cur[c.dst] = false
					}
					for _, o := range c.ops {
						if o.reg >= 0 {
							cur[o.reg] = true
						}
					}
				}
				for r, l := range cur {
					if l && !live[i][r] {
						live[i][r] = true
						changed = true
					}
				}
			}
		}
		fi.live = live
	})
}

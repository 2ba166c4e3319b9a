package main

import "go/types"

const chunkSize = 128

type chunk struct {
	tok *owner
	c   []Value
}

type Obj struct {
	tok    *owner
	n      int
	lay    *Layout // element layout repeated
	chunks []*chunk
	ext    interface{} // *MapData, *ChanData, native
	extTok *owner
	ro     bool // read-only marker (unused cells)
}

type mapEntry struct {
	key, val Value
	del      bool
}

type MapData struct {
	ents  []mapEntry
	live  int
	index map[string]int // concrete keys
	nsym  int            // number of symbolic-key entries
	vt    types.Type     // value type
}

type ChanData struct {
	cap    int
	buf    []Value
	closed bool
	// unbuffered rendezvous is handled through goroutine wait states
}

// NewObj allocates n elements of layout lay.
func (s *State) newObj(lay *Layout, n int) int {
	e := s.e
	e.nextObj++
	id := e.nextObj
	sz := lay.size * n
	o := &Obj{tok: s.tok, n: sz, lay: lay}
	nc := (sz + chunkSize - 1) / chunkSize
	if nc > 0 {
		o.chunks = make([]*chunk, nc)
	}
	s.heap.set(s.tok, id, o)
	return id
}

func (s *State) newExt(ext interface{}) int {
	e := s.e
	e.nextObj++
	id := e.nextObj
	s.heap.set(s.tok, id, &Obj{tok: s.tok, ext: ext, extTok: s.tok})
	return id
}

func (s *State) obj(id int) *Obj {
	o, _ := s.heap.get(id).(*Obj)
	if o == nil {
		panic(unsup("dangling object"))
	}
	return o
}

func (o *Obj) get(i int) Value {
	ch := o.chunks[i/chunkSize]
	if ch == nil {
		return o.lay.zeroAt(i % o.lay.size)
	}
	return ch.c[i%chunkSize]
}

func (s *State) wobj(id int) *Obj {
	o := s.obj(id)
	if o.tok != s.tok {
		c := *o
		c.tok = s.tok
		c.chunks = append([]*chunk(nil), o.chunks...)
		o = &c
		s.heap.set(s.tok, id, o)
	}
	return o
}

func (s *State) setCell(o *Obj, i int, v Value) {
	ci := i / chunkSize
	ch := o.chunks[ci]
	if ch == nil {
		base := ci * chunkSize
		n := o.n - base
		if n > chunkSize {
			n = chunkSize
		}
		ch = &chunk{tok: s.tok, c: make([]Value, n)}
		for j := range ch.c {
			ch.c[j] = o.lay.zeroAt((base + j) % o.lay.size)
		}
		o.chunks[ci] = ch
	} else if ch.tok != s.tok {
		ch = &chunk{tok: s.tok, c: append([]Value(nil), ch.c...)}
		o.chunks[ci] = ch
	}
	ch.c[i%chunkSize] = v
}

func (s *State) load(p Ptr, lay *Layout) Value {
	o := s.obj(p.obj)
	if !lay.agg {
		return o.get(p.off)
	}
	a := make(Agg, lay.size)
	for i := range a {
		a[i] = o.get(p.off + i)
	}
	return a
}

func (s *State) store(p Ptr, lay *Layout, v Value) {
	if lay.size == 0 {
		return
	}
	o := s.wobj(p.obj)
	if !lay.agg {
		s.setCell(o, p.off, v)
		return
	}
	if pz, ok := v.(*Poison); ok {
		for i := 0; i < lay.size; i++ {
			s.setCell(o, p.off+i, pz)
		}
		return
	}
	for i, x := range v.(Agg) {
		s.setCell(o, p.off+i, x)
	}
}

func (s *State) mapData(m MapRef) *MapData {
	return s.obj(m.obj).ext.(*MapData)
}

func (s *State) wmapData(m MapRef) *MapData {
	o := s.obj(m.obj)
	if o.extTok != s.tok {
		d := o.ext.(*MapData)
		nd := &MapData{ents: append([]mapEntry(nil), d.ents...), live: d.live, nsym: d.nsym, vt: d.vt}
		if d.index != nil {
			nd.index = make(map[string]int, len(d.index))
			for k, v := range d.index {
				nd.index[k] = v
			}
		}
		no := &Obj{tok: s.tok, ext: nd, extTok: s.tok}
		s.heap.set(s.tok, m.obj, no)
		return nd
	}
	return o.ext.(*MapData)
}

func (s *State) chanData(c ChanRef) *ChanData { return s.obj(c.obj).ext.(*ChanData) }

func (s *State) wchanData(c ChanRef) *ChanData {
	o := s.obj(c.obj)
	if o.extTok != s.tok {
		d := *o.ext.(*ChanData)
		d.buf = append([]Value(nil), d.buf...)
		no := &Obj{tok: s.tok, ext: &d, extTok: s.tok}
		s.heap.set(s.tok, c.obj, no)
		return &d
	}
	return o.ext.(*ChanData)
}

// compact removes deleted entries when there are many.
func (d *MapData) compact() {
	if len(d.ents) < 16 || d.live*2 > len(d.ents) {
		return
	}
	n := d.ents[:0:0]
	for _, e := range d.ents {
		if !e.del {
			n = append(n, e)
		}
	}
	d.ents = n
	d.index = nil
	d.reindex()
}

func (d *MapData) reindex() {
	d.index = make(map[string]int, len(d.ents))
	for i, e := range d.ents {
		if e.del {
			continue
		}
		if k, ok := ckeyStr(e.key); ok {
			d.index[k] = i
		}
	}
}

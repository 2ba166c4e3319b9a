// Package c11 checks the in-memory entry reader under every goroutine schedule.
package c11

import (
	"io"

	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

// H_C11_slice: slices of 0..5 (7) elements, every schedule with up to 4 (6) preemptions.
func H_C11_slice() {
	n := v.Case(v.Bound(6, 8))
	v.Sched(v.Bound(4, 6))
	data := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		data = append(data, v.Int64())
	}
	r, err := dsio.NewIdentityReader(u.ArrayStruct("json"), data)
	v.Assert(err == nil, "reader opens")
	for i := 0; i < n; i++ {
		e, err := r.ReadEntry()
		v.Assert(err == nil, "an element, not the end")
		v.Assert(e.Index == i, "index")
		v.Assert(u.EqVal(e.Value, data[i]), "value")
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last element")
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file again")
	v.Assert(r.Close() == nil, "close")
	v.Reach("slice")
}

// H_C11_map: maps of 0..2 (3) elements in any iteration order and schedule with up to 3 (4) preemptions.
func H_C11_map() {
	n := v.Case(v.Bound(3, 4))
	v.Sched(v.Bound(3, 4))
	data := map[string]interface{}{}
	keys := []string{"a", "b", "c"}
	for i := 0; i < n; i++ {
		data[keys[i]] = int64(i)
	}
	v.MapPerm(true)
	r, err := dsio.NewIdentityReader(u.ObjectStruct("json"), data)
	v.Assert(err == nil, "reader opens")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		e, err := r.ReadEntry()
		v.Assert(err == nil, "an element, not the end")
		v.Assert(!seen[e.Key], "no element twice")
		seen[e.Key] = true
		x, ok := data[e.Key]
		v.Assert(ok && u.EqVal(e.Value, x), "value of the key")
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last element")
	v.Assert(r.Close() == nil, "close")
	v.Reach("map")
}

// H_C11_close: closing slices of 0..4 (5) elements after any number of reads returns, and lets the producer finish.
func H_C11_close() {
	n := v.Case(v.Bound(5, 6))
	v.Sched(v.Bound(4, 5))
	data := make([]interface{}, n)
	r, err := dsio.NewIdentityReader(u.ArrayStruct("json"), data)
	v.Assert(err == nil, "reader opens")
	k := v.Int(0, n)
	for i := 0; i < k; i++ {
		_, err := r.ReadEntry()
		v.Assert(err == nil, "an element, not the end")
	}
	v.Assert(r.Close() == nil, "close")
	v.Reach("close")
}

// H_C11_two: two readers, their entries taken in any order: 0..2 (3) elements each, 1 (2) preemptions.
func H_C11_two() {
	n, m := v.Case(v.Bound(3, 4)), v.Pick(v.Bound(3, 4))
	order := v.Pick(1 << (n + m))
	v.Sched(v.Bound(1, 2))
	mk := func(n int) []interface{} {
		d := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			d = append(d, v.Int64())
		}
		return d
	}
	data := [2][]interface{}{mk(n), mk(m)}
	var r [2]*dsio.IdentityReader
	var err error
	for k := range r {
		r[k], err = dsio.NewIdentityReader(u.ArrayStruct("json"), data[k])
		v.Assert(err == nil, "reader opens")
	}
	var at [2]int
	for i := 0; i < n+m; i++ {
		k := order >> i & 1
		e, err := r[k].ReadEntry()
		if at[k] >= len(data[k]) {
			v.Assert(err == io.EOF, "end-of-file after the last element")
			continue
		}
		v.Assert(err == nil, "an element, not the end")
		v.Assert(e.Index == at[k] && u.EqVal(e.Value, data[k][at[k]]), "each reader gives its own elements")
		at[k]++
	}
	v.Assert(r[0].Close() == nil && r[1].Close() == nil, "close")
	v.Reach("two")
}

// H_C11_copy: the whole reader of 0..3 (4) elements consumed by ReadAll, with up to 2 (3) preemptions.
func H_C11_copy() {
	n := v.Case(v.Bound(4, 5))
	v.Sched(v.Bound(2, 3))
	data := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		data = append(data, v.Bool())
	}
	r, err := dsio.NewIdentityReader(u.ArrayStruct("json"), data)
	v.Assert(err == nil, "reader opens")
	got, err := dsio.ReadAll(r)
	v.Assert(err == nil, "ReadAll succeeds")
	v.Assert(u.EqVal(got, data), "ReadAll returns every element")
	v.Reach("all")
}

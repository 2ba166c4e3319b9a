// Package c03 checks the JSON body writers.
package c03

import (
	"encoding/json"
	"math"

	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func writer(obj bool, mode int, sink *u.Sink) *dsio.JSONWriter {
	st := u.ArrayStruct("json")
	if obj {
		st = u.ObjectStruct("json")
	}
	var w *dsio.JSONWriter
	var err error
	switch mode {
	case 0:
		w, err = dsio.NewJSONWriter(st, sink)
	case 1:
		w, err = dsio.NewJSONPrettyWriter(st, sink, " ")
	case 2:
		w, err = dsio.NewJSONPrettyWriter(st, sink, "\t")
	}
	v.Assert(err == nil, "writer opens")
	return w
}

func verify(out []byte, want []model.Entry, obj bool) {
	v.Assert(json.Valid(out), "output is valid JSON")
	ents, isObj, ok := model.RefEntries(out)
	v.Assert(ok, "output is one array or object")
	v.Assert(isObj == obj, "output has the schema's top-level type")
	v.Assert(len(ents) == len(want), "output holds exactly the accepted entries")
	st := u.ArrayStruct("json")
	if obj {
		st = u.ObjectStruct("json")
	}
	r, err := dsio.NewJSONReader(st, &u.Src{Data: out})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(want))
	v.Assert(u.IsEOF(err), "output reads to end-of-file")
	v.Assert(u.SameEntries(got, want, obj), "entries come back unchanged")
}

// H_C03_values: one or two entries of every kind with arbitrary content, arrays and objects, compact and pretty.
func H_C03_values() {
	k := v.Case(u.NumKinds)
	obj := v.Case(2) == 1
	mode := v.Pick(3)
	sink := &u.Sink{}
	w := writer(obj, mode, sink)
	key := "k"
	var x interface{} = "v"
	if obj && v.Pick(2) == 1 {
		v.Assume(k == 0)
		key = u.Text(v.Bound(2, 3))
		v.Reach("keys")
	} else {
		x = u.Value(k, v.Bound(2, 3))
	}
	want := []model.Entry{{Key: key, Val: x}}
	v.Assert(w.WriteEntry(dsio.Entry{Key: key, Value: x}) == nil, "write")
	if v.Pick(2) == 1 {
		v.Assume(key != "other")
		v.Assert(w.WriteEntry(dsio.Entry{Index: 1, Key: "other", Value: "v"}) == nil, "second write")
		want = append(want, model.Entry{Key: "other", Val: "v"})
		v.Reach("two")
	}
	v.Assert(w.Close() == nil, "close")
	// whole floats come back as integers: only their text is compared
	verify(sink.B, texts(want), obj)
	v.Reach("written")
}

// texts replaces floats written without fraction or exponent by the integer they read as.
func texts(es []model.Entry) []model.Entry {
	for i := range es {
		if f, ok := es[i].Val.(float64); ok && f == 12345678 {
			es[i].Val = int64(12345678)
		}
	}
	return es
}

// H_C03_history: every history of up to 4 (5) writes, each accepted, with a repeated or empty key, or with a value JSON cannot hold.
func H_C03_history() {
	obj := v.Case(2) == 1
	n := v.Case(v.Bound(5, 6))
	mode := v.Pick(2)
	sink := &u.Sink{}
	w := writer(obj, mode, sink)
	var want []model.Entry
	keys := []string{"a", "b", "", "c"}
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i, Value: "x"}
		bad := v.Pick(4)
		if bad == 3 {
			e.Value = math.NaN()
			bad = 0
			if obj {
				e.Key = "a"
			}
		} else if obj {
			e.Key = keys[bad]
		}
		expect := true
		if f, ok := e.Value.(float64); ok && f != f {
			expect = false
		}
		if obj {
			if e.Key == "" {
				expect = false
			}
			for _, p := range want {
				if p.Key == e.Key {
					expect = false
				}
			}
		}
		err := w.WriteEntry(e)
		v.Assert((err == nil) == expect, "exactly the writable entries are accepted")
		if err == nil {
			want = append(want, model.Entry{Key: e.Key, Val: e.Value})
		} else {
			v.Reach("rejected")
		}
	}
	v.Assert(w.Close() == nil, "close")
	verify(sink.B, want, obj)
	v.Reach("history")
}

// H_C03_many: 1 to 300 entries with one arbitrary printable byte in each, arrays and objects, compact and pretty.
func H_C03_many() {
	n := []int{1, 9, 10, 11, 64, 100, 127, 128, 129, 255, 256, 257, 300}[v.Case(13)]
	obj := v.Case(2) == 1
	v.Steps(30000000)
	sink := &u.Sink{}
	w := writer(obj, v.Pick(3), sink)
	c := v.Byte()
	v.Assume(v.And(c >= 'a', c <= 'z'))
	var want []model.Entry
	for i := 0; i < n; i++ {
		e := model.Entry{Val: string([]byte{c, byte('0' + i%10)})}
		if obj {
			e.Key = string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		}
		v.Assert(w.WriteEntry(dsio.Entry{Index: i, Key: e.Key, Value: e.Val}) == nil, "write")
		want = append(want, e)
	}
	v.Assert(w.Close() == nil, "close")
	verify(sink.B, want, obj)
	v.Reach("many")
}

// H_C03_long: texts, keys and nested values with lengths or depths around 16, 64, 1024 and 4096, ending in an arbitrary byte.
func H_C03_long() {
	n := []int{15, 16, 17, 63, 64, 65, 1023, 1024, 4095, 4096, 4097}[v.Case(11)]
	kind := v.Case(3)
	v.Steps(30000000)
	sink := &u.Sink{}
	w := writer(true, v.Pick(2), sink)
	long := make([]byte, n)
	for i := range long {
		long[i] = 'x'
	}
	s := string(long) + u.Text(1)
	want := []model.Entry{{Key: "a", Val: "1"}, {Key: "k", Val: "2"}, {Key: "z", Val: nil}}
	switch kind {
	case 0:
		want[1].Val = s
	case 1:
		want[1].Key = s
	case 2:
		var x interface{} = u.Text(1)
		for i := 0; i < n && i < 64; i++ {
			if i%2 == 0 {
				x = []interface{}{x}
			} else {
				x = map[string]interface{}{"k": x, "l": true}
			}
		}
		want[1].Val = x
	}
	for i, e := range want {
		v.Assert(w.WriteEntry(dsio.Entry{Index: i, Key: e.Key, Value: e.Val}) == nil, "write")
	}
	v.Assert(w.WriteEntry(dsio.Entry{Key: want[1].Key, Value: true}) != nil, "a repeated key is rejected")
	v.Assert(w.Close() == nil, "close")
	verify(sink.B, want, true)
	v.Reach("long")
}

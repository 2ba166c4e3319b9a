// Package c05 checks that CBOR bodies round trip.
package c05

import (
	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func value(k int) interface{} {
	switch k {
	case 8:
		return v.Int64()
	case 9:
		return v.Float64()
	case 10:
		return v.Bytes(3)
	case 11:
		return map[string]interface{}{"x": v.Bytes(2), "y": []interface{}{v.Int64(), []byte{}}}
	}
	return u.Value(k, 2)
}

const kinds = 12

func roundtrip(obj bool, ents []dsio.Entry) {
	st := u.ArrayStruct("cbor")
	if obj {
		st = u.ObjectStruct("cbor")
	}
	sink := &u.Sink{}
	w, err := dsio.NewCBORWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	for _, e := range ents {
		v.Assert(w.WriteEntry(e) == nil, "write")
	}
	v.Assert(w.Close() == nil, "close")
	r, err := dsio.NewCBORReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	var want []model.Entry
	for _, e := range ents {
		want = append(want, model.Entry{Key: e.Key, Val: e.Value})
	}
	got, err := u.ReadAll(r, len(ents))
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(len(got) == len(want), "as many entries as written")
	if !obj {
		v.Assert(u.SameEntries(got, want, false), "entries come back unchanged, earlier values unaltered")
		return
	}
	for i := range want {
		n := 0
		for j := range got {
			if got[j].Key == want[i].Key {
				n++
				v.Assert(u.EqVal(got[j].Value, want[i].Val), "value of a key comes back unchanged")
			}
		}
		v.Assert(n == 1, "each key comes back once")
	}
}

// H_C05_values: two entries, one of every kind of value with arbitrary content (every int64, every float64), arrays and objects.
func H_C05_values() {
	k := v.Case(kinds)
	obj := v.Case(2) == 1
	ents := []dsio.Entry{{Index: 0, Key: "k", Value: value(k)}, {Index: 1, Key: "b", Value: "other"}}
	if v.Pick(2) == 1 {
		ents[0], ents[1] = ents[1], ents[0]
	}
	roundtrip(obj, ents)
	v.Reach("values")
}

// H_C05_count: 0 to 300 entries (around the one byte length limits) of one arbitrary byte string.
func H_C05_count() {
	n := []int{0, 1, 2, 23, 24, 25, 255, 256, 300}[v.Case(9)]
	obj := v.Case(2) == 1
	var ents []dsio.Entry
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i, Value: v.Bytes(1)}
		if obj {
			e.Key = string([]byte{'k', byte('a' + i%26), byte('a' + i/26)})
			e.Value = int64(i)
		}
		ents = append(ents, e)
	}
	roundtrip(obj, ents)
	v.Reach("count")
}

// H_C05_long: strings, byte strings and keys with lengths around 23/24, 255/256, 65535/65536 and the stream buffer, followed by further values.
func H_C05_long() {
	ns := []int{22, 23, 24, 255, 256, 4090, 4096, 5000, 65536}
	n := ns[v.Case(v.Bound(8, 9))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%7)
	}
	b[0], b[n-1] = v.Byte(), v.Byte()
	switch v.Case(3) {
	case 0:
		roundtrip(false, []dsio.Entry{{Value: string(b)}, {Index: 1, Value: "after"}})
	case 1:
		roundtrip(false, []dsio.Entry{{Value: b}, {Index: 1, Value: []byte{v.Byte(), 2}}, {Index: 2, Value: []interface{}{b}}})
	case 2:
		roundtrip(true, []dsio.Entry{{Key: "\x00" + string(b), Value: int64(1)}, {Key: "\x00", Value: b}})
	}
	v.Reach("long")
}

// H_C05_keys: arbitrary keys of 1 to 2 bytes; an empty or repeated key is rejected and changes nothing.
func H_C05_keys() {
	k1, k2 := v.String(1+v.Case(2)), v.String(v.Case(3))
	sink := &u.Sink{}
	st := u.ObjectStruct("cbor")
	w, err := dsio.NewCBORWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	v.Assert(w.WriteEntry(dsio.Entry{Key: k1, Value: "one"}) == nil, "write")
	err = w.WriteEntry(dsio.Entry{Key: k2, Value: "two"})
	rejected := v.Or(k2 == "", k1 == k2)
	v.Assert((err != nil) == rejected, "exactly empty and repeated keys are rejected")
	v.Assert(w.Close() == nil, "close")
	r, err := dsio.NewCBORReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, 2)
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	if rejected {
		v.Assert(len(got) == 1 && got[0].Key == k1, "accepted entry comes back")
		v.Assert(u.EqVal(got[0].Value, "one"), "accepted value comes back")
		v.Reach("rejected")
		return
	}
	v.Assert(len(got) == 2, "two entries come back")
	ok := false
	if got[0].Key == k1 {
		ok = got[1].Key == k2 && got[0].Value == "one" && got[1].Value == "two"
	} else {
		ok = got[1].Key == k1 && got[0].Key == k2 && got[0].Value == "two" && got[1].Value == "one"
	}
	v.Assert(ok, "both entries come back")
	v.Reach("both")
}

// H_C05_again: a repeated key is rejected and changes nothing, whatever values the entries hold.
func H_C05_again() {
	one := value(v.Case(kinds))
	sink := &u.Sink{}
	st := u.ObjectStruct("cbor")
	w, err := dsio.NewCBORWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	v.Assert(w.WriteEntry(dsio.Entry{Key: "k", Value: one}) == nil, "write")
	two := []interface{}{"two", nil}[v.Pick(2)]
	v.Assert(w.WriteEntry(dsio.Entry{Key: "k", Value: two}) != nil, "a repeated key is rejected")
	v.Assert(w.WriteEntry(dsio.Entry{Key: "", Value: two}) != nil, "an empty key is rejected")
	v.Assert(w.Close() == nil, "close")
	r, err := dsio.NewCBORReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, 1)
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(len(got) == 1 && got[0].Key == "k", "accepted entry comes back")
	v.Assert(u.EqVal(got[0].Value, one), "accepted value comes back")
	v.Reach("again")
}

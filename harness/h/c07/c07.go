// Package c07 checks NDJSON bodies.
package c07

import (
	"bytes"
	"encoding/json"
	"unicode/utf8"

	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

// lines splits on newlines; a last line without newline counts unless it is empty.
func lines(doc []byte) [][]byte {
	var out [][]byte
	start := 0
	for i, c := range doc {
		if c == '\n' {
			out = append(out, doc[start:i])
			start = i + 1
		}
	}
	if start < len(doc) {
		out = append(out, doc[start:])
	}
	return out
}

func check(doc []byte, src *u.Src) {
	v.Assume(utf8.Valid(doc))
	var want []model.Entry
	for _, l := range lines(doc) {
		var x interface{}
		v.Assume(json.Unmarshal(l, &x) == nil)
		want = append(want, model.Entry{Val: x})
	}
	r, err := dsio.NewNDJSONReader(u.ArrayStruct("ndjson"), src)
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(u.SameEntries(got, want, false), "one entry per line")
	v.Assert(r.Close() == nil, "close")
	if n := len(doc); n > 0 && doc[n-1] != '\n' {
		v.Reach("no final newline")
	}
	if len(got) > 1 {
		v.Reach("several")
	}
	v.Reach("read")
}

// H_C07_bytes: every byte string of up to 5 (6) bytes whose lines are all JSON values.
func H_C07_bytes() {
	doc := v.Bytes(v.Case(v.Bound(6, 7)))
	check(doc, &u.Src{Data: doc})
}

// H_C07_split: two or three lines, final newline or not, every split of the stream into up to 3 reads, end-of-file with or after the last bytes.
func H_C07_split() {
	k := v.Case(u.NumKinds)
	doc := enc(k)
	doc = append(doc, '\n')
	doc = append(doc, `[1,"z"]`...)
	if v.Pick(2) == 1 {
		doc = append(doc, '\n')
	}
	src := u.Chunked(doc, v.Bound(1, 2))
	src.ErrOK = v.Pick(2) == 1
	check(doc, src)
}

func enc(k int) []byte {
	b, err := json.Marshal(u.Value(k, 1))
	v.Assume(err == nil)
	return b
}

// H_C07_long: lines longer than the stream buffer.
func H_C07_long() {
	n := []int{4090, 4094, 4095, 4096, 4097, 9000}[v.Case(6)]
	var doc []byte
	doc = append(doc, '"')
	for i := 0; i < n; i++ {
		doc = append(doc, 'a')
	}
	c := v.Byte()
	v.Assume(c >= ' ' && c < 127 && c != '"' && c != '\\')
	doc[n-1] = c
	doc = append(doc, '"', '\n', '7')
	if v.Pick(2) == 1 {
		doc = append(doc, '\n')
	}
	src := &u.Src{Data: doc}
	want := string(doc[1 : n+1])
	r, err := dsio.NewNDJSONReader(u.ArrayStruct("ndjson"), src)
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, 3)
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(len(got) == 2, "one entry per line")
	v.Assert(u.EqVal(got[0].Value, want), "long line")
	v.Assert(u.EqVal(got[1].Value, float64(7)), "line after a long line")
	v.Reach("long")
}

// H_C07_roundtrip: up to 2 (3) entries of any kind come back unchanged (numbers as floats).
func H_C07_roundtrip() {
	k := v.Case(u.NumKinds)
	n := v.Bound(2, 3)
	sink := &u.Sink{}
	w, err := dsio.NewNDJSONWriter(u.ArrayStruct("ndjson"), sink)
	v.Assert(err == nil, "writer opens")
	var want []model.Entry
	for i := 0; i < n; i++ {
		var x interface{} = int64([]int{0, -1, 10, 99, 1000, -123456}[v.Pick(6)])
		if kk := (k + i*3) % u.NumKinds; kk != 1 {
			x = u.Value(kk, v.Bound(1, 2))
		}
		v.Assert(w.WriteEntry(dsio.Entry{Index: i, Value: x}) == nil, "write")
		want = append(want, model.Entry{Val: u.Floats(x)})
	}
	v.Assert(w.Close() == nil, "close")
	r, err := dsio.NewNDJSONReader(u.ArrayStruct("ndjson"), &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, n)
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(u.SameEntries(got, want, false), "entries come back unchanged")
	v.Reach("roundtrip")
}

// H_C07_bad: a line of 1..3 (4) bytes that is no JSON value, after a line that is one and before another.
func H_C07_bad() {
	bad := v.Bytes(1 + v.Case(v.Bound(3, 4)))
	for _, c := range bad {
		v.Assume(c != '\n')
	}
	v.Assume(len(bytes.TrimSpace(bad)) > 0)
	v.Assume(utf8.Valid(bad))
	var x interface{}
	v.Assume(json.Unmarshal(bad, &x) != nil)
	doc := append([]byte("[1]\n"), bad...)
	if v.Pick(2) == 1 {
		doc = append(doc, "\n2\n"...)
	}
	r, err := dsio.NewNDJSONReader(u.ArrayStruct("ndjson"), &u.Src{Data: doc})
	v.Assert(err == nil, "reader opens")
	e, err := r.ReadEntry()
	v.Assert(err == nil && u.EqVal(e.Value, []interface{}{1.0}), "the line before is read")
	_, err = r.ReadEntry()
	v.Assert(err != nil && !u.IsEOF(err), "a line that is no JSON value is an error")
	v.Reach("bad")
}

// H_C07_many: 1 to 300 lines with an arbitrary letter in each, with or without a final line feed, written by the writer or by hand.
func H_C07_many() {
	n := []int{1, 2, 9, 10, 64, 100, 128, 255, 256, 257, 300}[v.Case(11)]
	v.Steps(30000000)
	c := v.Byte()
	v.Assume(v.And(c >= 'a', c <= 'z'))
	last := v.Pick(2) == 1
	sink := &u.Sink{}
	w, err := dsio.NewNDJSONWriter(u.ArrayStruct("ndjson"), sink)
	v.Assert(err == nil, "writer opens")
	var want []model.Entry
	for i := 0; i < n; i++ {
		s := string([]byte{c, byte('a' + i%26), byte('a' + i/26)})
		v.Assert(w.WriteEntry(dsio.Entry{Index: i, Value: s}) == nil, "write")
		want = append(want, model.Entry{Val: s})
	}
	v.Assert(w.Close() == nil, "close")
	doc := sink.B
	if last {
		doc = doc[:len(doc)-1]
	}
	r, err := dsio.NewNDJSONReader(u.ArrayStruct("ndjson"), &u.Src{Data: doc})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, n+1)
	v.Assert(u.IsEOF(err), "body ends in end-of-file")
	v.Assert(u.SameEntries(got, want, false), "one entry per line")
	v.Reach("many")
}

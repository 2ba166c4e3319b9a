// Package c32 checks opening readers and writers, entry buffers and byte counting.
package c32

import (
	"bytes"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

func csvStruct(header bool) *dataset.Structure {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type": "array",
		"items": map[string]interface{}{"type": "array", "items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
			map[string]interface{}{"title": "b", "type": "integer"},
		}},
	}}
	if header {
		st.FormatConfig = map[string]interface{}{"headerRow": true}
	}
	return st
}

// H_C32_buffer: 0..3 entries holding an arbitrary character and an integer, every streaming format: the buffer holds what the writer of the format writes, and gives the entries back.
func H_C32_buffer() {
	kind := v.Case(7)
	st := []*dataset.Structure{u.ArrayStruct("json"), u.ObjectStruct("json"), u.ArrayStruct("cbor"), u.ObjectStruct("cbor"), u.ArrayStruct("ndjson"), csvStruct(false), csvStruct(true)}[kind]
	n := v.Pick(4)
	text := "x"
	if n > 0 {
		text = u.Text(1)
		v.Assume(text != "\r")
	}
	num := int64(40)
	b, err := dsio.NewEntryBuffer(st)
	v.Assert(err == nil, "a buffer opens")
	v.Assert(b.Structure() == st, "a buffer keeps its structure")
	plain := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, plain)
	v.Assert(err == nil, "a writer opens")
	val := func(i int) interface{} {
		if kind == 4 {
			return []interface{}{text, float64(i)}
		}
		return []interface{}{text, num + int64(i)}
	}
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i, Key: string([]byte{byte('a' + i)}), Value: val(i)}
		v.Assert(b.WriteEntry(e) == nil && w.WriteEntry(e) == nil, "entries are written")
	}
	v.Assert(b.Close() == nil && w.Close() == nil, "closing works")
	v.Assert(u.EqBytes(b.Bytes(), plain.Bytes()), "a buffer holds what a writer writes")
	for i := 0; i < n; i++ {
		e, err := b.ReadEntry()
		v.Assert(err == nil, "an entry, not the end")
		if kind == 1 || kind == 3 {
			v.Assert(e.Key == string([]byte{byte('a' + i)}), "keys come back")
		}
		v.Assert(u.EqVal(e.Value, val(i)), "entries come back")
	}
	_, err = b.ReadEntry()
	v.Assert(err != nil, "nothing after the last entry")
	v.Reach("buffer")
}

type closer struct {
	*u.Src
	n   int
	err error
}

func (c *closer) Close() error { c.n++; return c.err }

// H_C32_tracked: 0..4 (6) arbitrary bytes, any splits of the source, any sizes of up to 4 reads, a source error or not: the count is what was read so far.
func H_C32_tracked() {
	data := v.Bytes(v.Case(v.Bound(5, 7)))
	src := u.Chunked(data, 2)
	src.ErrOK = v.Bool()
	if v.Bool() {
		src.Err = u.ErrSource
	}
	c := &closer{Src: src}
	var r io.Reader = src
	if v.Bool() {
		r = c
	}
	if v.Bool() {
		c.err = u.ErrSource
	}
	tr := dsio.NewTrackedReader(r)
	v.Assert(tr.BytesRead() == 0, "nothing is read at first")
	got := 0
	for i := 0; i < 4; i++ {
		p := make([]byte, v.Pick(4))
		n, err := tr.Read(p)
		v.Assert(n <= len(p) && got+n <= len(data) && u.EqBytes(p[:n], data[got:got+n]), "the bytes of the source")
		got += n
		v.Assert(tr.BytesRead() == got, "the count is the number of bytes read")
		if err != nil {
			v.Assert(got == len(data), "no error before the end")
			v.Assert(err == u.ErrSource && src.Err != nil || err == io.EOF && src.Err == nil, "the error of the source")
			v.Reach("end")
			break
		}
	}
	err := tr.Close()
	if r == io.Reader(c) {
		v.Assert(c.n == 1 && err == c.err, "closing closes the source")
	} else {
		v.Assert(err == nil, "a source that cannot be closed is left alone")
	}
	v.Reach("tracked")
}

// H_C32_open: every format name of 0..6 (7) bytes but xlsx, schemas absent, without a usable type, or of an array or object: readers and writers open exactly for the formats they support.
func H_C32_open() {
	f := v.String(v.Case(v.Bound(7, 8)))
	v.Assume(f != "xlsx" && f != ".xlsx")
	st := &dataset.Structure{Format: f}
	k := v.Pick(5)
	switch k {
	case 1:
		st.Schema = map[string]interface{}{}
	case 2:
		st.Schema = map[string]interface{}{"type": "string"}
	case 3:
		st.Schema = map[string]interface{}{"type": "array"}
	case 4:
		st.Schema = map[string]interface{}{"type": "object"}
	}
	name := f
	if len(name) > 0 && name[0] == '.' {
		name = name[1:]
	}
	known := name == "json" || name == "cbor" || name == "csv" || name == "ndjson" || name == "jsonl"
	r, err := dsio.NewEntryReader(st, bytes.NewReader(nil))
	w, werr := dsio.NewEntryWriter(st, &bytes.Buffer{})
	if !known {
		v.Assert(err != nil && werr != nil, "unknown formats are errors")
		v.Reach("unknown")
		return
	}
	ok := k >= 3
	switch name {
	case "json", "cbor":
		v.Assert((err == nil) == ok && (werr == nil) == ok, "JSON and CBOR bodies need a top-level type")
	case "ndjson", "jsonl":
		v.Assert((err == nil) == (k == 3), "NDJSON bodies are arrays")
		v.Assert((werr == nil) == (k > 0) || k == 1 || k == 2 || k == 4, "NDJSON writers need a schema")
	}
	if err == nil {
		v.Assert(r.Structure() == st, "a reader keeps its structure")
		v.Assert(r.Close() == nil, "a reader closes")
		v.Reach("reader")
	}
	if werr == nil {
		v.Assert(w.Structure() == st, "a writer keeps its structure")
		v.Reach("writer")
	}
}

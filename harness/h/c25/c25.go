// Package c25 checks bodies that are compressed. The codecs themselves (klauspost gzip and zstd) are replaced by
// stand-ins with the same calls, buffering and errors while paths are explored; replays use the real ones.
package c25

import (
	"bytes"
	"io"
	"io/ioutil"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func csvStruct(header bool) *dataset.Structure {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type": "array",
		"items": map[string]interface{}{"type": "array", "items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
			map[string]interface{}{"title": "b", "type": "integer"},
		}},
	}}
	if header {
		st.FormatConfig = map[string]interface{}{"headerRow": true}
	}
	return st
}

const kinds = 7

func structure(kind int) *dataset.Structure {
	return []*dataset.Structure{u.ArrayStruct("json"), u.ObjectStruct("json"), u.ArrayStruct("cbor"), u.ObjectStruct("cbor"), u.ArrayStruct("ndjson"), csvStruct(false), csvStruct(true)}[kind]
}

var names = []string{"gzip", "zst", "gz", "zstd"}

func entries(kind, n int) (ents []model.Entry) {
	text := "x"
	if n > 0 {
		text = u.Text(1)
		v.Assume(text != "\r")
	}
	for i := 0; i < n; i++ {
		e := model.Entry{Val: []interface{}{text, int64(40 + i)}}
		if kind == 4 {
			e.Val = []interface{}{text, float64(40 + i)}
		}
		if kind == 1 || kind == 3 {
			e.Key = string([]byte{byte('a' + i)})
		}
		ents = append(ents, e)
	}
	return ents
}

func write(w dsio.EntryWriter, ents []model.Entry) bool {
	for i, e := range ents {
		if w.WriteEntry(dsio.Entry{Index: i, Key: e.Key, Value: e.Val}) != nil {
			return false
		}
	}
	return w.Close() == nil
}

// H_C25_roundtrip: every streaming format (array and object), every compression name, 0..2 entries holding an arbitrary character and a number: the compressed body holds exactly the plain body and reads back, from one-byte reads too.
func H_C25_roundtrip() {
	kind := v.Case(kinds)
	st := structure(kind)
	name := names[v.Pick(len(names))]
	ents := entries(kind, v.Pick(3))
	plain := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, plain)
	v.Assert(err == nil, "a writer opens")
	v.Assert(write(w, ents), "entries are written")
	cst := structure(kind)
	cst.Compression = name
	comp := &bytes.Buffer{}
	w, err = dsio.NewEntryWriter(cst, comp)
	v.Assert(err == nil, "a compressing writer opens")
	v.Assert(w.Structure() == cst, "a compressing writer keeps its structure")
	v.Assert(write(w, ents), "entries are written compressed")
	d, err := compression.Decompressor(name, bytes.NewReader(comp.Bytes()))
	v.Assert(err == nil, "what a writer produced can be decompressed")
	got, err := ioutil.ReadAll(d)
	v.Assert(err == nil, "what a writer produced decompresses in full")
	v.Assert(u.EqBytes(got, plain.Bytes()), "a compressed body holds the plain body")
	v.Assert(d.Close() == nil, "a decompressor closes")
	if len(ents) > 0 || kind != 6 {
		v.Assert(!u.EqBytes(comp.Bytes(), plain.Bytes()) || len(plain.Bytes()) == 0, "a compressed body is compressed")
	}
	var src io.Reader = bytes.NewReader(comp.Bytes())
	if v.Pick(2) == 1 {
		src = u.OneByte(comp.Bytes())
	}
	r, err := dsio.NewEntryReader(cst, src)
	v.Assert(err == nil, "a decompressing reader opens")
	back, err := u.ReadAll(r, len(ents)+1)
	v.Assert(u.IsEOF(err), "a compressed body ends in end-of-file")
	v.Assert(u.SameEntries(back, ents, kind == 1 || kind == 3), "entries come back from a compressed body")
	v.Assert(r.Close() == nil, "a decompressing reader closes")
	v.Reach("roundtrip")
}

// H_C25_pretty: the indented JSON writer over each compression, 0..2 entries.
func H_C25_pretty() {
	st := []*dataset.Structure{u.ArrayStruct("json"), u.ObjectStruct("json")}[v.Pick(2)]
	obj := st.Schema["type"] == "object"
	kind := 0
	if obj {
		kind = 1
	}
	ents := entries(kind, v.Pick(3))
	plain, comp := &bytes.Buffer{}, &bytes.Buffer{}
	w, err := dsio.NewJSONPrettyWriter(st, plain, "  ")
	v.Assert(err == nil && write(w, ents), "entries are written")
	st.Compression = names[v.Pick(len(names))]
	w, err = dsio.NewJSONPrettyWriter(st, comp, "  ")
	v.Assert(err == nil && write(w, ents), "entries are written compressed")
	d, err := compression.Decompressor(st.Compression, comp)
	v.Assert(err == nil, "what a writer produced can be decompressed")
	got, err := ioutil.ReadAll(d)
	v.Assert(err == nil && u.EqBytes(got, plain.Bytes()), "a compressed body holds the plain body")
	v.Reach("pretty")
}

// H_C25_convert: converting a body of 0..2 entries between plain and compressed structures of every pair of formats JSON, NDJSON and CBOR keeps its entries.
func H_C25_convert() {
	from, to := []int{0, 2, 4}[v.Case(3)], []int{0, 2, 4}[v.Pick(3)]
	ents := entries(4, v.Pick(3))
	in, out := structure(from), structure(to)
	c := v.Pick(3)
	if c != 1 {
		in.Compression = names[v.Pick(2)]
	}
	if c != 0 {
		out.Compression = names[v.Pick(2)]
	}
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(in, buf)
	v.Assert(err == nil && write(w, ents), "the source is written")
	data, err := dsio.ConvertFile(qfs.NewMemfileBytes("body", buf.Bytes()), in, out, 0, 0, true)
	v.Assert(err == nil, "a conversion works")
	r, err := dsio.NewEntryReader(out, bytes.NewReader(data))
	v.Assert(err == nil, "the result opens")
	back, err := u.ReadAll(r, len(ents)+1)
	v.Assert(u.IsEOF(err) && len(back) == len(ents), "the result has every entry once")
	for i := range back {
		v.Assert(u.EqVal(u.Floats(back[i].Value), u.Floats(ents[i].Val)), "entries keep their values")
	}
	v.Reach("convert")
}

// H_C25_faults: every format and compression, 0..2 entries, a sink whose write call 1..4 fails, once or from there on: success of every call implies that the sink took everything.
func H_C25_faults() {
	kind := v.Case(kinds)
	st := structure(kind)
	st.Compression = names[v.Pick(2)]
	ents := entries(kind, v.Pick(3))
	s := &sink{fail: v.Int(1, 4), once: v.Bool()}
	w, err := dsio.NewEntryWriter(st, s)
	ok := err == nil && write(w, ents)
	v.Assert(!ok || !s.failed, "a failed write of the sink is reported")
	v.Assert(ok || s.failed, "no error without a failed write")
	v.Reach("faults")
}

type sink struct {
	calls, fail  int
	once, failed bool
}

func (s *sink) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s.calls++
	if s.calls == s.fail || s.calls > s.fail && !s.once {
		s.failed = true
		return 0, u.ErrSource
	}
	return len(p), nil
}

// H_C25_wrong: 1..4 (6) arbitrary bytes that are no compressed stream, every format and compression: an error, never entries and a clean end.
func H_C25_wrong() {
	kind := v.Case(kinds)
	st := structure(kind)
	st.Compression = names[v.Pick(2)]
	data := v.Bytes(1 + v.Pick(v.Bound(4, 6)))
	v.Assume(data[0] != 0x1f && data[0] != 0x28 && data[0]&0xf0 != 0x50)
	r, err := dsio.NewEntryReader(st, bytes.NewReader(data))
	if err == nil {
		var ents []dsio.Entry
		ents, err = u.ReadAll(r, 3)
		v.Assert(len(ents) == 0, "no entries from what is no compressed stream")
	}
	v.Assert(err != nil && !(u.IsEOF(err)), "what is no compressed stream is an error")
	v.Reach("wrong")
}

// H_C25_cut: a compressed CSV or NDJSON body of 1..2 entries that lacks its last 1..3 bytes, or whose source fails there, is an error after some of its entries.
func H_C25_cut() {
	kind := 4 + v.Case(3)
	st := structure(kind)
	st.Compression = names[v.Pick(2)]
	ents := entries(kind, 1+v.Pick(2))
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	v.Assert(err == nil && write(w, ents), "the source is written")
	src := u.Chunked(buf.Bytes()[:buf.Len()-1-v.Pick(3)], v.Pick(2))
	if v.Bool() {
		src.Err = u.ErrSource
	}
	r, err := dsio.NewEntryReader(st, src)
	if err == nil {
		var back []dsio.Entry
		back, err = u.ReadAll(r, len(ents)+1)
		v.Assert(len(back) <= len(ents) && u.SameEntries(back, ents[:len(back)], false), "the entries before the end are the written ones")
	}
	v.Assert(err != nil && !u.IsEOF(err), "a compressed body that is cut short is an error")
	v.Reach("cut")
}

// H_C25_names: arbitrary names of letters of up to 4 (5) characters: a compressor and a decompressor exist exactly for the accepted names, also when opening readers and writers.
func H_C25_names() {
	kind := v.Case(kinds)
	name := v.String(v.Pick(v.Bound(5, 6)))
	for i := 0; i < len(name); i++ {
		v.Assume(name[i] >= 'A' && name[i] <= 'z' && name[i] != '\\')
	}
	known := v.Or(v.Or(name == "gz", name == "gzip"), v.Or(name == "zst", name == "zstd"))
	if name == "" {
		_, err := compression.Compressor(name, &bytes.Buffer{})
		v.Assert(err != nil, "no compressor without a name")
		_, err = compression.Decompressor(name, &bytes.Buffer{})
		v.Assert(err != nil, "no decompressor without a name")
		return
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(name, buf)
	v.Assert((err == nil) == known, "a compressor exists exactly for the accepted names")
	if err == nil {
		text := v.Bytes(2)
		_, err = w.Write(text)
		v.Assert(err == nil && w.Close() == nil, "a compressor takes data")
		d, err := compression.Decompressor(name, bytes.NewReader(buf.Bytes()))
		v.Assert(err == nil, "a decompressor exists for the accepted names")
		got, err := ioutil.ReadAll(d)
		v.Assert(err == nil && u.EqBytes(got, text), "compressing and decompressing gives the same bytes")
		v.Assert(d.Close() == nil, "a decompressor closes")
		v.Reach("known")
		return
	}
	_, err = compression.Decompressor(name, &bytes.Buffer{})
	v.Assert(err != nil, "unknown names are rejected")
	st := structure(kind)
	st.Compression = name
	_, err = dsio.NewEntryWriter(st, buf)
	v.Assert(err != nil, "a writer does not open with an unknown compression")
	_, err = dsio.NewEntryReader(st, buf)
	v.Assert(err != nil, "a reader does not open with an unknown compression")
	v.Reach("unknown")
}

// H_C25_detect: bodies of every format of 0..2 entries holding an arbitrary character, and bodies of 0..2 (3) arbitrary bytes (ASCII for CSV), in files with every accepted compression extension, for a dataset without or with an empty structure: detection gives what it gives for the plain body, plus the compression, and leaves the compressed file whole.
func H_C25_detect() {
	kind := v.Case(kinds + 4)
	var body []byte
	ext := []string{".json", ".json", ".cbor", ".cbor", ".ndjson", ".csv", ".csv", ".json", ".cbor", ".jsonl", ".csv"}[kind]
	if kind < kinds {
		buf := &bytes.Buffer{}
		w, err := dsio.NewEntryWriter(structure(kind), buf)
		v.Assert(err == nil && write(w, entries(kind, v.Pick(3))), "a body is written")
		body = buf.Bytes()
	} else {
		body = v.Bytes(v.Pick(v.Bound(3, 4)))
		for i := range body {
			v.Assume(kind != kinds+3 || body[i] < 0x80)
		}
	}
	name := names[v.Pick(2)]
	if kind == 0 {
		name = names[v.Pick(len(names))]
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(name, buf)
	v.Assert(err == nil, "a compressor opens")
	_, err = w.Write(body)
	v.Assert(err == nil && w.Close() == nil, "a compressor takes data")
	comp := buf.Bytes()

	plain, ds := &dataset.Dataset{}, &dataset.Dataset{}
	if kind%2 == 0 {
		plain.Structure, ds.Structure = &dataset.Structure{}, &dataset.Structure{}
	}
	plain.SetBodyFile(qfs.NewMemfileBytes("body"+ext, body))
	errPlain := detect.Structure(plain)
	ds.SetBodyFile(qfs.NewMemfileBytes("body"+ext+"."+name, comp))
	err = detect.Structure(ds)
	if len(body) > 0 {
		v.Assert((err == nil) == (errPlain == nil), "detecting a compressed body works exactly if it does for the plain body")
	}
	if err == nil && errPlain == nil {
		f, _ := compression.ParseFormat(name)
		v.Assert(ds.Structure.Compression == f.String(), "the compression is detected")
		ds.Structure.Compression = ""
		v.Assert(u.EqVal(mapOf(ds.Structure), mapOf(plain.Structure)), "a compressed body has the plain body's structure")
		v.Reach("detected")
	}
	got, err := ioutil.ReadAll(ds.BodyFile())
	v.Assert(err == nil && u.EqBytes(got, comp), "detection leaves a compressed body whole")
	v.Reach("detect")
}

func mapOf(st *dataset.Structure) interface{} {
	m := map[string]interface{}{"format": st.Format, "compression": st.Compression}
	if st.Schema != nil {
		m["schema"] = st.Schema
	}
	if st.FormatConfig != nil {
		m["config"] = st.FormatConfig
	}
	return m
}

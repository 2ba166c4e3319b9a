// Package c10 checks that writers report every failed write.
package c10

import (
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

// sink fails exactly one Write call (or all from there on), optionally accepting part of it.
type sink struct {
	calls, fail int
	once, part  bool
	failed      bool
	n           int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.calls == s.fail || s.calls > s.fail && !s.once && s.fail > 0 {
		s.failed = true
		if s.part {
			return len(p) / 2, u.ErrSource
		}
		return 0, u.ErrSource
	}
	s.n += len(p)
	return len(p), nil
}

func csvStruct(header bool) *dataset.Structure {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type": "array",
		"items": map[string]interface{}{"type": "array", "items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
		}},
	}}
	if header {
		st.FormatConfig = map[string]interface{}{"headerRow": true}
	}
	return st
}

// H_C10_writers: every writer, 0 to 3 entries, a transient or permanent failure of any of the first 5 (8) write calls (the call is symbolic), of nothing or half of the bytes; entries of one arbitrary byte or of 2500 (5000) bytes.
func H_C10_writers() {
	kind := v.Case(10)
	n := v.Pick(4)
	big := v.Pick(2) == 1
	s := &sink{fail: v.Int(0, v.Bound(5, 8)), once: v.Bool(), part: v.Bool()}
	var w dsio.EntryWriter
	var err error
	csv := false
	switch kind {
	case 0:
		w, err = dsio.NewEntryWriter(u.ArrayStruct("json"), s)
	case 1:
		w, err = dsio.NewEntryWriter(u.ObjectStruct("json"), s)
	case 2:
		w, err = dsio.NewJSONPrettyWriter(u.ArrayStruct("json"), s, " ")
	case 3:
		w, err = dsio.NewJSONPrettyWriter(u.ObjectStruct("json"), s, " ")
	case 4:
		w, err = dsio.NewEntryWriter(u.ArrayStruct("cbor"), s)
	case 5:
		w, err = dsio.NewEntryWriter(u.ObjectStruct("cbor"), s)
	case 6:
		w, err = dsio.NewEntryWriter(u.ArrayStruct("ndjson"), s)
	case 7:
		w, err = dsio.NewEntryWriter(csvStruct(false), s)
		csv = true
	case 8:
		w, err = dsio.NewEntryWriter(csvStruct(true), s)
		csv = true
	case 9:
		w, err = dsio.NewJSONPrettyWriter(u.ObjectStruct("json"), s, "\t\t")
	}
	reported := err != nil
	v.Assert(err == nil || s.failed, "writer opens")
	if err == nil {
		text := v.String(1)
		if big {
			b := make([]byte, v.Bound(2500, 5000))
			for i := range b {
				b[i] = 'x'
			}
			text = string(b)
		}
		for i := 0; i < n; i++ {
			var x interface{} = text
			if csv {
				x = []interface{}{text}
			}
			if w.WriteEntry(dsio.Entry{Index: i, Key: string([]byte{byte('a' + i)}), Value: x}) != nil {
				reported = true
			}
		}
		if w.Close() != nil {
			reported = true
		}
	}
	if s.failed {
		v.Assert(reported, "a failed write of the sink is reported")
		v.Reach("failed")
	} else {
		v.Assert(!reported, "no error without a failed write")
		v.Reach("fine")
	}
}

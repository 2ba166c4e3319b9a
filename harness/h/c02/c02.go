// Package c02 checks that no byte sequence makes a body reader panic or hang.
package c02

import (
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

// drain reads entries until the first error, then (again) tries twice more.
func drain(r dsio.EntryReader, err error, n int, again bool) {
	v.Assert(err == nil, "reader opens")
	c := 0
	for {
		_, err = r.ReadEntry()
		if err != nil {
			break
		}
		c++
		v.Assert(c <= n, "no more entries than bytes")
	}
	if c > 0 {
		v.Reach("entries")
	}
	if err == io.EOF {
		v.Reach("eof")
	} else {
		v.Reach("error")
	}
	if again {
		r.ReadEntry()
		r.ReadEntry()
	}
	v.Assert(r.Close() == nil, "close")
}

func st(format string, obj int) *dataset.Structure {
	if obj == 1 {
		return u.ObjectStruct(format)
	}
	return u.ArrayStruct(format)
}

func src(b []byte) *u.Src {
	s := &u.Src{Data: b}
	if v.Pick(2) == 1 {
		s.Err = u.ErrSource
	}
	return s
}

// H_C02_json: every byte string of up to 4 (6) bytes after the opening bracket, as an array and as an object.
func H_C02_json() {
	obj := v.Case(2)
	n := v.Case(v.Bound(5, 7))
	b := append([]byte{"[{"[obj]}, v.Bytes(n)...)
	r, err := dsio.NewJSONReaderSize(st("json", obj), src(b), 16)
	drain(r, err, len(b), false)
}

// H_C02_jsonhead: every byte string of up to 3 bytes without a known first byte.
func H_C02_jsonhead() {
	obj := v.Case(2)
	b := v.Bytes(v.Case(4))
	r, err := dsio.NewJSONReaderSize(st("json", obj), src(b), 16)
	drain(r, err, len(b), true)
}

// H_C02_jsonedge: three arbitrary bytes of any token around the edge of the 16 byte buffer.
func H_C02_jsonedge() {
	tok := []string{`"`, `"\`, `"\u0`, `"\u00`, `"\u00e`, `"\x`, `"\x4`, `t`, `tr`, `fals`, `nul`, `-`, `1`, `1.`, `1e`, `[`, `[1,`, `{"a":`, `{"a"`, `{`}
	t := v.Case(len(tok))
	pad := 9 + v.Pick(7)
	b := []byte{'['}
	for len(b) < pad {
		b = append(b, ' ')
	}
	b = append(b, tok[t]...)
	b = append(b, v.Bytes(v.Bound(2, 3))...)
	r, err := dsio.NewJSONReaderSize(st("json", 0), &u.Src{Data: b}, 16)
	drain(r, err, len(b), true)
}

// H_C02_cbor: every byte string of up to 4 (5) bytes as a CBOR array or map.
func H_C02_cbor() {
	obj := v.Case(2)
	n := v.Case(v.Bound(5, 6))
	b := v.Bytes(n)
	r, err := dsio.NewCBORReader(st("cbor", obj), src(b))
	drain(r, err, len(b), false)
}

// H_C02_cborlen: every 1, 2, 4 and 8 byte length of every major type, inside an array and inside a map, with 1 (2) more arbitrary bytes.
func H_C02_cborlen() {
	obj := v.Case(2)
	major := byte(v.Case(8)) << 5
	w := v.Case(4)
	var b []byte
	if obj == 1 {
		b = append(b, 0xa1, 0x61, 'k')
	} else {
		b = append(b, 0x81)
	}
	b = append(b, major|byte(24+w))
	b = append(b, v.Bytes(1<<uint(w))...)
	b = append(b, v.Bytes(v.Bound(1, 2))...)
	r, err := dsio.NewCBORReader(st("cbor", obj), src(b))
	drain(r, err, len(b), false)
}

// H_C02_ndjson: every byte string of up to 4 (6) bytes as an NDJSON body.
func H_C02_ndjson() {
	b := v.Bytes(v.Case(v.Bound(5, 7)))
	r, err := dsio.NewNDJSONReader(st("ndjson", 0), src(b))
	drain(r, err, len(b), false)
}

// H_C02_csv: every byte string of up to 3 (5) bytes as a CSV body, for each column type and option.
func H_C02_csv() {
	n := v.Case(v.Bound(4, 6))
	types := []string{"string", "number", "integer", "boolean", "object", "array", "null", "other"}
	typ := types[v.Case(len(types))]
	s := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type": "array",
		"items": map[string]interface{}{
			"type": "array",
			"items": []interface{}{
				map[string]interface{}{"title": "a", "type": typ},
			},
		},
	}}
	switch v.Pick(4) {
	case 0:
		s.FormatConfig = map[string]interface{}{"headerRow": true}
	case 1:
		s.FormatConfig = map[string]interface{}{"lazyQuotes": true, "variadicFields": true}
	case 2:
		s.FormatConfig = map[string]interface{}{"separator": ";"}
	}
	b := v.Bytes(n)
	r, err := dsio.NewCSVReaderSize(s, src(b), 64)
	drain(r, err, len(b), false)
}

// H_C02_deep: 1 to 60 (200) openings of nested arrays or objects that may or may not be closed, followed by 2 arbitrary bytes.
func H_C02_deep() {
	n := []int{1, 2, 5, 17, 33, 60, 200}[v.Case(v.Bound(6, 7))]
	format := []string{"json", "cbor", "ndjson"}[v.Case(3)]
	v.Steps(30000000)
	kind := v.Pick(3)
	var b []byte
	for i := 0; i < n; i++ {
		if format == "cbor" {
			b = append(b, [][]byte{{0x81}, {0x9f}, {0xa1, 0x61, 'a'}}[kind]...)
			if i == 0 {
				b = []byte{[]byte{0x81, 0x9f, 0x81}[kind]}
			}
		} else {
			b = append(b, []string{"[", "[1,", `{"a":`}[kind]...)
			if i == 0 && kind == 2 {
				b = []byte("[")
			}
		}
	}
	b = append(b, v.Bytes(2)...)
	if v.Pick(2) == 1 {
		for i := 0; i < n; i++ {
			switch {
			case format == "cbor" && kind == 1:
				b = append(b, 0xff)
			case format == "cbor":
			case kind == 2 && i < n-1:
				b = append(b, '}')
			default:
				b = append(b, ']')
			}
		}
	}
	r, err := dsio.NewEntryReader(st(format, 0), src(b))
	drain(r, err, len(b), false)
}

// H_C02_nested: values nested in 2000 or 10100 (also 20000) lists, objects, indefinite lists or tags around an arbitrary byte: read or refused, and those beyond 10000 levels refused.
func H_C02_nested() {
	n := []int{2000, 10100, 20000}[v.Case(v.Bound(2, 3))]
	format := []string{"json", "cbor"}[v.Case(2)]
	kind := v.Case(2)
	if format == "cbor" {
		kind = v.Pick(4)
	}
	v.Steps(60000000)
	opens, closes := []string{"[", `{"":`}, []string{"]", "}"}
	if format == "cbor" {
		opens, closes = []string{"\x81", "\xa1\x60", "\x9f", "\xc1"}, []string{"", "", "\xff", ""}
	}
	b := []byte("[")
	if format == "cbor" {
		b = []byte{0x81}
	}
	b = append(b, strings.Repeat(opens[kind], n)...)
	x := v.Byte()
	if format == "cbor" {
		v.Assume(x < 0x18)
	} else {
		v.Assume(x >= '0' && x <= '9')
	}
	b = append(b, x)
	b = append(b, strings.Repeat(closes[kind], n)...)
	if format == "json" {
		b = append(b, ']')
	}
	r, err := dsio.NewEntryReader(st(format, 0), &u.Src{Data: b})
	v.Assert(err == nil, "reader opens")
	_, err = r.ReadEntry()
	if n > 10000 {
		v.Assert(err != nil && !u.IsEOF(err), "values nested without limit are refused")
	} else {
		v.Assert(err == nil, "nested values are read")
	}
	v.Reach(format)
}

// H_C02_split: 3 (4) arbitrary bytes of every format, delivered one at a time, with empty reads in between or not.
func H_C02_split() {
	format := []string{"json", "cbor", "ndjson", "csv"}[v.Case(4)]
	obj := v.Case(2)
	s := st(format, obj)
	if format == "csv" {
		s.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"items": []interface{}{map[string]interface{}{"type": "integer"}}}}
	} else if format == "ndjson" {
		s = st(format, 0)
	}
	b := v.Bytes(v.Bound(3, 4))
	switch {
	case format == "json":
		b = append([]byte{"[{"[obj]}, b...)
	case format == "cbor":
		b = append([]byte{[]byte{0x82, 0xbf}[obj]}, b...)
	}
	r, err := dsio.NewEntryReader(s, u.OneByte(b))
	drain(r, err, len(b), true)
}

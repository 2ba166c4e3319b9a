// Package c01 checks that the JSON body reader yields exactly the document's entries.
package c01

import (
	"unicode/utf8"

	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

// check reads doc with the given buffer size and compares with the reference decoder.
func check(doc []byte, size int) {
	v.Assume(utf8.Valid(doc))
	want, obj, ok := model.RefEntries(doc)
	v.Assume(ok)
	st := u.ArrayStruct("json")
	if obj {
		st = u.ObjectStruct("json")
	}
	r, err := dsio.NewJSONReaderSize(st, &u.Src{Data: doc}, size)
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(u.IsEOF(err), "well-formed document ends in end-of-file")
	v.Assert(u.SameEntries(got, want, obj), "entries equal the document's elements")
	_, err = r.ReadEntry()
	if len(got) > 0 {
		v.Reach("entries")
	} else {
		v.Reach("empty")
	}
}

// H_C01_bytes: every byte string of length 2..7 (thorough 2..8) that is a well-formed array or object.
func H_C01_bytes() {
	n := 2 + v.Case(v.Bound(6, 7))
	first := v.Case(2)
	doc := v.Bytes(n)
	if first == 0 {
		v.Assume(doc[0] == '[')
	} else {
		v.Assume(doc[0] == '{')
	}
	check(doc, 16)
}

func spaces(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, ' ')
	}
	return b
}

func hex(b byte) bool {
	return v.Or(v.And(b >= '0', b <= '9'), v.Or(v.And(b >= 'a', b <= 'f'), v.And(b >= 'A', b <= 'F')))
}

// element returns one JSON value of the given kind with arbitrary content.
func element(kind int) []byte {
	var b []byte
	switch kind {
	case 0: // string of 3 arbitrary bytes (escapes and multi-byte runes included)
		b = append(b, '"')
		b = append(b, v.Bytes(v.Bound(3, 4))...)
		return append(b, '"')
	case 1: // integer with up to 3 arbitrary digits
		if v.Pick(2) == 1 {
			b = append(b, '-')
		}
		return append(b, v.Bytes(1+v.Pick(3))...)
	case 2:
		return []byte([]string{"true", "false", "null"}[v.Pick(3)])
	case 3: // nested array
		b = append(b, '[')
		b = append(b, v.Bytes(2)...)
		return append(b, ']')
	case 4: // nested object, arbitrary one byte key
		b = append(b, '{', '"')
		b = append(b, v.Byte(), '"', ':')
		b = append(b, v.Byte())
		return append(b, '}')
	case 5: // \u escape with arbitrary hex digits in some positions
		b = append(b, '"', '\\', 'u')
		switch v.Pick(v.Bound(2, 3)) {
		case 0:
			b = append(b, '0', '0', v.Byte(), v.Byte())
		case 1:
			b = append(b, '0', v.Byte(), 'a', v.Byte())
		case 2:
			b = append(b, v.Byte(), v.Byte(), '7', v.Byte())
		}
		return append(b, 'x', '"')
	case 6: // surrogate pairs and lone surrogates
		h := v.Bytes(2)
		b = append(b, '"', '\\', 'u', 'd', h[0], '3', 'd', '\\', 'u', 'D', h[1], '0', '1')
		return append(b, '"')
	case 7: // fractional and exponent numbers
		t := []string{"1.5", "-0.25", "1e2", "2E-1", "-12.5e+1", "0.1", "100"}
		return []byte(t[v.Pick(len(t))])
	case 8: // a two character escape between arbitrary bytes
		b = append(b, '"', v.Byte(), '\\', v.Byte())
		return append(b, v.Byte(), '"')
	}
	// whitespace-heavy nesting
	return []byte("[ {\"a\" : [ ] , \"b\":{ } } ]")
}

// H_C01_boundary: two elements of any kind behind 0..15 bytes of padding, read with a 16 byte buffer, in arrays and objects.
func H_C01_boundary() {
	k1 := v.Case(10)
	pad := v.Case(16)
	obj := v.Pick(2) == 1
	var doc []byte
	if obj {
		doc = append(doc, '{')
	} else {
		doc = append(doc, '[')
	}
	doc = append(doc, spaces(pad)...)
	if obj {
		doc = append(doc, `"k":`...)
	}
	doc = append(doc, element(k1)...)
	doc = append(doc, ',', ' ')
	if obj {
		doc = append(doc, `"j" :`...)
	}
	doc = append(doc, `"z"`...)
	if obj {
		doc = append(doc, '}')
	} else {
		doc = append(doc, ']')
	}
	check(doc, 16)
}

// H_C01_bigint: integers of 18 to 20 digits around the int64 limits, with arbitrary last digits.
func H_C01_bigint() {
	doc := []byte{'['}
	if v.Pick(2) == 1 {
		doc = append(doc, '-')
	}
	doc = append(doc, []string{"922337203685477580", "92233720368547758", "18446744073709551"}[v.Pick(3)]...)
	n := 1 + v.Pick(2)
	for i := 0; i < n; i++ {
		b := v.Byte()
		v.Assume(b >= '0' && b <= '9')
		doc = append(doc, b)
	}
	doc = append(doc, ',', '1', ']')
	check(doc, 32)
}

// H_C01_default: the default buffer size gives the same result, and small reads by the source do not matter.
func H_C01_default() {
	n := 2 + v.Case(3)
	doc := v.Bytes(n)
	want, obj, ok := model.RefEntries(doc)
	v.Assume(ok && utf8.Valid(doc))
	st := u.ArrayStruct("json")
	if obj {
		st = u.ObjectStruct("json")
	}
	r, err := dsio.NewJSONReader(st, u.OneByte(doc))
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(u.IsEOF(err), "well-formed document ends in end-of-file")
	v.Assert(u.SameEntries(got, want, obj), "entries equal the document's elements")
	v.Reach("default")
}

// H_C01_cut: every well-formed document of up to 5 (6) bytes or built from an element template, cut at every point.
func H_C01_cut() {
	var doc []byte
	k := v.Case(11)
	if k == 10 {
		doc = v.Bytes(v.Bound(5, 6))
		v.Assume(doc[0] == '[' || doc[0] == '{')
		v.Assume(doc[len(doc)-1] == ']' || doc[len(doc)-1] == '}')
	} else {
		doc = append(doc, '[')
		doc = append(doc, element(k)...)
		doc = append(doc, ',', '7', ']')
	}
	want, obj, ok := model.RefEntries(doc)
	v.Assume(ok && utf8.Valid(doc))
	cut := v.Pick(len(doc))
	st := u.ArrayStruct("json")
	if obj {
		st = u.ObjectStruct("json")
	}
	r, err := dsio.NewJSONReaderSize(st, &u.Src{Data: doc[:cut:cut]}, 16)
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(err != nil && !u.IsEOF(err), "a document cut short does not end in a clean end-of-file")
	if n := len(got); n > 0 && got[n-1].Value == nil {
		// a value missing at the end of the text reads as null before the error is reported
		got = got[:n-1]
	}
	v.Assert(len(got) <= len(want), "no invented entries")
	if len(got) > 0 {
		last := len(got) - 1
		v.Assert(u.SameEntries(got[:last], want[:last], obj), "entries before the cut are unaltered")
		switch got[last].Value.(type) {
		case int64, float64:
		default:
			v.Assert(u.EqVal(got[last].Value, want[last].Val), "last entry before the cut is unaltered")
		}
		v.Reach("cut after entries")
	}
	v.Reach("cut")
}

// H_C01_garbage: a byte that cannot start a value, in every value position, is an error (after at most a null placeholder).
func H_C01_garbage() {
	pre := []string{"[", "[1,", "[[", "[[1,", "{\"a\":", "[{\"a\":", "{\"a\":[", "[{\"a\":1,\"b\":", "[1,[1,{\"a\":"}
	suf := []string{"]", "]", "]]", "]]", "}", "}]", "]}", "}]", "}]]"}
	full := []int{0, 1, 0, 0, 0, 0, 0, 0, 1}
	i := v.Case(len(pre))
	b := v.Byte()
	starter := v.Or(v.And(b >= '0', b <= '9'), v.Or(b == '"' || b == '-' || b == '[' || b == '{', b == 't' || b == 'f' || b == 'n'))
	v.Assume(!starter)
	v.Assume(b != ' ' && b != '\t' && b != '\r' && b != '\n')
	v.Assume(b != ']' && b != '}' && b != ',') // a missing value: read as null
	doc := append([]byte(pre[i]), b)
	doc = append(doc, suf[i]...)
	st := u.ArrayStruct("json")
	if doc[0] == '{' {
		st = u.ObjectStruct("json")
	}
	r, err := dsio.NewJSONReaderSize(st, &u.Src{Data: doc}, 16)
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(err != nil && !u.IsEOF(err), "a missing or unrecognisable value is an error")
	if n := len(got); n > 0 && got[n-1].Value == nil {
		got = got[:n-1]
	}
	v.Assert(len(got) <= full[i], "no entry is invented for an unrecognisable value")
	v.Reach("garbage")
}

// H_C01_nested: objects of three members with arbitrary one byte keys (repeated keys included), at the top and nested.
func H_C01_nested() {
	var doc []byte
	k := v.Case(3)
	open, end := []string{`{`, `[{`, `{"z":[{`}[k], []string{`}`, `}]`, `}]}`}[k]
	doc = append(doc, open...)
	vals := []string{`1`, `"2"`, `[3]`}
	for i, x := range vals {
		if i > 0 {
			doc = append(doc, ',')
		}
		doc = append(doc, '"', v.Byte(), '"', ':')
		doc = append(doc, x...)
	}
	doc = append(doc, end...)
	check(doc, 16)
}

// H_C01_keys: keys that are strings of every kind, behind padding that moves them across the read buffer.
func H_C01_keys() {
	kind := []int{0, 5, 6, 8}[v.Case(4)]
	pad := v.Case(16)
	var doc []byte
	nested := v.Pick(2) == 1
	if nested {
		doc = append(doc, '[')
	}
	doc = append(doc, '{')
	doc = append(doc, spaces(pad)...)
	doc = append(doc, element(kind)...)
	doc = append(doc, `: 1,"longer key": 2}`...)
	if nested {
		doc = append(doc, ']')
	}
	check(doc, 16)
}

// H_C01_space: one arbitrary byte and a run of spaces in every gap between tokens.
func H_C01_space() {
	toks := []string{`[`, `1`, `,`, `{`, `"a"`, `:`, `"b"`, `,`, `"c"`, `:`, `[`, `true`, `,`, `-3`, `]`, `}`, `,`, `1.5e1`, `,`, `null`, `]`}
	if v.Case(2) == 1 {
		toks = []string{`{`, `"x"`, `:`, `1`, `,`, `"y"`, `:`, `{`, `"a"`, `:`, `"b"`, `,`, `"c"`, `:`, `[`, `]`, `}`, `,`, `"d"`, `:`, `false`, `}`}
	}
	gap := v.Pick(len(toks) + 1)
	n := []int{0, 1, 14, 15, 16, 40}[v.Pick(6)]
	var doc []byte
	for i, t := range toks {
		if i == gap {
			doc = append(doc, spaces(n)...)
			doc = append(doc, v.Byte())
		}
		doc = append(doc, t...)
	}
	if gap == len(toks) {
		doc = append(doc, v.Byte())
	}
	check(doc, 16)
}

// H_C01_many: 0 to 300 entries, in arrays and objects, with one arbitrary digit in every entry.
func H_C01_many() {
	n := []int{1, 9, 10, 11, 16, 99, 101, 127, 128, 129, 255, 256, 257, 300}[v.Case(14)]
	obj := v.Pick(2) == 1
	v.Steps(20000000)
	d := v.Byte()
	v.Assume(v.And(d >= '0', d <= '9'))
	doc := []byte("[")
	if obj {
		doc = []byte("{")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			doc = append(doc, ',')
		}
		if obj {
			doc = append(doc, '"', byte('0'+i/100), byte('0'+i/10%10), byte('0'+i%10), '"', ':')
		}
		doc = append(doc, '1', d)
	}
	if obj {
		doc = append(doc, '}')
	} else {
		doc = append(doc, ']')
	}
	check(doc, 64)
}

// H_C01_deep: values nested 1 to 40 (120) levels deep in arrays and objects.
func H_C01_deep() {
	n := 1 + v.Case(v.Bound(40, 120))
	v.Steps(20000000)
	var doc, end []byte
	mixed := v.Pick(2) == 1
	for i := 0; i < n; i++ {
		if mixed && i%2 == 1 {
			doc = append(doc, `{"k":`...)
			end = append(end, '}')
		} else {
			doc = append(doc, '[')
			end = append(end, ']')
		}
	}
	doc = append(doc, '"', v.Byte(), '"')
	for i := len(end) - 1; i >= 0; i-- {
		doc = append(doc, end[i])
	}
	check(doc, 16)
}

// H_C01_block: an element of every kind placed across the block of 4096 bytes that the reader fills at a time, after one long string or much space.
func H_C01_block() {
	k := v.Case(10)
	off := []int{1, 2, 5, 9, 0, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15}[v.Pick(v.Bound(4, 16))]
	v.Steps(20000000)
	doc := []byte("[")
	if v.Pick(2) == 0 {
		doc = append(doc, '"')
		for len(doc) < 4096-off-3 {
			doc = append(doc, 'x')
		}
		doc = append(doc, '"', ',')
	} else {
		doc = append(doc, '1', ',')
		for len(doc) < 4096-off {
			doc = append(doc, ' ')
		}
	}
	doc = append(doc, element(k)...)
	doc = append(doc, ',', '7', ']')
	v.Assume(utf8.Valid(doc[4080:]))
	want, _, ok := model.RefEntries(doc)
	v.Assume(ok)
	r, err := dsio.NewJSONReader(u.ArrayStruct("json"), &u.Src{Data: doc, Split: []int{4096, 4097, 4100}})
	v.Assert(err == nil, "reader opens")
	got, err := u.ReadAll(r, len(doc))
	v.Assert(u.IsEOF(err), "well-formed document ends in end-of-file")
	v.Assert(u.SameEntries(got, want, false), "entries equal the document's elements")
	v.Reach("block")
}

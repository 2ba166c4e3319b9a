// Package c04 checks the CBOR body reader against a reference decoder.
package c04

import (
	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func open(b []byte, obj bool) *dsio.CBORReader {
	st := u.ArrayStruct("cbor")
	if obj {
		st = u.ObjectStruct("cbor")
	}
	r, err := dsio.NewCBORReader(st, &u.Src{Data: b})
	v.Assert(err == nil, "reader opens")
	return r
}

func check(b []byte) []model.Entry {
	want, obj, ok := u.RefCBOR(b)
	v.Assume(ok)
	got, err := u.ReadAll(open(b, obj), len(b))
	v.Assert(u.IsEOF(err), "well-formed body ends in end-of-file")
	v.Assert(u.SameEntries(got, want, obj), "entries equal the encoded elements")
	if len(got) > 0 {
		v.Reach("entries")
	} else {
		v.Reach("empty")
	}
	return want
}

// H_C04_bytes: every byte string of up to 4 (6) bytes that is a well-formed CBOR array or map.
func H_C04_bytes() {
	n := 1 + v.Case(v.Bound(4, 6))
	obj := v.Case(2)
	b := v.Bytes(n)
	v.Assume(b[0]>>5 == byte(4+obj))
	check(b)
}

// wrap puts an encoded value into a definite or indefinite array or map, with a neighbour behind it.
func wrap(val []byte) []byte {
	var b []byte
	switch v.Pick(4) {
	case 0:
		b = append(append([]byte{0x82}, val...), 0x61, 'z')
	case 1:
		b = append(append([]byte{0x9f}, val...), 0x61, 'z', 0xff)
	case 2:
		b = append(append([]byte{0xa2, 0x61, 'k'}, val...), 0x61, 'l', 0x05)
	case 3:
		b = append(append([]byte{0xbf, 0x61, 'k'}, val...), 0x61, 'l', 0x05, 0xff)
	}
	return b
}

// H_C04_ints: every integer of every width and sign.
func H_C04_ints() {
	w := v.Case(5)
	neg := byte(v.Pick(2)) << 5
	var val []byte
	if w == 4 {
		x := v.Byte()
		v.Assume(x < 24)
		val = []byte{neg | x}
	} else {
		val = append([]byte{neg | byte(24+w)}, v.Bytes(1<<uint(w))...)
	}
	check(wrap(val))
}

// H_C04_floats: every half, single and double precision float.
func H_C04_floats() {
	w := 1 + v.Case(3)
	val := append([]byte{byte(0xf8 + w)}, v.Bytes(1<<uint(w))...)
	if w == 1 {
		e := v.Case(32)
		v.Assume(val[1]>>2&31 == byte(e))
	}
	check(wrap(val))
}

// H_C04_strings: text and byte strings of every length form, with lengths around 23/24, 255/256 and the 4096 byte stream buffer, followed by more values.
func H_C04_strings() {
	lens := []int{0, 1, 23, 24, 255, 256, 4093, 4095, 4096, 5000, 8200}
	n := lens[v.Case(len(lens))]
	major := byte(2+v.Pick(2)) << 5
	var val []byte
	switch v.Pick(5) {
	case 0:
		v.Assume(n < 24)
		val = append(val, major|byte(n))
	case 1:
		v.Assume(n < 256)
		val = append(val, major|24, byte(n))
	case 2:
		val = append(val, major|25, byte(n>>8), byte(n))
	case 3:
		val = append(val, major|26, 0, 0, byte(n>>8), byte(n))
	case 4:
		val = append(val, major|27, 0, 0, 0, 0, 0, 0, byte(n>>8), byte(n))
	}
	body := make([]byte, n)
	for i := range body {
		body[i] = byte('a' + i%26)
	}
	if n > 0 {
		body[0] = v.Byte()
		body[n-1] = v.Byte()
		body[n/2] = v.Byte()
	}
	val = append(val, body...)
	check(wrap(val))
	v.Reach("strings")
}

// H_C04_nested: tags, simple values and nested containers of every length form around arbitrary small items.
func H_C04_nested() {
	k := v.Case(9)
	var val []byte
	item := []byte{v.Byte()}
	v.Assume(item[0] < 24 || item[0] >= 0x20 && item[0] < 0x38 || item[0] >= 0xf4 && item[0] <= 0xf7)
	switch k {
	case 0:
		val = append([]byte{0xc0 | v.Byte()&15}, item...)
	case 1:
		val = append([]byte{0xd8, v.Byte()}, item...)
	case 2:
		val = append([]byte{0xd9, v.Byte(), v.Byte()}, item...)
	case 3:
		val = []byte{0xf8, v.Byte()}
	case 4:
		val = append(append([]byte{0x98, 2}, item...), 0x41, v.Byte())
	case 5:
		val = append(append([]byte{0x9f, 0x80}, item...), 0xff)
	case 6:
		val = append(append([]byte{0xb9, 0, 2, 0x61, v.Byte()}, item...), 0x60, 0xa0)
	case 7:
		val = append(append([]byte{0xbf, 0x61, v.Byte()}, item...), 0xff)
	case 8:
		val = []byte{0x7f, 0x61, v.Byte(), 0x60, 0x78, 1, v.Byte(), 0xff}
	}
	check(wrap(val))
}

// H_C04_cut: every well-formed body of the shapes above, cut at every point after its first byte, is an error after its complete entries.
func H_C04_cut() {
	k := v.Case(7)
	var val []byte
	switch k {
	case 0:
		val = append([]byte{0x1a}, v.Bytes(4)...)
	case 1:
		val = append([]byte{0x63}, v.Bytes(3)...)
	case 2:
		val = append([]byte{0xfb}, v.Bytes(8)...)
	case 3:
		val = []byte{0x82, v.Byte() & 15, 0x41, v.Byte()}
	case 4:
		val = []byte{0x5f, 0x41, v.Byte(), 0x41, 0, 0xff}
	case 5:
		val = []byte{0xa1, 0x61, v.Byte(), 0x18, v.Byte()}
	case 6:
		val = []byte{0xc1, 0x19, v.Byte(), v.Byte()}
	}
	b := wrap(val)
	want, obj, ok := u.RefCBOR(b)
	v.Assume(ok)
	cut := 1 + v.Pick(len(b)-1)
	got, err := u.ReadAll(open(b[:cut:cut], obj), len(b))
	v.Assert(err != nil && !u.IsEOF(err), "a body cut short does not end in a clean end-of-file")
	v.Assert(len(got) <= len(want), "no invented entries")
	v.Assert(u.SameEntries(got, want[:len(got)], obj), "entries before the cut are unaltered")
	if len(got) > 0 {
		v.Reach("cut after entries")
	}
	v.Reach("cut")
}

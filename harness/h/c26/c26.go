// Package c26 checks content hashes. SHA-256 is replaced by an ideal hash (different contents, different digests) while
// exploring; replays use the real one.
package c26

import (
	"crypto/sha256"
	"encoding/json"
	"errors"

	"github.com/qri-io/dataset"
	"verifh/u"
	"verifh/v"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// ref is the base 58 form of the SHA-256 multihash of data.
func ref(data []byte) string {
	sum := sha256.Sum256(data)
	n := append([]byte{0x12, 32}, sum[:]...)
	out := ""
	for len(n) > 0 {
		rem := 0
		var q []byte
		for _, b := range n {
			rem = rem<<8 | int(b)
			if d := rem / 58; d > 0 || len(q) > 0 {
				q = append(q, byte(d))
			}
			rem %= 58
		}
		out = alphabet[rem:rem+1] + out
		n = q
	}
	return out
}

// H_C26_bytes: pairs of arbitrary byte strings of 0..3 (4) bytes.
func H_C26_bytes() {
	n, m := v.Case(v.Bound(4, 5)), v.Pick(v.Bound(4, 5))
	a, b := v.Bytes(n), v.Bytes(m)
	keep := string(a)
	x, err := dataset.HashBytes(a)
	v.Assert(err == nil && x == ref(a), "a hash is the multihash of the content")
	v.Assert(string(a) == keep, "hashing leaves the content alone")
	y, err := dataset.HashBytes(b)
	v.Assert(err == nil && y == ref(b), "a hash is the multihash of the content")
	v.Assert((x == y) == (string(a) == string(b)), "equal contents, and only they, have equal hashes")
	z, err := dataset.HashBytes(append([]byte(nil), a...))
	v.Assert(err == nil && z == x, "hashing is repeatable")
	v.Reach("bytes")
}

type raw struct {
	data []byte
	err  error
}

func (r raw) MarshalJSON() ([]byte, error) { return r.data, r.err }

// H_C26_raw: JSONHash of arbitrary encodings of 0..3 bytes, and of encoders that fail.
func H_C26_raw() {
	r := raw{data: v.Bytes(v.Pick(4))}
	if v.Pick(2) == 1 {
		r.err = errors.New("no encoding")
		h, err := dataset.JSONHash(r)
		v.Assert(err == r.err && h == "", "a content that cannot be encoded is an error")
	} else {
		h, err := dataset.JSONHash(r)
		v.Assert(err == nil && h == ref(r.data), "a hash is that of the whole encoding")
	}
	v.Reach("raw")
}

// variant gives a structure that differs from others in field k only, by x and n.
func variant(k int, x string, n int) *dataset.Structure {
	s := &dataset.Structure{Format: "csv", Depth: 2, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "string"}}, FormatConfig: map[string]interface{}{"headerRow": true}}
	switch k {
	case 0:
		s.Checksum = x
	case 1:
		s.Compression = x
	case 2:
		s.Depth = n
	case 3:
		s.Encoding = x
	case 4:
		s.Entries = n
	case 5:
		s.ErrCount = n
	case 6:
		s.Format = x
	case 7:
		s.FormatConfig = map[string]interface{}{"headerRow": true, "separator": x}
	case 8:
		s.Length = n
	case 9:
		s.Path = x
	case 10:
		s.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"title": x, "type": "string"}}
	case 11:
		s.Strict = n%2 == 1
	case 12:
		s.Qri = "st:" + x
	case 13:
		s = &dataset.Structure{Path: x}
	}
	return s
}

// H_C26_structure: pairs of structures that differ in one field (any), texts of 1 (0..1) characters and numbers 0..9, every map order; also references.
func H_C26_structure() {
	k := v.Case(14)
	x, y := u.Text(1), u.Text(1)
	m, n := v.Int(0, 9), v.Int(0, 9)
	a, b := variant(k, x, m), variant(k, y, n)
	v.MapPerm(true)
	ha, err := a.Hash()
	v.Assert(err == nil, "a structure is hashed")
	hb, err := b.Hash()
	v.Assert(err == nil, "a structure is hashed")
	v.MapPerm(false)
	same := x == y
	switch k {
	case 2, 4, 5, 8:
		same = m == n
	case 11:
		same = m%2 == n%2
	}
	v.Assert((ha == hb) == same, "structures have equal hashes exactly when they are equal")
	data, err := json.Marshal(a)
	v.Assert(err == nil && ha == ref(data), "the hash of a structure is that of its JSON encoding")
	v.Reach("structure")
}

// H_C26_component: the hash of every other component is that of its JSON encoding, and follows an arbitrary character in it.
func H_C26_component() {
	k := v.Case(7)
	x, y := u.Text(1), u.Text(1)
	mk := func(x string) json.Marshaler {
		switch k {
		case 0:
			return &dataset.Meta{Title: "t" + x}
		case 1:
			return &dataset.Commit{Message: x, Title: "t"}
		case 2:
			return &dataset.Transform{Text: x, Syntax: "s"}
		case 3:
			return &dataset.Viz{ScriptPath: x, Format: "html"}
		case 4:
			return &dataset.Readme{ScriptPath: x, Format: "md"}
		case 5:
			return &dataset.Stats{Path: "p", Stats: x}
		}
		return &dataset.Dataset{Name: x, Structure: &dataset.Structure{Format: "csv"}}
	}
	ha, err := dataset.JSONHash(mk(x))
	v.Assert(err == nil, "a component is hashed")
	hb, err := dataset.JSONHash(mk(y))
	v.Assert(err == nil, "a component is hashed")
	v.Assert((ha == hb) == (x == y), "components have equal hashes exactly when they are equal")
	v.Reach("component")
}

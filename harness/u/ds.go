package u

import (
	"io"
	"math"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/model"
	"verifh/v"
)

// ArrayStruct is a structure with an array schema in the given format.
func ArrayStruct(format string) *dataset.Structure {
	return &dataset.Structure{Format: format, Schema: map[string]interface{}{"type": "array"}}
}

// ObjectStruct is a structure with an object schema in the given format.
func ObjectStruct(format string) *dataset.Structure {
	return &dataset.Structure{Format: format, Schema: map[string]interface{}{"type": "object"}}
}

// ReadAll reads entries until an error; max bounds the number of entries accepted.
func ReadAll(r dsio.EntryReader, max int) ([]dsio.Entry, error) {
	var out []dsio.Entry
	for {
		e, err := r.ReadEntry()
		if err != nil {
			return out, err
		}
		out = append(out, e)
		v.Assert(len(out) <= max, "no more entries than bytes")
	}
}

// SameEntries compares entries read with the reference, including array indexes.
func SameEntries(got []dsio.Entry, want []model.Entry, obj bool) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range got {
		if obj {
			ok = v.And(ok, got[i].Key == want[i].Key)
		} else {
			ok = v.And(ok, got[i].Index == i)
		}
		ok = v.And(ok, EqVal(got[i].Value, want[i].Val))
	}
	return ok
}

// IsEOF reports whether err is exactly end-of-file.
func IsEOF(err error) bool { return err == io.EOF }

// EqVal compares decoded values without forking on leaf bytes; floats compare equal when
// they have the same bits or the same value.
func EqVal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return v.And(ok, x == y)
	case bool:
		y, ok := b.(bool)
		return v.And(ok, x == y)
	case int64:
		y, ok := b.(int64)
		return v.And(ok, x == y)
	case int:
		y, ok := b.(int)
		return v.And(ok, x == y)
	case float64:
		y, ok := b.(float64)
		if !ok {
			return false
		}
		return EqFloat(x, y)
	case []byte:
		y, ok := b.([]byte)
		return v.And(ok, string(x) == string(y))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = v.And(r, EqVal(x[i], y[i]))
		}
		return r
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, xv := range x {
			yv, ok := y[k]
			if !ok {
				return false
			}
			r = v.And(r, EqVal(xv, yv))
		}
		return r
	}
	return false
}

// EqFloat is bit equality, numeric equality or both not-a-number.
func EqFloat(a, b float64) bool {
	if same := math.Float64bits(a) == math.Float64bits(b); same {
		return true
	}
	return v.Or(a == b, v.And(a != a, b != b))
}

// Text returns an arbitrary string of n bytes that is valid UTF-8.
func Text(n int) string {
	s := v.String(n)
	v.Assume(utf8.ValidString(s))
	return s
}

// SmallInt returns an arbitrary integer in -9999..9999.
func SmallInt() int64 {
	x := v.Int64()
	v.Assume(x >= -9999 && x <= 9999)
	return x
}

// Value returns an arbitrary entry value: kind k of NumKinds.
func Value(k, text int) interface{} {
	switch k {
	case 0:
		return Text(text)
	case 1:
		return SmallInt()
	case 2:
		return v.Bool()
	case 3:
		return nil
	case 4:
		return []float64{1.5, -0.25, 1e21, 12345678}[v.Pick(4)]
	case 5:
		return []interface{}{Text(1), v.Bool(), []interface{}{}}
	case 6:
		return map[string]interface{}{"a": Text(1), "b": map[string]interface{}{}, "c": []interface{}{nil, int64(100)}}
	case 7:
		return []int64{math.MaxInt64, math.MinInt64, 1 << 53, -1234567890123}[v.Pick(4)]
	}
	return ""
}

// NumKinds is the number of kinds of Value.
const NumKinds = 8

// Floats replaces every integer by the float of the same value.
func Floats(x interface{}) interface{} {
	switch t := x.(type) {
	case int64:
		return float64(t)
	case int:
		return float64(t)
	case []interface{}:
		r := make([]interface{}, len(t))
		for i := range t {
			r[i] = Floats(t[i])
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, y := range t {
			r[k] = Floats(y)
		}
		return r
	}
	return x
}

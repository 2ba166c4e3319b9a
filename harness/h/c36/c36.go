// Package c36 checks the typed values of package vals.
package c36

import (
	"encoding/json"

	"github.com/qri-io/dataset/vals"
	"verifh/u"
	"verifh/v"
)

// val is what a value is made of, and the value.
type val struct {
	kind vals.Type
	b    bool
	i    int64
	f    float64
	s    string
	elem []val
	keys []string
	v    vals.Value
}

var kinds = []vals.Type{vals.TypeNull, vals.TypeBoolean, vals.TypeInteger, vals.TypeNumber, vals.TypeString, vals.TypeArray, vals.TypeObject}

func draw(k, depth, text, max int) val {
	x := val{kind: kinds[k]}
	switch x.kind {
	case vals.TypeNull:
		x.v = vals.Null(true)
	case vals.TypeBoolean:
		x.b = v.Bool()
		x.v = vals.Boolean(x.b)
	case vals.TypeInteger:
		x.i = v.Int64()
		x.v = vals.Integer(x.i)
	case vals.TypeNumber:
		x.f = v.Float64()
		v.Assume(x.f == x.f)
		x.v = vals.Number(x.f)
	case vals.TypeString:
		x.s = u.Text(v.Pick(text + 1))
		x.v = vals.String(x.s)
	default:
		n := v.Pick(max + 1)
		arr, obj := vals.Array{}, vals.Object{}
		for i := 0; i < n; i++ {
			k := 0
			if depth > 0 {
				k = v.Pick(7)
			} else {
				k = []int{4, 1, 0}[v.Pick(3)]
			}
			e := draw(k, depth-1, 1, max)
			key := []string{"a", "b", "c"}[(i+v.Pick(2)*2*i)%3]
			x.elem, x.keys = append(x.elem, e), append(x.keys, key)
			arr, obj[key] = append(arr, e.v), e.v
		}
		x.v = arr
		if x.kind == vals.TypeObject {
			x.v = obj
		}
	}
	return x
}

// refuses reports whether f panics with the error for calling method on a value of type t.
func refuses(f func(), method string, t vals.Type) (ok bool) {
	defer func() {
		e, is := recover().(*vals.ValueError)
		ok = is && e.Method == method && e.Type == t && e.Error() == "data: call of "+method+" on "+t.String()+" Value"
	}()
	f()
	return
}

// check asks x all questions.
func check(x val, y vals.Value) {
	t := x.kind
	v.Assert(y.Type() == t, "a value has its type")
	v.Assert(y.IsNull() == (t == vals.TypeNull), "only null is null")
	ask := func(can bool, method string, f func()) {
		if !can {
			v.Assert(refuses(f, method, t), "a question a type does not answer is refused by name")
		}
	}
	ask(t == vals.TypeBoolean, "Boolean", func() { y.Boolean() })
	ask(t == vals.TypeInteger, "Integer", func() { y.Integer() })
	ask(t == vals.TypeInteger || t == vals.TypeNumber, "Number", func() { y.Number() })
	ask(t == vals.TypeArray, "Len", func() { y.Len() })
	ask(t == vals.TypeArray, "Index", func() { y.Index(0) })
	ask(t == vals.TypeObject, "Keys", func() { y.Keys() })
	ask(t == vals.TypeObject, "MapIndex", func() { y.MapIndex("a") })
	s := y.String()
	switch t {
	case vals.TypeBoolean:
		v.Assert(y.Boolean() == x.b, "a boolean keeps its value")
	case vals.TypeInteger:
		v.Assert(int64(y.Integer()) == x.i && y.Number() == float64(x.i), "an integer keeps its value")
	case vals.TypeNumber:
		v.Assert(y.Number() == x.f, "a number keeps its value")
	case vals.TypeString:
		v.Assert(s == x.s, "a text keeps its value")
	case vals.TypeArray:
		v.Assert(y.Len() == len(x.elem), "an array has its length")
		for i, e := range x.elem {
			check(e, y.Index(i))
		}
	case vals.TypeObject:
		last := map[string]val{}
		for i, k := range x.keys {
			last[k] = x.elem[i]
		}
		keys := y.Keys()
		v.Assert(len(keys) == len(last), "an object has its keys")
		seen := map[string]bool{}
		for _, k := range keys {
			e, ok := last[k]
			v.Assert(ok && !seen[k], "every key of an object is listed once")
			seen[k] = true
			check(e, y.MapIndex(k))
		}
		v.Assert(y.MapIndex("missing") == nil, "a missing key has no value")
	}
	if t != vals.TypeString {
		v.Assert(len(s) > 0 && s[0] == '<' && s[len(s)-1] == '>', "what is no text is not shown as text")
	}
}

// H_C36_ask: values of every type, nested once (twice), of up to 2 elements, answer the questions of their type and refuse the others.
func H_C36_ask() {
	v.MapPerm(true)
	x := draw(v.Case(7), v.Bound(0, 1), v.Bound(2, 3), 2)
	y := x.v
	if v.Pick(2) == 1 {
		o := vals.NewObjectValue("key", y)
		v.Assert(o.(vals.ObjectValue).Key == "key", "an object value keeps its key")
		y = o
	}
	check(x, y)
	v.Reach("ask")
}

func same(x, y val) bool {
	if x.kind != y.kind {
		return false
	}
	switch x.kind {
	case vals.TypeBoolean:
		return x.b == y.b
	case vals.TypeInteger:
		return x.i == y.i
	case vals.TypeNumber:
		return x.f == y.f
	case vals.TypeString:
		return x.s == y.s
	case vals.TypeArray:
		if len(x.elem) != len(y.elem) {
			return false
		}
		ok := true
		for i := range x.elem {
			ok = v.And(ok, same(x.elem[i], y.elem[i]))
		}
		return ok
	case vals.TypeObject:
		a, b := map[string]val{}, map[string]val{}
		for i, k := range x.keys {
			a[k] = x.elem[i]
		}
		for i, k := range y.keys {
			b[k] = y.elem[i]
		}
		if len(a) != len(b) {
			return false
		}
		ok := true
		for k, e := range a {
			f, is := b[k]
			if !is {
				return false
			}
			ok = v.And(ok, same(e, f))
		}
		return ok
	}
	return true
}

// H_C36_equal: two values are equal exactly when they have the same type and the same content.
func H_C36_equal() {
	k := v.Case(7)
	x := draw(k, 0, 2, 2)
	l := k
	if v.Case(2) == 1 {
		l = v.Pick(7)
	}
	y := draw(l, 0, 2, v.Bound(1, 2))
	v.Assert(vals.Equal(x.v, y.v) == same(x, y), "values are equal exactly when type and content are")
	v.Assert(vals.Equal(x.v, x.v), "a value equals itself")
	v.Reach("equal")
}

// H_C36_json: encoding a value as JSON and decoding it gives an equal value (numbers without fraction become integers).
func H_C36_json() {
	k := v.Case(6)
	if k >= 3 {
		k++
	}
	x := draw(k, 0, v.Bound(1, 2), v.Bound(1, 2))
	v.Assume(x.kind != vals.TypeInteger || x.i >= -9999 && x.i <= 9999)
	data, err := json.Marshal(x.v)
	v.Assert(err == nil, "a value encodes")
	var want interface{}
	v.Assert(json.Unmarshal(data, &want) == nil, "the encoding is JSON")
	y, err := vals.UnmarshalJSON(data)
	v.Assert(err == nil, "an encoded value decodes")
	check(x, y)
	v.Assert(vals.Equal(x.v, y), "an encoded value decodes to an equal value")
	v.Reach("json")
}

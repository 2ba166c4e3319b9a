// Package c28 checks generated values and tables.
package c28

import (
	"math/rand"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/generate"
	"verifh/u"
	"verifh/v"
)

// source is an arbitrary source of randomness of at most max numbers.
type source struct {
	n, max int
	small  bool
}

// Int63 implements rand.Source.
func (s *source) Int63() int64 {
	s.n++
	v.Assume(s.n <= s.max)
	if s.small {
		return []int64{0, 1<<62 + 12345<<32, 1<<61 + 1<<40 + 77, 1<<63 - 1}[v.Pick(4)]
	}
	return v.Int64() & (1<<63 - 1)
}

// Seed implements rand.Source.
func (s *source) Seed(int64) {}

func alnum(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = v.And(ok, v.Or(v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), v.And(c >= '0', c <= '9')))
	}
	return ok
}

var types = []string{"string", "boolean", "integer", "object", "array", "null", "number", "", "unknown"}

func conforms(t string, x interface{}, max int) bool {
	switch t {
	case "string":
		s, ok := x.(string)
		return ok && len(s) < max && alnum(s)
	case "boolean":
		_, ok := x.(bool)
		return ok
	case "integer":
		i, ok := x.(int)
		return ok && i >= 0
	case "number":
		f, ok := x.(float64)
		return ok && f == f
	case "object":
		m, ok := x.(map[string]interface{})
		return ok && m != nil
	case "array":
		a, ok := x.([]interface{})
		return ok && a != nil
	case "null":
		return x == nil
	}
	switch s := x.(type) {
	case nil, bool:
		return true
	case int:
		return s >= 0
	case float64:
		return s == s
	case string:
		return len(s) < max && alnum(s)
	}
	return false
}

// H_C28_value: every type name (and others), every source of up to 6 (8) random numbers (four extreme numbers for floating point), maximum lengths 1..3 (4).
func H_C28_value() {
	t := types[v.Case(len(types))]
	max := 1 + v.Pick(v.Bound(3, 4))
	s := &source{max: v.Bound(6, 8), small: t == "number" || t == "" || t == "unknown"}
	g := &generate.ValueGenerator{Rand: rand.New(s), MaxStringLength: max}
	v.Assert(conforms(t, g.Type(t), max), "a generated value is of the type asked for")
	v.Reach("value")
}

// H_C28_table: schemas of 0..2 columns with an absent, single or listed type (also an empty list), a fixed seed, 3 rows.
func H_C28_table() {
	n := v.Pick(3)
	cols := []interface{}{}
	want := []string{}
	for i := 0; i < n; i++ {
		c := map[string]interface{}{"title": "a"}
		t := types[v.Pick(7)]
		switch v.Pick(4) {
		case 0:
			c["type"] = t
		case 1:
			t = "string"
		case 2:
			c["type"] = []interface{}{t, "integer"}
		case 3:
			c["type"] = []interface{}{}
			t = "any"
		}
		cols = append(cols, c)
		want = append(want, t)
	}
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": cols}}}
	opts := []func(*generate.Config){generate.AssignSeed}
	max := 64
	if v.Pick(2) == 1 {
		opts = append(opts, generate.AssignMaxLen)
		max = 8
	}
	g, err := generate.NewTabularGenerator(st, opts...)
	v.Assert(err == nil, "a generator opens for a tabular schema")
	v.Assert(g.Structure() == st, "a generator keeps its structure")
	for i := 0; i < 3; i++ {
		e, err := g.ReadEntry()
		v.Assert(err == nil, "a generator gives entries")
		row, ok := e.Value.([]interface{})
		v.Assert(ok && len(row) == n && e.Index == i && e.Key == "", "an entry is the next row, with a value per column")
		for j, x := range row {
			if want[j] == "any" {
				continue
			}
			v.Assert(conforms(want[j], x, max), "a generated cell is of its column's type")
		}
	}
	v.Assert(g.Close() == nil, "a generator closes")
	v.Reach("table")
}

// H_C28_reject: schemas that describe no table are an error, never a panic.
func H_C28_reject() {
	sch := []map[string]interface{}{nil, {}, {"type": u.Text(1)}, {"type": "object"}, {"type": "array"}, {"type": "array", "items": true}, {"type": "array", "items": map[string]interface{}{"type": "array", "items": nil}}}[v.Pick(7)]
	_, err := generate.NewTabularGenerator(&dataset.Structure{Format: "json", Schema: sch})
	v.Assert(err != nil, "no generator without a tabular schema")
	v.Reach("reject")
}

// H_C28_vary: over 64 draws from seeds 0..3 (7) values of every type but null are not all the same (objects and lists are
// always empty); the value of no type in particular is not always of the same type.
func H_C28_vary() {
	t := []string{"string", "boolean", "integer", "number", ""}[v.Case(5)]
	g := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(int64(v.Pick(v.Bound(4, 8))))), MaxStringLength: 3}
	first, vary := g.Type(t), false
	kinds := map[string]bool{}
	for i := 0; i < 64; i++ {
		x := g.Type(t)
		vary = vary || x != first
		switch x.(type) {
		case bool:
			kinds["bool"] = true
		case string:
			kinds["string"] = true
		case int:
			kinds["int"] = true
		case float64:
			kinds["float"] = true
		}
	}
	v.Assert(vary, "generated values vary")
	v.Assert(t != "" || len(kinds) == 4, "values of every scalar type are generated")
	v.Reach("vary")
}

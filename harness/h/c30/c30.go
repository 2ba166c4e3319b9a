// Package c30 checks how tabular columns are read from a JSON schema.
package c30

import (
	"encoding/json"
	"errors"

	"github.com/qri-io/dataset/tabular"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

type want struct {
	title, desc string
	types       []string
	extra       bool
	known       bool // the type is specified
	problem     bool
}

// column builds the schema of column i and what must be read from it.
func column(i int, full bool) (interface{}, want) {
	w := want{title: "col_" + string([]byte{byte('0' + i)}), types: []string{"string"}, known: true}
	n := 0
	if full {
		n = v.Pick(8)
	} else {
		n = v.Pick(3)
	}
	if n == 1 {
		w.problem = true
		return "not an object", w
	}
	if n == 2 {
		w.problem = true
		return nil, w
	}
	m := map[string]interface{}{}
	switch n {
	case 3:
		m["title"] = float64(1)
		w.problem = true
	case 4:
		w.problem = true
	default:
		w.title = v.String(v.Pick(3))
		m["title"] = w.title
	}
	k := 0
	if full {
		k = v.Pick(7)
	}
	switch k {
	case 0:
		t := v.String(v.Pick(2))
		m["type"], w.types = t, []string{t}
	case 1:
		w.problem = true
	case 2:
		m["type"], w.types = []interface{}{}, nil
	case 3:
		a, b := v.String(1), v.String(1)
		m["type"], w.types = []interface{}{a, b}, []string{a, b}
	case 4:
		a := v.String(1)
		m["type"], w.types = []interface{}{nil, a, float64(3)}, []string{a}
	case 5:
		a, b, c := v.String(1), "null", v.String(1)
		m["type"], w.types = []interface{}{a, b, c}, []string{a, b, c}
	case 6:
		m["type"], w.known = float64(1), false
	}
	switch n {
	case 5:
		m["description"] = true
	case 6:
		w.desc = v.String(v.Pick(3))
		m["description"] = w.desc
	case 7:
		m["minimum"], m["maximum"] = float64(1), "x"
		w.extra = true
	}
	return m, w
}

func same(c tabular.Column, w want) bool {
	if c.Title != w.title || c.Description != w.desc || c.Type == nil {
		return false
	}
	if w.extra != (len(c.Validation) == 2 && c.Validation["minimum"] == float64(1) && c.Validation["maximum"] == "x") || !w.extra && len(c.Validation) != 0 {
		return false
	}
	if !w.known {
		return true
	}
	if len(*c.Type) != len(w.types) {
		return false
	}
	for i, t := range w.types {
		if (*c.Type)[i] != t {
			return false
		}
	}
	return true
}

// H_C30_columns: schemas of 0..3 columns, the middle one of every shape (title, type and description absent, of a wrong kind or with arbitrary text; more keywords), in any order of keywords.
func H_C30_columns() {
	n := v.Case(4)
	v.MapPerm(true)
	items := make([]interface{}, 0, n)
	var ws []want
	problem := false
	for i := 0; i < n; i++ {
		x, w := column(i, i == (n-1)/2)
		items = append(items, x)
		ws = append(ws, w)
		problem = problem || w.problem
	}
	sch := map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": items}}
	cols, problems, err := tabular.ColumnsFromJSONSchema(sch)
	v.Assert(err == nil, "a table schema is accepted")
	v.Assert(len(cols) == n, "one column per item")
	for i, w := range ws {
		v.Assert(same(cols[i], w), "a column holds what its schema says")
	}
	v.Assert((len(problems) > 0) == problem, "problems are reported exactly when a title or type is missing")
	ts := cols.Titles()
	v.Assert(len(ts) == n, "one title per column")
	for i, w := range ws {
		v.Assert(ts[i] == w.title, "titles in order")
	}
	v.Reach("columns")
}

// H_C30_many: 9 to 12 columns without titles or with; the generated titles follow the index.
func H_C30_many() {
	n := 9 + v.Case(4)
	titled := v.Int(0, n)
	items := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		m := map[string]interface{}{"type": "string"}
		if i == titled {
			m["title"] = "given"
		}
		items = append(items, m)
	}
	cols, problems, err := tabular.ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"items": items}})
	v.Assert(err == nil && len(cols) == n, "one column per item")
	names := []string{"col_0", "col_1", "col_2", "col_3", "col_4", "col_5", "col_6", "col_7", "col_8", "col_9", "col_10", "col_11"}
	for i := range cols {
		w := names[i]
		if i == titled {
			w = "given"
		}
		v.Assert(cols[i].Title == w, "columns without a title are named by position")
	}
	if titled < n {
		v.Assert(len(problems) == n-1, "every missing title is a problem")
	} else {
		v.Assert(len(problems) == n, "every missing title is a problem")
	}
	v.Reach("many")
}

// H_C30_invalid: schemas that do not describe a table: top-level type missing, of another kind or an arbitrary other text; items missing or of another kind.
func H_C30_invalid() {
	sch := map[string]interface{}{}
	ok := []interface{}{map[string]interface{}{"title": "a", "type": "string"}}
	good := map[string]interface{}{"items": ok}
	switch v.Case(9) {
	case 0:
		sch["items"] = good
	case 1:
		sch["type"], sch["items"] = float64(1), good
	case 2:
		t := v.String(v.Pick(v.Bound(7, 8)))
		v.Assume(t != "array")
		sch["type"], sch["items"] = t, good
	case 3:
		sch["type"] = "array"
	case 4:
		sch["type"], sch["items"] = "array", ok
	case 5:
		sch["type"], sch["items"] = "array", map[string]interface{}{}
	case 6:
		sch["type"], sch["items"] = "array", map[string]interface{}{"items": good}
	case 7:
		sch = nil
	case 8:
		sch["type"], sch["items"] = []interface{}{"array"}, good
	}
	cols, _, err := tabular.ColumnsFromJSONSchema(sch)
	v.Assert(err != nil && cols == nil, "a schema that describes no table is an error")
	v.Assert(errors.Is(err, tabular.ErrInvalidTabularSchema), "the error is recognisable")
	v.Reach("invalid")
}

func machine(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := v.Or(v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), v.Or(c == '_', c == '$'))
		if i > 0 {
			letter = v.Or(letter, v.And(c >= '0', c <= '9'))
		}
		ok = v.And(ok, letter)
	}
	return ok
}

// H_C30_titles: one title of 0..3 (4) arbitrary bytes, or two of 0..2 bytes among others: valid exactly when all are identifiers and no two are equal.
func H_C30_titles() {
	var cols tabular.Columns
	valid := true
	if v.Case(2) == 0 {
		t := v.String(v.Pick(v.Bound(4, 5)))
		cols = tabular.Columns{{Title: "a"}, {Title: t}, {Title: "b_2"}}
		valid = machine(t) && t != "a" && t != "b_2"
	} else {
		s, t := v.String(v.Pick(3)), v.String(v.Pick(3))
		cols = tabular.Columns{{Title: s}, {Title: "zzz"}, {Title: t}}
		valid = machine(s) && machine(t) && s != t
	}
	err := cols.ValidMachineTitles()
	v.Assert((err == nil) == valid, "titles are valid exactly when they are distinct identifiers")
	v.Assert(err == nil || errors.Is(err, tabular.ErrInvalidTabularSchema), "the error is recognisable")
	v.Reach("titles")
}

// H_C30_coltype: type lists of 0..3 names, one of 0..2 arbitrary ASCII bytes, survive JSON, alone and within a column.
func H_C30_coltype() {
	n := v.Case(4)
	k := v.Pick(n + 1)
	ct := make(tabular.ColType, 0, n)
	for i := 0; i < n; i++ {
		if i == k {
			ct = append(ct, u.Text(v.Pick(3)))
		} else {
			ct = append(ct, string([]byte{byte('a' + i)}))
		}
	}
	data, err := json.Marshal(&tabular.Column{Title: "t", Type: &ct})
	v.Assert(err == nil, "a column is encoded")
	var c tabular.Column
	v.Assert(json.Unmarshal(data, &c) == nil, "an encoded column is decoded")
	v.Assert(c.Type != nil && len(*c.Type) == n && c.Title == "t", "the number of types survives")
	for i, t := range ct {
		v.Assert((*c.Type)[i] == t, "types survive in order")
		v.Assert(ct.HasType(t), "a listed type is found")
	}
	o := v.String(v.Pick(2))
	has := false
	for _, t := range ct {
		has = has || t == o
	}
	v.Assert(ct.HasType(o) == has, "a type is found exactly when it is listed")
	v.Reach("type")
}

// H_C30_decode: every text of 1..5 (6) bytes: accepted as a column type exactly when it is a JSON string or list of strings (null excepted).
func H_C30_decode() {
	b := v.Bytes(1 + v.Case(v.Bound(5, 6)))
	var x interface{}
	err := model.JSONUnmarshal(b, &x)
	ok := false
	var ts []string
	if err == nil {
		switch y := x.(type) {
		case nil:
			v.Stop()
		case string:
			ok, ts = true, []string{y}
		case []interface{}:
			ok = true
			for _, e := range y {
				s, isStr := e.(string)
				if e == nil {
					v.Stop()
				}
				ok = ok && isStr
				ts = append(ts, s)
			}
		}
	}
	var ct tabular.ColType
	got := ct.UnmarshalJSON(b)
	v.Assert((got == nil) == ok, "accepted exactly when text or list of texts")
	if ok {
		v.Assert(len(ct) == len(ts), "all types")
		for i := range ts {
			v.Assert(ct[i] == ts[i], "types in order")
		}
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
}

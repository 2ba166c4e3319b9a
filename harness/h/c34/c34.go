// Package c34 checks setting metadata fields by key.
package c34

import (
	"encoding/json"
	"strings"

	"github.com/qri-io/dataset"
	"verifh/u"
	"verifh/v"
)

var texts = []struct {
	name string
	at   func(m *dataset.Meta) *string
}{
	{"qri", func(m *dataset.Meta) *string { return &m.Qri }},
	{"accessURL", func(m *dataset.Meta) *string { return &m.AccessURL }},
	{"accrualPeriodicity", func(m *dataset.Meta) *string { return &m.AccrualPeriodicity }},
	{"description", func(m *dataset.Meta) *string { return &m.Description }},
	{"downloadURL", func(m *dataset.Meta) *string { return &m.DownloadURL }},
	{"homeURL", func(m *dataset.Meta) *string { return &m.HomeURL }},
	{"identifier", func(m *dataset.Meta) *string { return &m.Identifier }},
	{"readmeURL", func(m *dataset.Meta) *string { return &m.ReadmeURL }},
	{"title", func(m *dataset.Meta) *string { return &m.Title }},
	{"version", func(m *dataset.Meta) *string { return &m.Version }},
}

var lists = []struct {
	name string
	at   func(m *dataset.Meta) *[]string
}{
	{"keywords", func(m *dataset.Meta) *[]string { return &m.Keywords }},
	{"language", func(m *dataset.Meta) *[]string { return &m.Language }},
	{"theme", func(m *dataset.Meta) *[]string { return &m.Theme }},
}

var names = []string{"qri", "accessurl", "accrualperiodicity", "description", "downloadurl", "homeurl", "identifier", "readmeurl", "title", "version",
	"keywords", "language", "theme", "citations", "contributors", "license"}

// prior is metadata with every field set, or none.
func prior(full bool) *dataset.Meta {
	if !full {
		return &dataset.Meta{}
	}
	m := &dataset.Meta{Path: "/p",
		Keywords: []string{"k0", "k1"}, Language: []string{"l0"}, Theme: []string{"t0", "t1"},
		Citations:    []*dataset.Citation{{Name: "cn", URL: "cu", Email: "ce"}},
		Contributors: []*dataset.User{{ID: "ui", Fullname: "un", Email: "ue"}},
		License:      &dataset.License{Type: "lt", URL: "lu"},
	}
	for _, f := range texts {
		*f.at(m) = "old " + f.name
	}
	m.SetArbitrary("extra", "old")
	return m
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = v.And(ok, a[i] == b[i])
	}
	return ok
}

// same compares all fields; empty lists count as none.
func same(a, b *dataset.Meta) bool {
	ok := a.Path == b.Path
	for _, f := range texts {
		ok = v.And(ok, *f.at(a) == *f.at(b))
	}
	for _, f := range lists {
		ok = v.And(ok, eqList(*f.at(a), *f.at(b)))
	}
	if len(a.Citations) != len(b.Citations) || len(a.Contributors) != len(b.Contributors) || (a.License == nil) != (b.License == nil) {
		return false
	}
	for i, x := range a.Citations {
		y := b.Citations[i]
		if x == nil || y == nil {
			return false
		}
		ok = v.And(ok, v.And(x.Name == y.Name, v.And(x.URL == y.URL, x.Email == y.Email)))
	}
	for i, x := range a.Contributors {
		y := b.Contributors[i]
		if x == nil || y == nil {
			return false
		}
		ok = v.And(ok, v.And(x.ID == y.ID, v.And(x.Fullname == y.Fullname, x.Email == y.Email)))
	}
	if a.License != nil {
		ok = v.And(ok, v.And(a.License.Type == b.License.Type, a.License.URL == b.License.URL))
	}
	return v.And(ok, u.EqVal(a.Meta(), b.Meta()))
}

// variant writes a name in another case and with space around it.
func variant(name string) string {
	switch v.Pick(4) {
	case 0:
		name = strings.ToLower(name)
	case 1:
		name = strings.ToUpper(name)
	case 2:
		i := v.Pick(len(name))
		c := name[i] ^ 0x20
		name = name[:i] + string(rune(c)) + name[i+1:]
	}
	return []string{"", " ", "\t\n"}[v.Pick(3)] + name + []string{"", "  ", "\r\n"}[v.Pick(3)]
}

// other is a value that is no text, list or object.
func other(k int) interface{} {
	return []interface{}{3.5, true, int64(1), []string{"a"}, map[string]string{"name": "a"}, json.Number("1")}[k]
}

// set sets key to val and compares with want (nil: an error is due, and nothing changes).
func set(m *dataset.Meta, key string, val interface{}, want *dataset.Meta, full bool) {
	err := m.Set(key, val)
	if want == nil {
		v.Assert(err != nil, "a value of a wrong type is an error")
		v.Assert(same(m, prior(full)), "a rejected value changes nothing")
		v.Reach("rejected")
		return
	}
	v.Assert(err == nil, "a value of the right type is accepted")
	v.Assert(same(m, want), "the field is set, and no other")
	v.Reach("set")
}

// H_C34_text: every text field, its name in any case and surrounded by space, texts, nil and values of other types.
func H_C34_text() {
	f := texts[v.Case(len(texts))]
	full := v.Pick(2) == 1
	want := prior(full)
	var val interface{}
	k := v.Pick(10)
	switch k {
	case 0:
		s := u.Text(v.Bound(3, 5))
		val = s
		*f.at(want) = s
	case 1:
		*f.at(want) = ""
	case 2:
		val, want = []interface{}{"a"}, nil
	case 3:
		val, want = map[string]interface{}{"name": "a"}, nil
	default:
		val, want = other(k-4), nil
	}
	set(prior(full), variant(f.name), val, want, full)
}

// H_C34_list: every list of texts, of up to 3 elements, one of them possibly of another type.
func H_C34_list() {
	f := lists[v.Case(len(lists))]
	full := v.Pick(2) == 1
	want := prior(full)
	var val interface{}
	switch k := v.Pick(9); k {
	case 0:
		l, w := []interface{}{}, []string{}
		for i, n := 0, v.Pick(4); i < n; i++ {
			s := u.Text(v.Pick(v.Bound(2, 3)))
			l, w = append(l, s), append(w, s)
		}
		val = l
		*f.at(want) = w
		if len(l) > 0 && v.Pick(2) == 1 {
			i := v.Pick(len(l))
			switch j := v.Pick(4); j {
			case 0:
				l[i], w[i] = nil, ""
			default:
				l[i], want = other(j-1), nil
			}
		}
	case 1:
		*f.at(want) = nil
	case 2:
		val, want = u.Text(2), nil
	case 3:
		val, want = map[string]interface{}{"0": "a"}, nil
	default:
		if k -= 4; k == 3 {
			k = 4
		}
		val, want = other(k), nil
	}
	set(prior(full), variant(f.name), val, want, full)
}

// parts draws an object with the given keys, each absent, a text, nil or of another type, and an unknown key or not.
func parts(keys ...string) (obj map[string]interface{}, got []string, ok bool) {
	obj, ok = map[string]interface{}{}, true
	for _, k := range keys {
		s := ""
		switch v.Pick(4) {
		case 1:
			s = u.Text(1)
			obj[k] = s
		case 2:
			obj[k] = nil
		case 3:
			obj[k], ok = other(v.Pick(2)), false
		}
		got = append(got, s)
	}
	if v.Pick(2) == 1 {
		obj["unknown"] = 1.0
	}
	return
}

// H_C34_people: citations, contributors and the license, with every part absent, a text, nil or of another type.
func H_C34_people() {
	kind := v.Case(3)
	shape := v.Case(4)
	full := v.Pick(2) == 1
	want := prior(full)
	name := []string{"citations", "contributors", "license"}[kind]
	keys := [][]string{{"name", "url", "email"}, {"id", "name", "email"}, {"type", "url"}}[kind]
	var val interface{}
	ok := false
	if shape == 0 {
		val = []interface{}{u.Text(1), 1.0, true, []interface{}{nil}, []interface{}{"a"}, []interface{}{[]interface{}{}}}[v.Pick(6)]
	} else {
		var obj map[string]interface{}
		var got []string
		obj, got, ok = parts(keys...)
		l := []interface{}{obj}
		fixed := map[string]interface{}{"id": "fi", "name": "fn", "url": "fu", "email": "fe"}
		at := 0
		switch shape {
		case 2:
			l = []interface{}{obj, fixed}
		case 3:
			l = []interface{}{fixed, obj}
			at = 1
		}
		val = l
		switch kind {
		case 0:
			want.Citations = make([]*dataset.Citation, len(l))
			for i := range l {
				want.Citations[i] = &dataset.Citation{Name: "fn", URL: "fu", Email: "fe"}
			}
			want.Citations[at] = &dataset.Citation{Name: got[0], URL: got[1], Email: got[2]}
		case 1:
			want.Contributors = make([]*dataset.User, len(l))
			for i := range l {
				want.Contributors[i] = &dataset.User{ID: "fi", Fullname: "fn", Email: "fe"}
			}
			want.Contributors[at] = &dataset.User{ID: got[0], Fullname: got[1], Email: got[2]}
		case 2:
			if shape == 1 {
				val = obj
				want.License = &dataset.License{Type: got[0], URL: got[1]}
			} else {
				ok = false
			}
		}
	}
	if !ok {
		want = nil
	}
	key := []string{name, " " + strings.ToUpper(name), strings.Title(name) + "\n"}[v.Pick(3)]
	set(prior(full), key, val, want, full)
}

// H_C34_other: keys that name no field (short texts, and names with a byte added, dropped or changed) keep any value under
// exactly that key.
func H_C34_other() {
	var key string
	switch k := v.Case(len(names) + 1); {
	case k == len(names):
		key = u.Text(v.Pick(v.Bound(4, 5)))
	default:
		key = names[k]
		i := v.Pick(len(key))
		switch v.Pick(3) {
		case 0:
			key = key[:i] + u.Text(1) + key[i+1:]
		case 1:
			key = key[:i] + u.Text(1) + key[i:]
		case 2:
			key = key[:i] + key[i+1:]
		}
	}
	for i := 0; i < len(key); i++ {
		v.Assume(key[i] < 0x80)
	}
	lower := strings.TrimSpace(strings.ToLower(key))
	for _, n := range names {
		v.Assume(lower != n)
	}
	v.Assume(key != "path" && key != "new")
	full := v.Pick(2) == 1
	m, want := prior(full), prior(full)
	var val interface{}
	switch v.Pick(4) {
	case 0:
		val = u.Text(1)
	case 1:
		val = map[string]interface{}{"a": u.SmallInt()}
	case 2:
		val = []interface{}{nil, 1.0}
	}
	if v.Pick(2) == 0 {
		v.Assert(m.Set(key, val) == nil, "any other key is accepted")
	} else {
		v.Assert(m.SetArbitrary(key, val) == nil, "any key is accepted as additional metadata")
	}
	got := m.Meta()
	x, ok := got[key]
	v.Assert(ok && u.EqVal(x, val), "the value is kept under its key")
	n := 1
	if full {
		n = 2
		if key == "extra" {
			n = 1
		} else {
			v.Assert(got["extra"] == "old", "other keys stay")
		}
	}
	v.Assert(len(got) == n, "no other key appears")
	got["new"] = 1
	delete(got, key)
	_, ok = m.Meta()["new"]
	_, kept := m.Meta()[key]
	v.Assert(!ok && kept, "the additional metadata handed out is a copy")
	for k := range m.Meta() {
		want.SetArbitrary(k, m.Meta()[k])
	}
	v.Assert(same(m, want), "no field changes")
	v.Reach("other")
}

// H_C34_apart: metadata assigned from others keeps its additional metadata apart from theirs, in every order.
func H_C34_apart() {
	a, b, c := &dataset.Meta{}, &dataset.Meta{}, &dataset.Meta{}
	ms := []*dataset.Meta{a, b, c}
	var model [3]map[string]string
	for i := range model {
		model[i] = map[string]string{}
	}
	for i, n := 0, v.Bound(3, 4); i < n; i++ {
		x := v.Pick(3)
		switch v.Pick(2) {
		case 0:
			k, t := []string{"a", "b"}[v.Pick(2)], u.Text(1)
			v.Assert(ms[x].Set(k, t) == nil, "additional metadata is accepted")
			model[x][k] = t
		case 1:
			y := (x + 1 + v.Pick(2)) % 3
			ms[x].Assign(ms[y])
			if len(model[y]) > 0 {
				model[x] = map[string]string{}
				for k, t := range model[y] {
					model[x][k] = t
				}
			}
		}
	}
	for i, m := range ms {
		got := m.Meta()
		v.Assert(len(got) == len(model[i]), "additional metadata stays apart")
		for k, t := range model[i] {
			s, ok := got[k].(string)
			v.Assert(ok && s == t, "additional metadata has the values set")
		}
	}
	v.Reach("apart")
}

// H_C34_json: setting a field gives what decoding a JSON object with just that field gives.
func H_C34_json() {
	k := v.Case(17)
	var key string
	var val interface{}
	switch {
	case k < 10:
		key, val = texts[k].name, u.Text(2)
	case k < 13:
		key, val = lists[k-10].name, []interface{}{u.Text(1), u.Text(1)}
	case k == 13:
		key, val = "citations", []interface{}{map[string]interface{}{"name": u.Text(1), "url": "b", "email": u.Text(1)}}
	case k == 14:
		key, val = "contributors", []interface{}{map[string]interface{}{"id": u.Text(1), "name": "b", "email": u.Text(1)}}
	case k == 15:
		key, val = "license", map[string]interface{}{"type": u.Text(1), "url": u.Text(1)}
	default:
		key, val = "@context", u.Text(2)
	}
	data, err := json.Marshal(map[string]interface{}{key: val})
	v.Assert(err == nil, "the value encodes")
	a, b := &dataset.Meta{}, &dataset.Meta{}
	v.Assert(a.UnmarshalJSON(data) == nil && b.Set(key, val) == nil, "the value is accepted both ways")
	v.Assert(same(a, b), "setting agrees with decoding")
	v.Reach("json")
}

// Package c19 checks the rendering of visualisations. The template engine (html/template) is modelled; replays use the
// real one.
package c19

import (
	"bytes"
	"io"
	"io/ioutil"
	"strconv"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/qfs"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func esc(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			out += "\uFFFD"
		case '"':
			out += "&#34;"
		case '&':
			out += "&amp;"
		case '\'':
			out += "&#39;"
		case '+':
			out += "&#43;"
		case '<':
			out += "&lt;"
		case '>':
			out += "&gt;"
		default:
			out += s[i : i+1]
		}
	}
	return out
}

const kinds = 7

func structure(kind int) *dataset.Structure {
	switch kind {
	case 5, 6:
		st := u.ArrayStruct("csv")
		st.Schema["items"] = map[string]interface{}{"type": "array", "items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
			map[string]interface{}{"title": "b", "type": "string"},
		}}
		if kind == 6 {
			st.FormatConfig = map[string]interface{}{"headerRow": true}
		}
		return st
	}
	return []*dataset.Structure{u.ArrayStruct("json"), u.ObjectStruct("json"), u.ArrayStruct("cbor"), u.ObjectStruct("cbor"), u.ArrayStruct("ndjson")}[kind]
}

// body holds n rows of two texts, the first of them an arbitrary character.
func body(st *dataset.Structure, obj bool, n int, ch string) (ents []model.Entry, data []byte) {
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	v.Assume(err == nil)
	for i := 0; i < n; i++ {
		e := model.Entry{Val: []interface{}{ch, "r" + strconv.Itoa(i)}}
		if obj {
			e.Key = string([]byte{byte('a' + i)})
		}
		ents = append(ents, e)
		v.Assume(w.WriteEntry(dsio.Entry{Index: i, Key: e.Key, Value: e.Val}) == nil)
	}
	v.Assume(w.Close() == nil)
	return ents, buf.Bytes()
}

func whole(f qfs.File, want []byte) bool {
	if f == nil {
		return false
	}
	got, err := ioutil.ReadAll(f)
	return err == nil && u.EqBytes(got, want)
}

func page(ds *dataset.Dataset) (string, error) {
	f, err := dsviz.Render(ds)
	if err != nil {
		v.Assert(f == nil, "no page with an error")
		return "", err
	}
	got, err := ioutil.ReadAll(f)
	return string(got), err
}

func rows(ents []model.Entry) string {
	out := ""
	for _, e := range ents {
		out += "<p>"
		for _, c := range e.Val.([]interface{}) {
			out += "<b>" + esc(c.(string)) + "</b>"
		}
		out += "</p>"
	}
	return out
}

const each = "<p>{{ range . }}<b>{{ . }}</b>{{ end }}</p>{{ end }}"

var ranges = []string{"{{ range allBodyEntries }}", "{{ range bodyEntries 0 -1 }}", "{{ range bodyEntries 0 1 }}", "{{ range bodyEntries 1 1 }}", "{{ range bodyEntries 0 2 }}", "{{ range bodyEntries 1 5 }}", "{{ range bodyEntries 0 0 }}", "{{ range bodyEntries 4 1 }}", "{{ range bodyEntries 2 1 }}"}

func cut(ents []model.Entry, k int) []model.Entry {
	off, lim := []int{0, 0, 0, 1, 0, 1, 0, 4, 2}[k], []int{9, 9, 1, 1, 2, 5, 0, 1, 1}[k]
	if off > len(ents) {
		off = len(ents)
	}
	ents = ents[off:]
	if lim < len(ents) {
		ents = ents[:lim]
	}
	return ents
}

func viz(script []byte) *dataset.Viz {
	z := &dataset.Viz{Format: "html"}
	z.SetScriptFile(qfs.NewMemfileBytes("viz.html", script))
	return z
}

// H_C19_rows: every streaming format, plain or compressed, 0..2 (3) rows, an arbitrary character in a body of one row, nine requests for entries, asked for once or twice in a template, the body delivered whole or byte by byte, two renderings.
func H_C19_rows() {
	kind := v.Case(kinds)
	rowCount := v.Case(v.Bound(3, 4))
	st := structure(kind)
	obj := kind == 1 || kind == 3
	st.Compression = []string{"", "gzip", "zst"}[v.Pick(v.Bound(2, 3))]
	ch := "<"
	if rowCount == 1 {
		ch = u.Text(1)
		v.Assume(ch != "\r")
	}
	ents, data := body(st, obj, rowCount, ch)
	k := v.Pick(len(ranges))
	script, want := ranges[k]+each, rows(cut(ents, k))
	if (rowCount != 1 || v.Bound(0, 1) == 1) && v.Pick(2) == 1 {
		k2 := v.Pick(3)
		script, want = script+"<hr>"+ranges[k2]+each, want+"<hr>"+rows(cut(ents, k2))
	}
	ds := &dataset.Dataset{Structure: st, Viz: viz([]byte(script))}
	var src io.Reader = bytes.NewReader(data)
	if v.Pick(2) == 1 {
		src = u.OneByte(data)
	}
	ds.SetBodyFile(qfs.NewMemfileReader("body.x", src))
	got, err := page(ds)
	v.Assert(err == nil, "a template renders")
	v.Assert(u.EqStr(got, want), "a page holds exactly the entries asked for, escaped")
	got, err = page(ds)
	v.Assert(err == nil && u.EqStr(got, want), "a second rendering gives the same page")
	v.Assert(ds.BodyFile().FileName() == "body.x" && whole(ds.BodyFile(), data), "rendering leaves the body file whole")
	v.Assert(ds.Viz.ScriptFile().FileName() == "viz.html" && whole(ds.Viz.ScriptFile(), []byte(script)), "rendering leaves the script file whole")
	v.Reach("rows")
}

// H_C19_object: object bodies of 0..3 entries with arbitrary values, listed by key and looked up.
func H_C19_object() {
	st := structure([]int{1, 3}[v.Case(2)])
	n := v.Case(4)
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	v.Assume(err == nil)
	want := []string{"", "", ""}
	for i := n - 1; i >= 0; i-- {
		x := u.Text(v.Bound(1, 2))
		want[i] = x
		v.Assume(w.WriteEntry(dsio.Entry{Key: string([]byte{byte('a' + i)}), Value: x}) == nil)
	}
	v.Assume(w.Close() == nil)
	script, out := "{{ range allBodyEntries }}<i>{{ . }}</i>{{ else }}none{{ end }}", ""
	for i := 0; i < n; i++ {
		out += "<i>" + esc(want[i]) + "</i>"
	}
	if n == 0 {
		out = "none"
	} else {
		script += "{{ $d := allBodyEntries }}{{ $d.a }}{{ if isType $d \"object\" }}!{{ end }}"
		out += esc(want[0]) + "!"
	}
	ds := &dataset.Dataset{Structure: st, Viz: viz([]byte(script))}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.x", buf.Bytes()))
	got, err := page(ds)
	v.Assert(err == nil, "a template renders")
	v.Assert(u.EqStr(got, out), "a page holds the entries of an object by key, escaped")
	v.Assert(whole(ds.BodyFile(), buf.Bytes()), "rendering leaves the body file whole")
	v.Reach("object")
}

var typeNames = []string{"string", "object", "array", "boolean", "number"}

// H_C19_type: isType of every kind of value, from JSON and CBOR bodies, against every type name and an unknown one.
func H_C19_type() {
	st := structure([]int{0, 2}[v.Case(2)])
	k := v.Pick(u.NumKinds)
	x := u.Value(k, 1)
	is := []int{0, 4, 3, -1, 4, 2, 1, 4}[k]
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	v.Assume(err == nil && w.WriteEntry(dsio.Entry{Value: x}) == nil && w.Close() == nil)
	t := v.Pick(6)
	name := "integer"
	if t < 5 {
		name = typeNames[t]
	}
	ds := &dataset.Dataset{Structure: st, Viz: viz([]byte("{{ range allBodyEntries }}{{ if isType . \"" + name + "\" }}yes{{ else }}no{{ end }}{{ end }}"))}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.x", buf.Bytes()))
	got, err := page(ds)
	if t == 5 {
		v.Assert(err != nil, "an unknown type name is an error")
	} else {
		v.Assert(err == nil, "a template renders")
		v.Assert((got == "yes") == (t == is) && (got == "no") == (t != is), "isType tells the type of a value")
	}
	v.Assert(whole(ds.BodyFile(), buf.Bytes()), "rendering leaves the body file whole")
	v.Reach("type")
}

// H_C19_title: datasets with or without meta and title, arbitrary names and titles.
func H_C19_title() {
	ds := &dataset.Dataset{Name: u.Text(v.Pick(v.Bound(2, 3))), Peername: u.Text(v.Pick(2)), Viz: viz(nil)}
	title := ds.Peername + "/" + ds.Name
	want := ""
	switch v.Pick(3) {
	case 1:
		ds.Meta = &dataset.Meta{Description: "d"}
	case 2:
		ds.Meta = &dataset.Meta{Title: u.Text(1 + v.Pick(v.Bound(1, 2)))}
		title = ds.Meta.Title
	}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte("<h1>{{ title }}</h1>")))
	want = "<h1>" + esc(title) + "</h1>"
	if ds.Meta != nil && ds.Meta.Title != "" {
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte("<h1>{{ title }}</h1><p>{{ ds.meta.title }}</p>")))
		want += "<p>" + esc(title) + "</p>"
	}
	got, err := page(ds)
	v.Assert(err == nil, "a template renders without a body")
	v.Assert(u.EqStr(got, want), "a page holds the title of the dataset, or its name")
	v.Reach("title")
}

// H_C19_filesize: sizes 0..99, 100, 999, 1000, 1022 and 1023, and around 1, 2, 7 and 1023 of each unit.
func H_C19_filesize() {
	k := v.Case(6)
	unit := 1
	name := "byte"
	var n int
	if k > 0 {
		unit = 1 << uint(10*k)
		name = []string{"KB", "MB", "GB", "TB", "PB"}[k-1]
		q := []int{1, 2, 7, 1023}[v.Pick(4)]
		off := []int{0, 1, unit - 1}[v.Pick(3)]
		v.Assume(k < 5 || q < 8)
		n = q*unit + off
	} else if v.Pick(2) == 0 {
		n = v.Int(0, 99)
	} else {
		n = []int{100, 999, 1000, 1022, 1023}[v.Pick(5)]
	}
	if n/unit != 1 {
		name += "s"
	}
	ds := &dataset.Dataset{Name: "n", Structure: u.ArrayStruct("json"), Viz: viz([]byte("{{ filesize ds.structure.length }}"))}
	ds.Structure.Length = n
	if n == 0 {
		ds.Viz = viz([]byte("{{ filesize 0 }}"))
	}
	got, err := page(ds)
	v.Assert(err == nil, "a template renders without a body")
	v.Assert(u.EqStr(got, strconv.Itoa(n/unit)+" "+name), "a size is given in its largest unit")
	v.Reach("filesize")
}

// H_C19_error: datasets without viz, script, structure or body, with another format, unknown compression, a malformed body or a malformed template: an error, never a panic, and every file stays whole.
func H_C19_error() {
	script := []byte("{{ range bodyEntries 0 2 }}<i>{{ . }}</i>{{ end }}")
	data := []byte(`["a","b"]`)
	ds := &dataset.Dataset{Structure: u.ArrayStruct("json"), Viz: viz(script)}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	k := v.Case(14)
	switch k {
	case 0:
		ds.Viz = nil
	case 1:
		ds.Viz.Format = u.Text(v.Pick(5))
		v.Assume(ds.Viz.Format != "html")
	case 2:
		ds.Viz = &dataset.Viz{Format: "html"}
	case 3:
		ds.Structure = nil
	case 4:
		ds.SetBodyFile(nil)
	case 5:
		ds.Structure.Format = u.Text(v.Pick(v.Bound(3, 4)))
		v.Assume(ds.Structure.Format != "json" && ds.Structure.Format != "cbor" && ds.Structure.Format != "csv" && ds.Structure.Format != "xlsx")
	case 6:
		ds.Structure.Compression = []string{"rar", "gzip", "zst"}[v.Pick(3)]
	case 7:
		ds.Structure.Schema = []map[string]interface{}{nil, {}, {"type": 1}, {"type": "string"}}[v.Pick(4)]
	case 8:
		data = []byte("[\"" + v.String(v.Bound(1, 2)))
		for i := 2; i < len(data); i++ {
			v.Assume(data[i] != '"' && data[i] != '\\')
		}
		ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	case 9:
		data = []byte{}
		ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	case 10:
		data = append([]byte(`["a"`), u.Text(1)...)
		v.Assume(data[4] != ',' && data[4] != ']' && data[4] != ' ' && data[4] != '\n' && data[4] != '\t' && data[4] != '\r')
		data = append(data, `"b"]`...)
		ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	case 11:
		script = []byte([]string{"{{", "{{ nosuch }}", "{{ end }}", "{{ range bodyEntries 0 1 }}", "{{ $x }}"}[v.Pick(5)])
		ds.Viz = viz(script)
	case 12:
		script = []byte([]string{"{{ bodyEntries }}", "{{ bodyEntries 0 }}", "{{ bodyEntries \"0\" 1 }}", "{{ filesize title }}", "{{ isType 1 }}"}[v.Pick(5)])
		ds.Viz = viz(script)
	case 13:
		data = []byte(`{"a":1}`)
		ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	}
	_, err := page(ds)
	v.Assert(err != nil, "a rendering that cannot be done is an error")
	if k != 4 {
		v.Assert(whole(ds.BodyFile(), data), "a failed rendering leaves the body file whole")
	}
	if k != 0 && k != 2 {
		v.Assert(whole(ds.Viz.ScriptFile(), script), "a failed rendering leaves the script file whole")
	}
	v.Reach("error")
}

// H_C19_source: a body whose source fails after 0..9 bytes, asked for in part or whole: an error when it is needed, and what was delivered is still readable.
func H_C19_source() {
	data := []byte(`["a","b"]`)
	n := v.Pick(len(data) + 1)
	script := "{{ range allBodyEntries }}<i>{{ . }}</i>{{ end }}"
	ds := &dataset.Dataset{Structure: u.ArrayStruct("json"), Viz: viz([]byte(script))}
	src := u.OneByte(data[:n])
	src.Err = u.ErrSource
	ds.SetBodyFile(qfs.NewMemfileReader("body.x", src))
	got, err := page(ds)
	if n < len(data) {
		v.Assert(err != nil, "a body that cannot be read is an error")
	} else {
		v.Assert(err == nil && got == "<i>a</i><i>b</i>", "a body that was read in full renders")
	}
	left, err := ioutil.ReadAll(ds.BodyFile())
	v.Assert(err == u.ErrSource && u.EqBytes(left, data[:n]), "a failed rendering leaves what was delivered of the body, and the failure")
	v.Assert(whole(ds.Viz.ScriptFile(), []byte(script)), "a failed rendering leaves the script file whole")
	v.Reach("source")
}

// H_C19_key: object bodies with an arbitrary key of 0..1 characters and a second one after it.
func H_C19_key() {
	st := structure([]int{1, 3}[v.Case(2)])
	k := u.Text(v.Pick(2))
	v.Assume(k != "~")
	data := []byte{0xa2, 0x60 | byte(len(k))}
	data = append(append(data, k...), 0x61, 'x', 0x61, '~', 0x61, 'y')
	if st.Format == "json" {
		v.Assume(k != `"` && k != `\`)
		data = []byte(`{"` + k + `":"x","~":"y"}`)
	}
	ds := &dataset.Dataset{Structure: st, Viz: viz([]byte("{{ len allBodyEntries }}{{ range bodyEntries 0 -1 }}<i>{{ . }}</i>{{ end }}{{ len (bodyEntries 0 1) }}"))}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.x", data))
	got, err := page(ds)
	v.Assert(err == nil, "a template renders")
	v.Assert(got == "2<i>x</i><i>y</i>1" || k > "~" && got == "2<i>y</i><i>x</i>1", "a page holds every entry of an object")
	v.Reach("key")
}

// H_C19_long: bodies of 130 rows in every streaming format, asked for whole and in windows around row 100, an arbitrary character in one row.
func H_C19_long() {
	kind := v.Case(kinds)
	st := structure(kind)
	obj := kind == 1 || kind == 3
	const n = 130
	at := []int{0, 99, 100, n - 1}[v.Pick(4)]
	ch := u.Text(1)
	v.Assume(ch != "\r")
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	v.Assume(err == nil)
	var want []string
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i, Value: []interface{}{"v" + strconv.Itoa(i), "x"}}
		if i == at {
			e.Value = []interface{}{"v" + ch, "x"}
		}
		want = append(want, "<p>"+esc(e.Value.([]interface{})[0].(string))+"</p>")
		if obj {
			e.Key = strconv.Itoa(1000 + i)
		}
		v.Assume(w.WriteEntry(e) == nil)
	}
	v.Assume(w.Close() == nil)
	k := v.Pick(4)
	off := []int{0, 0, 95, 120}[k]
	end := []int{n, 101, 105, n}[k]
	script := []string{"{{ range allBodyEntries }}", "{{ range bodyEntries 0 101 }}", "{{ range bodyEntries 95 10 }}", "{{ range bodyEntries 120 50 }}"}[k] + "<p>{{ $c := . }}{{ range $c }}{{ if eq . \"x\" }}{{ else }}{{ . }}{{ end }}{{ end }}</p>{{ end }}"
	out := ""
	for _, x := range want[off:end] {
		out += x
	}
	ds := &dataset.Dataset{Structure: st, Viz: viz([]byte(script))}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.x", buf.Bytes()))
	got, err := page(ds)
	v.Assert(err == nil, "a template renders")
	v.Assert(u.EqStr(got, out), "a page holds exactly the entries asked for, escaped")
	v.Assert(whole(ds.BodyFile(), buf.Bytes()), "rendering leaves the body file whole")
	v.Reach("long")
}

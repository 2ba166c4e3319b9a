// Package c24 checks dataset previews.
package c24

import (
	"context"
	"encoding/json"
	"io"
	"io/ioutil"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

func readFile(f qfs.File, max int) []byte {
	var out []byte
	p := make([]byte, 512)
	for i := 0; i < max+20; i++ {
		n, err := f.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			v.Assert(err == io.EOF, "the file stays readable")
			return out
		}
	}
	v.Assert(false, "the file ends")
	return nil
}

var counts = []int{0, 1, 2, 99, 100, 101, 103}

// H_C24_rows: bodies of lengths around the limit in every streaming format; the preview holds exactly the leading rows and the body file is left whole.
func H_C24_rows() {
	format := []string{"json", "ndjson", "csv", "cbor"}[v.Case(4)]
	n := counts[v.Case(len(counts))]
	obj := format == "json" && v.Pick(2) == 1
	at := 0
	if n > 0 {
		at = []int{0, n - 1, n / 2, 99 % n}[v.Pick(4)]
	}
	d := v.Byte()
	v.Assume(d >= '1' && d <= '9')
	var data []byte
	var rows []string
	st := &dataset.Structure{Format: format, Schema: map[string]interface{}{"type": "array"}}
	if obj {
		st.Schema = map[string]interface{}{"type": "object"}
	}
	if format == "csv" {
		st.FormatConfig = map[string]interface{}{"headerRow": true}
		st.Schema["items"] = map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "integer"}}}
		data = append(data, "a\n"...)
	}
	if format == "json" {
		data = append(data, '[')
		if obj {
			data[0] = '{'
		}
	}
	if format == "cbor" {
		data = append(data, 0x9f)
	}
	for i := 0; i < n; i++ {
		x := strconv.Itoa(i % 10)
		if i == at {
			x = string([]byte{d})
		}
		if format == "ndjson" {
			// rows of numbers become floats there
			x = `"` + x + `"`
		}
		key := ""
		if obj {
			key = `"k` + strconv.Itoa(i) + `":`
		}
		switch format {
		case "json":
			if i > 0 {
				data = append(data, ',')
			}
			data = append(data, key+x...)
		case "ndjson":
			data = append(data, x+"\n"...)
		case "csv":
			data = append(data, x+"\n"...)
		case "cbor":
			data = append(data, x[0]-'0')
		}
		row := x
		if format == "csv" {
			row = "[" + x + "]"
		}
		rows = append(rows, key+row)
	}
	if format == "json" && obj {
		data = append(data, '}')
	} else if format == "json" {
		data = append(data, ']')
	}
	if format == "cbor" {
		data = append(data, 0xff)
	}
	ds := &dataset.Dataset{Name: "n", Structure: st}
	ds.SetBodyFile(qfs.NewMemfileBytes("body."+format, data))
	p, err := preview.Create(context.Background(), ds)
	v.Assert(err == nil, "a preview is created")
	raw, ok := p.Body.(json.RawMessage)
	v.Assert(ok, "the preview holds JSON")
	if len(rows) > preview.MaxNumDatasetRowsInPreview {
		rows = rows[:preview.MaxNumDatasetRowsInPreview]
	}
	want := "[" + strings.Join(rows, ",") + "]"
	if obj {
		want = "{" + strings.Join(rows, ",") + "}"
	}
	v.Assert(string(raw) == want, "the preview holds exactly the leading rows")
	v.Assert(p.Structure != nil && p.Structure.Format == format && ds.Structure.Format == format, "the structure is kept")
	v.Assert(u.EqBytes(readFile(ds.BodyFile(), len(data)), data), "the body file is left whole")
	v.Reach(format)
}

// H_C24_readme: readme texts of lengths around the limit.
func H_C24_readme() {
	n := []int{0, 1, 996, 997, 998, 1000, 1600}[v.Case(7)]
	text := []byte(strings.Repeat("r", n))
	if n > 0 {
		text[n-1] = v.Byte()
		text[n/2] = v.Byte()
	}
	ds := &dataset.Dataset{Name: "n", Readme: &dataset.Readme{Format: "md"}}
	var r io.Reader = &u.Src{Data: text}
	if v.Pick(2) == 1 {
		r = &u.Src{Data: text, Split: []int{1, 500, 997}}
	}
	ds.Readme.SetScriptFile(qfs.NewMemfileReader("readme.md", r))
	p, err := preview.Create(context.Background(), ds)
	v.Assert(err == nil && p.Readme != nil, "a preview is created")
	got := p.Readme.Text
	v.Assert(len(got) <= preview.MaxReadmePreviewBytes+3, "the readme is cut at its limit")
	if n < preview.MaxReadmePreviewBytes {
		v.Assert(got == string(text), "a short readme is whole")
	} else {
		v.Assert(len(got) >= preview.MaxReadmePreviewBytes && got[:preview.MaxReadmePreviewBytes] == string(text[:preview.MaxReadmePreviewBytes]), "a long readme is cut at the limit")
		if n > preview.MaxReadmePreviewBytes {
			v.Assert(got[preview.MaxReadmePreviewBytes:] == "...", "a cut readme ends in an ellipsis")
		}
	}
	v.Assert(p.Readme.Format == "md", "other readme fields are kept")
	v.Assert(u.EqBytes(readFile(ds.Readme.ScriptFile(), n), text), "the readme file is left whole")
	v.Reach("readme")
}

// H_C24_parts: every combination of present components, with and without files; no panic, and everything is kept.
func H_C24_parts() {
	has := func() bool { return v.Pick(2) == 1 }
	ds := &dataset.Dataset{}
	empty := true
	if has() {
		ds.Name = "n"
		// names are not content of a dataset
		empty = ds.IsEmpty()
	}
	mk := func(set func()) {
		if has() {
			set()
			empty = false
		}
	}
	body, read := false, false
	mk(func() { ds.Commit = &dataset.Commit{Title: "t"} })
	mk(func() { ds.Meta = &dataset.Meta{Title: "t"} })
	mk(func() { ds.Structure = u.ArrayStruct("json") })
	mk(func() { ds.Transform = &dataset.Transform{Text: "t"} })
	mk(func() { ds.Viz = &dataset.Viz{Text: "t"} })
	mk(func() { ds.Stats = &dataset.Stats{Stats: "t"} })
	switch v.Pick(4) {
	case 1:
		ds.Readme = &dataset.Readme{}
		empty = false
	case 2:
		ds.Readme = &dataset.Readme{Text: "t"}
		empty = false
	case 3:
		ds.Readme = &dataset.Readme{}
		ds.Readme.SetScriptFile(qfs.NewMemfileBytes("readme.md", []byte("hello")))
		read, empty = true, false
	}
	if has() {
		ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1]")))
		body = true
	}
	p, err := preview.Create(context.Background(), ds)
	if empty && !body {
		v.Assert(err != nil, "an empty dataset has no preview")
		v.Reach("empty")
		return
	}
	if body && ds.Structure == nil {
		v.Assert(err != nil, "a body needs a structure")
		v.Reach("no structure")
		return
	}
	if empty {
		return
	}
	v.Assert(err == nil, "a preview is created")
	v.Assert((p.Commit != nil) == (ds.Commit != nil) && (p.Meta != nil) == (ds.Meta != nil) && (p.Structure != nil) == (ds.Structure != nil) &&
		(p.Transform != nil) == (ds.Transform != nil) && (p.Viz != nil) == (ds.Viz != nil) && (p.Stats != nil) == (ds.Stats != nil) &&
		(p.Readme != nil) == (ds.Readme != nil), "every component is previewed")
	v.Assert(p.Commit == nil || p.Commit.Title == "t", "the commit is whole")
	v.Assert(p.Meta == nil || p.Meta.Title == "t", "the meta component is whole")
	v.Assert(p.Transform == nil || p.Transform.Text == "t", "the transform is whole")
	v.Assert(p.Viz == nil || p.Viz.Text == "t", "the viz component is whole")
	v.Assert(p.Stats == nil || p.Stats.Stats == "t", "the stats are whole")
	if read {
		v.Assert(p.Readme.Text == "hello", "the readme text is loaded")
	}
	if body {
		raw, ok := p.Body.(json.RawMessage)
		v.Assert(ok && string(raw) == "[1]", "the body is previewed")
	}
	v.Assert(p.Name == ds.Name, "the name is kept")
	v.Reach("parts")
}

// H_C24_error: bodies that cannot be read, and streams that fail, are reported, and the files keep what they held.
func H_C24_error() {
	ds := &dataset.Dataset{Name: "n", Structure: u.ArrayStruct("json")}
	switch v.Case(3) {
	case 0:
		data := []byte("[1,x" + string(v.Bytes(1)) + "]")
		ds.SetBodyFile(qfs.NewMemfileBytes("body.json", data))
		_, err := preview.Create(context.Background(), ds)
		v.Assert(err != nil, "a body that cannot be read is reported")
		v.Assert(u.EqBytes(readFile(ds.BodyFile(), len(data)), data), "the body file is left whole")
	case 1:
		data := []byte("[1,2,3]")
		data = data[:v.Pick(len(data))]
		ds.SetBodyFile(qfs.NewMemfileReader("body.json", &u.Src{Data: data, Err: u.ErrSource}))
		_, err := preview.Create(context.Background(), ds)
		v.Assert(err != nil, "a failing body is reported")
		left, err := ioutil.ReadAll(ds.BodyFile())
		v.Assert(err == u.ErrSource && u.EqBytes(left, data), "what a failing body delivered stays readable")
	case 2:
		ds.Readme = &dataset.Readme{}
		data := v.Bytes(v.Pick(4))
		ds.Readme.SetScriptFile(qfs.NewMemfileReader("r.md", &u.Src{Data: data, Err: u.ErrSource}))
		_, err := preview.Create(context.Background(), ds)
		v.Assert(err != nil, "a failing readme is reported")
		left, err := ioutil.ReadAll(ds.Readme.ScriptFile())
		v.Assert(err == u.ErrSource && u.EqBytes(left, data), "what a failing readme delivered stays readable")
	}
	_, err := preview.Create(context.Background(), nil)
	v.Assert(err != nil, "a dataset is needed")
	v.Reach("error")
}

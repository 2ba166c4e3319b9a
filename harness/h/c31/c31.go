// Package c31 checks component and dataset diffs.
package c31

import (
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
	"verifh/model"
	"verifh/u"
	"verifh/v"
)

func letter() string {
	b := v.Byte()
	v.Assume(v.And(b >= 'a', b <= 'z'))
	return string([]byte{b})
}

// txt is unset, one arbitrary letter, or a long text around one.
func txt() string {
	switch v.Pick(3) {
	case 0:
		return ""
	case 1:
		return letter()
	}
	return "a text longer than thirty bytes: " + letter()
}

// long pairs are only told apart by their last byte.
func pair() (string, string, bool) {
	a, b := txt(), txt()
	return a, b, a != b
}

// paths gives two references of equal length that may differ in a letter; the same reference stands for the same content.
func paths() (string, string, bool) {
	x, y := letter(), letter()
	return "/p/" + x + "/q", "/p/" + y + "/q", x != y
}

// referenced checks two components with different content under paths that differ or not.
func referenced(d *dsdiff.SubDiff, err error, differ bool) {
	v.Assert(err == nil && d != nil, "a diff is made")
	v.Assert((d.Diff != nil && d.Modified()) == differ, "modified exactly when the paths differ")
	others(d, differ, []string{"simple", "listKeys", "plusMinus", "delta"})
	v.Reach("referenced")
}

// others checks the longer summaries: there is one exactly when something changed.
func others(d *dsdiff.SubDiff, differ bool, ways []string) {
	for _, how := range ways {
		s, err := d.SummarizeToString(how)
		v.Assert(err == nil, "a summary is made")
		v.Assert((s != "") == differ, "a summary exactly when something changed")
	}
	data, err := d.MarshalJSON()
	v.Assert(err == nil && len(data) >= 2 && data[0] == '[' && data[len(data)-1] == ']', "changes encode as a JSON list")
	v.Assert((len(data) > 2) == differ, "the list of changes is empty exactly when nothing changed")
}

func check(d *dsdiff.SubDiff, err error, differ bool, kind string) {
	v.Assert(err == nil, "a diff is made")
	v.Assert(d != nil, "a diff is returned")
	defer others(d, differ, []string{"listKeys", "plusMinus", "delta"})
	if d.Diff == nil {
		v.Assert(!differ, "a difference is reported")
		s, err := d.SummarizeToString("simple")
		v.Assert(err == nil && s == "", "no difference has no summary")
		v.Reach("shortcut")
		return
	}
	v.Assert(d.Modified() == differ, "modified exactly when the components differ")
	n := 0
	if differ {
		n = 1
	}
	v.Assert(len(d.Deltas()) == n, "one delta for the field that differs")
	s, err := d.SummarizeToString("simple")
	v.Assert(err == nil, "a summary is made")
	want := ""
	if differ {
		want = kind + " Changed. (1 change)"
		v.Reach("differ")
	} else {
		v.Reach("same")
	}
	v.Assert(s == want, "the summary tells what changed")
}

func structure(fill bool) *dataset.Structure {
	if !fill {
		return &dataset.Structure{}
	}
	return &dataset.Structure{Checksum: "c", Compression: "z", Depth: 2, Encoding: "e", ErrCount: 3, Entries: 4, Format: "csv", Length: 5, Qri: "st:1", Strict: true,
		FormatConfig: map[string]interface{}{"x": true}, Schema: map[string]interface{}{"type": "array"}}
}

// H_C31_structure: two structures that hold nothing or everything else, one field unset or with an arbitrary letter or long text, number or flag in each.
func H_C31_structure() {
	k := v.Case(12)
	fill := v.Pick(2) == 1
	a, b := structure(fill), structure(fill)
	differ := false
	num := func() (int, int) {
		x, y := v.Pick(7)-3, v.Pick(7)-3
		differ = x != y
		return x, y
	}
	switch k {
	case 0:
		a.Checksum, b.Checksum, differ = pair()
	case 1:
		a.Compression, b.Compression, differ = pair()
	case 2:
		a.Encoding, b.Encoding, differ = pair()
	case 3:
		a.Format, b.Format, differ = pair()
	case 4:
		a.Path, b.Path, differ = pair()
	case 5:
		a.Depth, b.Depth = num()
	case 6:
		a.ErrCount, b.ErrCount = num()
	case 7:
		a.Entries, b.Entries = num()
	case 8:
		a.Length, b.Length = num()
	case 9:
		a.Strict, b.Strict = v.Bool(), v.Bool()
		differ = a.Strict != b.Strict
	case 10:
		var x, y string
		x, y, differ = pair()
		a.FormatConfig, b.FormatConfig = map[string]interface{}{"o": x, "p": 1}, map[string]interface{}{"o": y, "p": 1}
	case 11:
		var x, y string
		x, y, differ = pair()
		a.Schema, b.Schema = map[string]interface{}{"type": "array", "items": map[string]interface{}{"title": x}}, map[string]interface{}{"type": "array", "items": map[string]interface{}{"title": y}}
	}
	d, err := dsdiff.DiffStructure(a, b)
	check(d, err, differ, "Structure")
}

func transform(fill bool) *dataset.Transform {
	if !fill {
		return &dataset.Transform{}
	}
	return &dataset.Transform{Qri: "tf:1", Text: "t", Syntax: "s", SyntaxVersion: "1", Config: map[string]interface{}{"x": true}, Syntaxes: map[string]string{"q": "r"},
		Steps: []*dataset.TransformStep{{Name: "n", Syntax: "s", Category: "c", Script: "t"}}, Resources: map[string]*dataset.TransformResource{"r": {Path: "p"}}}
}

// H_C31_transform: two transforms that hold nothing or everything else, one field unset or with an arbitrary letter or long text in each; script paths only count when one is missing, and secrets never.
func H_C31_transform() {
	k := v.Case(12)
	fill := v.Pick(2) == 1
	a, b := transform(fill), transform(fill)
	x, y, differ := pair()
	switch k {
	case 0:
		a.Text, b.Text = x, y
	case 1:
		a.Syntax, b.Syntax = x, y
	case 2:
		a.SyntaxVersion, b.SyntaxVersion = x, y
	case 3:
		a.Config, b.Config = map[string]interface{}{"k": x}, map[string]interface{}{"k": y}
	case 4:
		a.Syntaxes, b.Syntaxes = map[string]string{"k": x}, map[string]string{"k": y}
	case 5:
		a.Resources, b.Resources = map[string]*dataset.TransformResource{"k": {Path: "a" + x}}, map[string]*dataset.TransformResource{"k": {Path: "a" + y}}
	case 6:
		a.Steps, b.Steps = []*dataset.TransformStep{{Name: x}}, []*dataset.TransformStep{{Name: y}}
	case 7:
		a.Steps, b.Steps = []*dataset.TransformStep{{Name: "n", Script: x}}, []*dataset.TransformStep{{Name: "n", Script: y}}
	case 8:
		a.ScriptPath, b.ScriptPath = x, y
		differ = (x == "") != (y == "")
	case 9:
		a.Secrets, b.Secrets = map[string]string{"k": x}, map[string]string{"k": y}
		differ = false
	case 10:
		// the same path stands for the same content
		a.Path, b.Path = "/p/q", "/p/q"
		a.Text, b.Text = x, y
		differ = false
	case 11:
		a.Path, b.Path, differ = paths()
		a.Text, b.Text = "1", "2"
		d, err := dsdiff.DiffTransform(a, b)
		referenced(d, err, differ)
		return
	}
	sa, sb := a.ScriptPath, b.ScriptPath
	d, err := dsdiff.DiffTransform(a, b)
	check(d, err, differ, "Transform")
	v.Assert(a.ScriptPath == sa && b.ScriptPath == sb, "the transforms stay as they were")
}

func meta(fill bool) *dataset.Meta {
	if !fill {
		return &dataset.Meta{}
	}
	m := &dataset.Meta{AccessURL: "a", AccrualPeriodicity: "b", Description: "c", DownloadURL: "d", HomeURL: "e", Identifier: "f", ReadmeURL: "g", Title: "h", Version: "i",
		Keywords: []string{"k"}, Language: []string{"l"}, Theme: []string{"t"}, License: &dataset.License{Type: "l", URL: "u"},
		Citations: []*dataset.Citation{{Name: "n"}}, Contributors: []*dataset.User{{ID: "id"}}}
	m.Set("extra", "x")
	return m
}

// H_C31_meta: two metas that hold nothing or everything else, one field (or additional key) unset or with an arbitrary letter or long text in each.
func H_C31_meta() {
	k := v.Case(18)
	fill := v.Pick(2) == 1
	a, b := meta(fill), meta(fill)
	x, y, differ := pair()
	switch k {
	case 0:
		a.AccessURL, b.AccessURL = x, y
	case 1:
		a.AccrualPeriodicity, b.AccrualPeriodicity = x, y
	case 2:
		a.Description, b.Description = x, y
	case 3:
		a.DownloadURL, b.DownloadURL = x, y
	case 4:
		a.HomeURL, b.HomeURL = x, y
	case 5:
		a.Identifier, b.Identifier = x, y
	case 6:
		a.ReadmeURL, b.ReadmeURL = x, y
	case 7:
		a.Title, b.Title = x, y
	case 8:
		a.Version, b.Version = x, y
	case 9:
		a.Keywords, b.Keywords = []string{"k", x}, []string{"k", y}
	case 10:
		a.Language, b.Language = []string{x}, []string{y}
	case 11:
		a.Theme, b.Theme = []string{x}, []string{y}
	case 12:
		a.License, b.License = &dataset.License{Type: x}, &dataset.License{Type: y}
	case 13:
		a.Citations, b.Citations = []*dataset.Citation{{Name: "n", URL: x}}, []*dataset.Citation{{Name: "n", URL: y}}
	case 14:
		a.Contributors, b.Contributors = []*dataset.User{{ID: "n", Email: x}}, []*dataset.User{{ID: "n", Email: y}}
	case 15:
		a.Set("other", x)
		b.Set("other", y)
	case 16:
		a.Path, b.Path = "/p/q", "/p/q"
		a.Title, b.Title = x, y
		differ = false
	case 17:
		a.Path, b.Path, differ = paths()
		a.Title, b.Title = "1", "2"
		d, err := dsdiff.DiffMeta(a, b)
		referenced(d, err, differ)
		return
	}
	d, err := dsdiff.DiffMeta(a, b)
	check(d, err, differ, "Meta")
}

// H_C31_viz: two visualisations that hold nothing or everything else, one field unset or with an arbitrary letter or long text in each.
func H_C31_viz() {
	k := v.Case(6)
	mk := func() *dataset.Viz { return &dataset.Viz{} }
	if v.Pick(2) == 1 {
		mk = func() *dataset.Viz {
			return &dataset.Viz{Format: "f", Text: "t", ScriptPath: "s", RenderedPath: "r"}
		}
	}
	a, b := mk(), mk()
	x, y, differ := pair()
	switch k {
	case 0:
		a.Format, b.Format = x, y
	case 1:
		a.Text, b.Text = x, y
	case 2:
		a.ScriptPath, b.ScriptPath = x, y
	case 3:
		a.RenderedPath, b.RenderedPath = x, y
	case 4:
		a.Path, b.Path = "/p/q", "/p/q"
		a.Text, b.Text = x, y
		differ = false
	case 5:
		a.Path, b.Path, differ = paths()
		a.Text, b.Text = "1", "2"
		d, err := dsdiff.DiffViz(a, b)
		referenced(d, err, differ)
		return
	}
	d, err := dsdiff.DiffViz(a, b)
	check(d, err, differ, "Viz")
}

// H_C31_dataset: each of structure, meta, transform and viz absent, or present with one of two contents, on either side: the result lists exactly the components present, changed exactly when their contents differ, and the summary tells of the first one.
func H_C31_dataset() {
	a, b := &dataset.Dataset{}, &dataset.Dataset{}
	c := [4][2]int{}
	k := v.Case(4)
	for i := range c {
		for s := 0; s < 2; s++ {
			if i == k {
				c[i][s] = v.Pick(3)
			} else if v.Pick(2) == 1 {
				c[i][s] = 1
			}
		}
	}
	text := []string{"", "x", "y"}
	for s, d := range []*dataset.Dataset{a, b} {
		if t := text[c[0][s]]; t != "" {
			d.Structure = &dataset.Structure{Format: t}
		}
		if t := text[c[1][s]]; t != "" {
			d.Transform = &dataset.Transform{Text: t}
		}
		if t := text[c[2][s]]; t != "" {
			d.Meta = &dataset.Meta{Title: t}
		}
		if t := text[c[3][s]]; t != "" {
			d.Viz = &dataset.Viz{Text: t}
		}
	}
	m, err := dsdiff.DiffDatasets(a, b, nil)
	v.Assert(err == nil, "a diff is made")
	names := []string{"structure", "transform", "meta", "viz"}
	titles := []string{"Structure", "Transform", "Meta", "Viz"}
	n := 0
	first := ""
	for i, name := range names {
		d, ok := m[name]
		present := c[i][0] != 0 || c[i][1] != 0
		v.Assert(ok == present, "exactly the components present are listed")
		if !present {
			continue
		}
		n++
		differ := c[i][0] != c[i][1]
		v.Assert(d.Diff != nil && d.Modified() == differ, "changed exactly when the contents differ")
		if differ && first == "" {
			first = titles[i]
		}
	}
	v.Assert(len(m) == n, "nothing else is listed")
	s, err := dsdiff.MapDiffsToString(m, "simple")
	v.Assert(err == nil, "a summary is made")
	if first == "" {
		v.Assert(s == "", "no summary without a change")
		v.Reach("same")
	} else {
		v.Assert(s == first+" Changed. (1 change)", "the summary tells of the first change")
		v.Reach("differ")
	}
}

// H_C31_json: two arbitrary objects of 2..6 (7) bytes: modified exactly when their contents differ; other texts are errors.
func H_C31_json() {
	n := v.Case(v.Bound(5, 6))
	x, y := append([]byte("{"), v.Bytes(1+n)...), []byte(nil)
	switch v.Pick(3) {
	case 0:
		y = []byte(`{"a":1}`)
	case 1:
		y = []byte(`{}`)
	case 2:
		y = []byte(`{"a":"b"}`)
	}
	if n < 4 && v.Pick(2) == 1 {
		x, y = y, x
	}
	var mx, my map[string]interface{}
	ex, ey := model.JSONUnmarshal(x, &mx), model.JSONUnmarshal(y, &my)
	d, err := dsdiff.DiffJSON(x, y, "data")
	if ex != nil || ey != nil {
		v.Assert(err != nil, "texts that are no objects are errors")
		v.Reach("error")
		return
	}
	v.Assert(err == nil, "objects are compared")
	v.Assert(d.Modified() == !u.EqVal(mx, my), "modified exactly when the contents differ")
	s, err := d.SummarizeToString("simple")
	v.Assert(err == nil && (s != "") == d.Modified(), "a summary exactly when modified")
	v.Reach("compared")
}

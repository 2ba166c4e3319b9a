// Package c33 checks the comparison helpers for datasets. The difference reporter (go-cmp) is modelled; replays use the
// real one.
package c33

import (
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"verifh/u"
	"verifh/v"
)

// field is a way to set one field by a text or a number.
type field struct {
	name      string
	transient bool
	num       bool
	set       func(ds *dataset.Dataset, x string, n int)
}

func f(name string, set func(*dataset.Dataset, string)) field {
	return field{name: name, set: func(ds *dataset.Dataset, x string, n int) { set(ds, x) }}
}

func tr(x field) field {
	x.transient = true
	return x
}

func num(name string, set func(*dataset.Dataset, int)) field {
	return field{name: name, num: true, set: func(ds *dataset.Dataset, x string, n int) { set(ds, n) }}
}

type D = dataset.Dataset

var fields = []field{
	tr(f("body", func(d *D, x string) { d.Body = x })),
	tr(f("bodyBytes", func(d *D, x string) { d.BodyBytes = []byte(x) })),
	tr(f("name", func(d *D, x string) { d.Name = x })),
	tr(f("peername", func(d *D, x string) { d.Peername = x })),
	tr(f("path", func(d *D, x string) { d.Path = x })),
	tr(f("profileID", func(d *D, x string) { d.ProfileID = x })),
	tr(num("numVersions", func(d *D, n int) { d.NumVersions = n })),
	f("bodyPath", func(d *D, x string) { d.BodyPath = x }),
	f("id", func(d *D, x string) { d.ID = x }),
	f("previousPath", func(d *D, x string) { d.PreviousPath = x }),
	f("qri", func(d *D, x string) { d.Qri = x }),
	f("readme", func(d *D, x string) { d.Readme.ScriptPath = x }),
	f("stats", func(d *D, x string) { d.Stats.Stats = []interface{}{x} }),
	f("transform", func(d *D, x string) { d.Transform.Syntax = x }),
	f("step", func(d *D, x string) { d.Transform.Steps = []*dataset.TransformStep{{Name: x}} }),
	f("config", func(d *D, x string) { d.Transform.Config = map[string]interface{}{"a": x} }),
	f("viz", func(d *D, x string) { d.Viz.Format = x }),
	f("readmeFormat", func(d *D, x string) { d.Readme.Format = x }),
	f("readmePath", func(d *D, x string) { d.Readme.Path = x }),
	f("readmeQri", func(d *D, x string) { d.Readme.Qri = x }),
	f("readmeText", func(d *D, x string) { d.Readme.Text = x }),
	f("readmeRendered", func(d *D, x string) { d.Readme.RenderedPath = x }),
	f("statsPath", func(d *D, x string) { d.Stats.Path = x }),
	f("statsQri", func(d *D, x string) { d.Stats.Qri = x }),
	f("transformPath", func(d *D, x string) { d.Transform.Path = x }),
	f("transformQri", func(d *D, x string) { d.Transform.Qri = x }),
	f("transformScript", func(d *D, x string) { d.Transform.ScriptPath = x }),
	f("transformText", func(d *D, x string) { d.Transform.Text = x }),
	f("syntaxVersion", func(d *D, x string) { d.Transform.SyntaxVersion = x }),
	f("syntaxes", func(d *D, x string) { d.Transform.Syntaxes = map[string]string{"a": x} }),
	f("secrets", func(d *D, x string) { d.Transform.Secrets = map[string]string{"a": x} }),
	f("resources", func(d *D, x string) { d.Transform.Resources = map[string]*dataset.TransformResource{"a": {Path: x}} }),
	f("stepScript", func(d *D, x string) {
		d.Transform.Steps = []*dataset.TransformStep{{Name: "s"}, {Name: "s", Script: x}}
	}),
	f("vizPath", func(d *D, x string) { d.Viz.Path = x }),
	f("vizQri", func(d *D, x string) { d.Viz.Qri = x }),
	f("vizScript", func(d *D, x string) { d.Viz.ScriptPath = x }),
	f("vizText", func(d *D, x string) { d.Viz.Text = x }),
	f("vizRendered", func(d *D, x string) { d.Viz.RenderedPath = x }),
}

var commitFields = []field{
	tr(f("path", func(d *D, x string) { d.Commit.Path = x })),
	f("title", func(d *D, x string) { d.Commit.Title = x }),
	f("message", func(d *D, x string) { d.Commit.Message = x }),
	f("author", func(d *D, x string) { d.Commit.Author.ID = x }),
	f("authorName", func(d *D, x string) { d.Commit.Author.Fullname = x }),
	f("authorEmail", func(d *D, x string) { d.Commit.Author.Email = x }),
	f("signature", func(d *D, x string) { d.Commit.Signature = x }),
	f("qri", func(d *D, x string) { d.Commit.Qri = x }),
	f("run", func(d *D, x string) { d.Commit.RunID = x }),
	num("time", func(d *D, n int) { d.Commit.Timestamp = time.Unix(1600000000+int64(n), 0).UTC() }),
}

var metaFields = []field{
	tr(f("path", func(d *D, x string) { d.Meta.Path = x })),
	f("title", func(d *D, x string) { d.Meta.Title = x }),
	f("description", func(d *D, x string) { d.Meta.Description = x }),
	f("keywords", func(d *D, x string) { d.Meta.Keywords = []string{"k", x} }),
	f("license", func(d *D, x string) { d.Meta.License = &dataset.License{Type: x} }),
	f("citation", func(d *D, x string) { d.Meta.Citations = []*dataset.Citation{{URL: x}} }),
	f("qri", func(d *D, x string) { d.Meta.Qri = x }),
	f("version", func(d *D, x string) { d.Meta.Version = x }),
	f("accessURL", func(d *D, x string) { d.Meta.AccessURL = x }),
	f("accrual", func(d *D, x string) { d.Meta.AccrualPeriodicity = x }),
	f("contributor", func(d *D, x string) { d.Meta.Contributors = []*dataset.User{{ID: "u", Email: x}} }),
	f("downloadURL", func(d *D, x string) { d.Meta.DownloadURL = x }),
	f("homeURL", func(d *D, x string) { d.Meta.HomeURL = x }),
	f("identifier", func(d *D, x string) { d.Meta.Identifier = x }),
	f("language", func(d *D, x string) { d.Meta.Language = []string{x} }),
	f("readmeURL", func(d *D, x string) { d.Meta.ReadmeURL = x }),
	f("theme", func(d *D, x string) { d.Meta.Theme = []string{x, "t"} }),
	f("licenseURL", func(d *D, x string) { d.Meta.License = &dataset.License{Type: "t", URL: x} }),
}

var structureFields = []field{
	tr(f("path", func(d *D, x string) { d.Structure.Path = x })),
	f("format", func(d *D, x string) { d.Structure.Format = x }),
	f("checksum", func(d *D, x string) { d.Structure.Checksum = x }),
	f("compression", func(d *D, x string) { d.Structure.Compression = x }),
	num("depth", func(d *D, n int) { d.Structure.Depth = n }),
	num("entries", func(d *D, n int) { d.Structure.Entries = n }),
	num("errors", func(d *D, n int) { d.Structure.ErrCount = n }),
	num("length", func(d *D, n int) { d.Structure.Length = n }),
	f("config", func(d *D, x string) { d.Structure.FormatConfig = map[string]interface{}{"a": x} }),
	f("schema", func(d *D, x string) { d.Structure.Schema = map[string]interface{}{"type": x} }),
	f("encoding", func(d *D, x string) { d.Structure.Encoding = x }),
	f("qri", func(d *D, x string) { d.Structure.Qri = x }),
	num("strict", func(d *D, n int) { d.Structure.Strict = n > 4 }),
}

func base() *D {
	return &D{
		Name: "n", Qri: "ds:0", ID: "i",
		Commit:    &dataset.Commit{Title: "t", Author: &dataset.User{ID: "u"}, Path: "p"},
		Meta:      &dataset.Meta{Title: "t", Path: "p"},
		Structure: &dataset.Structure{Format: "csv", Path: "p", Schema: map[string]interface{}{"type": "array"}},
		Readme:    &dataset.Readme{Format: "md"},
		Stats:     &dataset.Stats{Path: "p"},
		Transform: &dataset.Transform{Text: "t"},
		Viz:       &dataset.Viz{Text: "t"},
	}
}

// check compares two datasets that differ in field x only, through the helper for the component k.
func check(k int, x field) {
	a, b := base(), base()
	s, t := u.Text(1), u.Text(v.Pick(2))
	if x.name == "time" || t == "" && x.name == "bodyBytes" {
		v.Assume(t != "")
	}
	m, n := v.Int(1, 9), v.Int(1, 9)
	x.set(a, s, m)
	x.set(b, t, n)
	var opts []dstest.CompareOpts
	drop := v.Pick(2) == 1
	if drop {
		opts = append(opts, dstest.OptDropTransientValues(0))
	}
	cmp := func(a, b *D) string {
		switch k {
		case 1:
			return dstest.CompareCommits(a.Commit, b.Commit, opts...)
		case 2:
			return dstest.CompareMetas(a.Meta, b.Meta, opts...)
		case 3:
			return dstest.CompareStructures(a.Structure, b.Structure, opts...)
		}
		return dstest.CompareDatasets(a, b, opts...)
	}
	same := s == t
	if x.num {
		same = m == n
		if x.name == "strict" {
			same = (m > 4) == (n > 4)
		}
	}
	// the values of a dataset's components are not transient to it
	want := same || drop && x.transient
	v.Assert((cmp(a, b) == "") == want, "two values are equal exactly when the fields that count are")
	v.Assert((cmp(b, a) == "") == want, "comparing is symmetric")
	v.Assert(cmp(a, a) == "", "a value equals itself")
	// comparing strictly again shows that nothing was dropped from the values themselves
	opts = nil
	v.Assert((cmp(a, b) == "") == same, "comparing changes nothing")
	v.Reach(x.name)
}

// H_C33_dataset: pairs of datasets that differ in one field (any of their own), texts of 0..1 characters, numbers 1..9, with and without the option to drop transient values.
func H_C33_dataset() {
	check(0, fields[v.Case(len(fields))])
}

// H_C33_component: pairs of commits, metas and structures that differ in one field, compared by themselves.
func H_C33_component() {
	k := v.Case(3)
	l := [][]field{commitFields, metaFields, structureFields}[k]
	check(k+1, l[v.Case(len(l))])
}

// H_C33_nested: pairs of datasets that differ in one field of their commit, meta or structure.
func H_C33_nested() {
	l := [][]field{commitFields, metaFields, structureFields}[v.Case(3)]
	x := l[v.Case(len(l))]
	x.transient = false
	check(0, x)
}

// H_C33_absent: datasets with and without each component, and absent datasets.
func H_C33_absent() {
	a, b := base(), base()
	k := v.Case(8)
	switch k {
	case 0:
		b.Commit = nil
	case 1:
		b.Meta = nil
	case 2:
		b.Structure = nil
	case 3:
		b.Readme = nil
	case 4:
		b.Stats = nil
	case 5:
		b.Transform = nil
	case 6:
		b.Viz = nil
	case 7:
		b = nil
	}
	var opts []dstest.CompareOpts
	if v.Pick(2) == 1 {
		opts = append(opts, dstest.OptDropTransientValues(0))
	}
	v.Assert(dstest.CompareDatasets(a, b, opts...) != "" && dstest.CompareDatasets(b, a, opts...) != "", "a missing component is a difference")
	v.Assert(dstest.CompareDatasets(b, b, opts...) == "", "a dataset equals itself")
	if k == 7 {
		var c *dataset.Commit
		var m *dataset.Meta
		var s *dataset.Structure
		v.Assert(dstest.CompareCommits(a.Commit, c, opts...) != "" && dstest.CompareCommits(c, c, opts...) == "", "a missing commit is a difference")
		v.Assert(dstest.CompareMetas(a.Meta, m, opts...) != "" && dstest.CompareMetas(m, m, opts...) == "", "a missing meta is a difference")
		v.Assert(dstest.CompareStructures(a.Structure, s, opts...) != "" && dstest.CompareStructures(s, s, opts...) == "", "a missing structure is a difference")
	}
	v.Reach("absent")
}

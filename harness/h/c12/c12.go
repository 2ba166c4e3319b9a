// Package c12 checks Assign of every dataset component.
package c12

import (
	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

// last gives the last non-empty string.
func last(xs ...string) string {
	r := ""
	for _, x := range xs {
		if x != "" {
			r = x
		}
	}
	return r
}

func lastInt(xs ...int) int {
	r := 0
	for _, x := range xs {
		if x != 0 {
			r = x
		}
	}
	return r
}

// list gives the text of a list of at most one string.
func list(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// own reports whether a value is unset or still the given one.
func own(x, want string) bool { return x == "" || x == want }

func file(f qfs.File) string {
	if f == nil {
		return ""
	}
	return f.FullPath()
}

func smap(m map[string]interface{}, k string) string {
	s, _ := m[k].(string)
	return s
}

func author(c *dataset.Commit) string {
	if c.Author == nil {
		return ""
	}
	return c.Author.ID
}

func stamp(c *dataset.Commit) int {
	if c.Timestamp.IsZero() {
		return 0
	}
	return int(c.Timestamp.Unix())
}

// H_C12_commit: two sources (or a nil one) onto a commit, every field of each set or not.
func H_C12_commit() {
	v.Merge(3)
	d, a, b := u.Commit("d"), u.Commit("a"), u.Commit("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	commit(d, &o, &p, &q)
	v.Assert(*a == p && *b == q, "sources stay unchanged")
	v.Assert(own(author(a), "aauthor") && own(author(b), "bauthor"), "nested values of the sources stay unchanged")
	v.Reach("commit")
}

func commit(d, o, a, b *dataset.Commit) {
	v.Assert(author(d) == last(author(o), author(a), author(b)), "author")
	v.Assert(d.Message == last(o.Message, a.Message, b.Message), "message")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(d.Signature == last(o.Signature, a.Signature, b.Signature), "signature")
	v.Assert(d.Title == last(o.Title, a.Title, b.Title), "title")
	v.Assert(d.RunID == last(o.RunID, a.RunID, b.RunID), "runID")
	v.Assert(stamp(d) == lastInt(stamp(o), stamp(a), stamp(b)), "timestamp")
}

func contributor(m *dataset.Meta) string {
	if len(m.Contributors) == 0 {
		return ""
	}
	return m.Contributors[0].ID
}

func citation(m *dataset.Meta) string {
	if len(m.Citations) == 0 {
		return ""
	}
	return m.Citations[0].Name
}

func license(m *dataset.Meta) string {
	if m.License == nil {
		return ""
	}
	return m.License.Type
}

func extra(m *dataset.Meta) string { return smap(m.Meta(), "extra") }

func meta(d, o, a, b *dataset.Meta) {
	v.Assert(d.AccessURL == last(o.AccessURL, a.AccessURL, b.AccessURL), "accessURL")
	v.Assert(d.AccrualPeriodicity == last(o.AccrualPeriodicity, a.AccrualPeriodicity, b.AccrualPeriodicity), "accrualPeriodicity")
	v.Assert(citation(d) == last(citation(o), citation(a), citation(b)), "citations")
	v.Assert(contributor(d) == last(contributor(o), contributor(a), contributor(b)), "contributors")
	v.Assert(d.Description == last(o.Description, a.Description, b.Description), "description")
	v.Assert(d.DownloadURL == last(o.DownloadURL, a.DownloadURL, b.DownloadURL), "downloadURL")
	v.Assert(d.HomeURL == last(o.HomeURL, a.HomeURL, b.HomeURL), "homeURL")
	v.Assert(d.Identifier == last(o.Identifier, a.Identifier, b.Identifier), "identifier")
	v.Assert(list(d.Keywords) == last(list(o.Keywords), list(a.Keywords), list(b.Keywords)), "keywords")
	v.Assert(list(d.Language) == last(list(o.Language), list(a.Language), list(b.Language)), "language")
	v.Assert(license(d) == last(license(o), license(a), license(b)), "license")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(d.ReadmeURL == last(o.ReadmeURL, a.ReadmeURL, b.ReadmeURL), "readmeURL")
	v.Assert(d.Title == last(o.Title, a.Title, b.Title), "title")
	v.Assert(list(d.Theme) == last(list(o.Theme), list(a.Theme), list(b.Theme)), "theme")
	v.Assert(d.Version == last(o.Version, a.Version, b.Version), "version")
}

// H_C12_meta: two sources and a nil one onto a meta, every field of each set or not.
func H_C12_meta() {
	v.Merge(3)
	d, a, b := u.Meta("d"), u.Meta("a"), u.Meta("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	meta(d, &o, &p, &q)
	meta(a, &p, &p, &p)
	meta(b, &q, &q, &q)
	for _, m := range []*dataset.Meta{a, b} {
		s := "a"
		if m == b {
			s = "b"
		}
		v.Assert(own(license(m), s+"license") && own(citation(m), s+"citation") && own(contributor(m), s+"contributor"), "nested values of the sources stay unchanged")
		v.Assert(own(list(m.Keywords), s+"keywords") && own(list(m.Language), s+"language") && own(list(m.Theme), s+"theme"), "lists of the sources stay unchanged")
		v.Assert(len(m.Keywords) <= 1 && len(m.Language) <= 1 && len(m.Theme) <= 1 && len(m.Citations) <= 1 && len(m.Contributors) <= 1, "lists of the sources keep their length")
	}
	v.Assert(len(d.Keywords) <= 1 && len(d.Language) <= 1 && len(d.Theme) <= 1 && len(d.Citations) <= 1 && len(d.Contributors) <= 1, "lists are replaced")
	v.Reach("meta")
}

// H_C12_meta_extra: additional metadata keys.
func H_C12_meta_extra() {
	var ms [3]*dataset.Meta
	var want string
	for i, t := range []string{"d", "a", "b"} {
		ms[i] = &dataset.Meta{}
		if v.Bool() {
			v.Assert(ms[i].Set("extra", t) == nil, "extra keys are accepted")
			want = t
		}
	}
	var own [3]string
	for i := range ms {
		own[i] = extra(ms[i])
	}
	ms[0].Assign(ms[1], ms[2])
	v.Assert(extra(ms[0]) == want, "additional metadata")
	v.Assert(extra(ms[1]) == own[1] && extra(ms[2]) == own[2], "sources keep their additional metadata")
	v.Reach("extra")
}

func structure(d, o, a, b *dataset.Structure) {
	v.Assert(d.Checksum == last(o.Checksum, a.Checksum, b.Checksum), "checksum")
	v.Assert(d.Compression == last(o.Compression, a.Compression, b.Compression), "compression")
	v.Assert(d.Depth == lastInt(o.Depth, a.Depth, b.Depth), "depth")
	v.Assert(d.Encoding == last(o.Encoding, a.Encoding, b.Encoding), "encoding")
	v.Assert(d.ErrCount == lastInt(o.ErrCount, a.ErrCount, b.ErrCount), "errCount")
	v.Assert(d.Entries == lastInt(o.Entries, a.Entries, b.Entries), "entries")
	v.Assert(d.Format == last(o.Format, a.Format, b.Format), "format")
	v.Assert(smap(d.FormatConfig, "config") == last(smap(o.FormatConfig, "config"), smap(a.FormatConfig, "config"), smap(b.FormatConfig, "config")), "formatConfig")
	v.Assert(d.Length == lastInt(o.Length, a.Length, b.Length), "length")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(smap(d.Schema, "type") == last(smap(o.Schema, "type"), smap(a.Schema, "type"), smap(b.Schema, "type")), "schema")
	v.Assert(d.Strict == (o.Strict || a.Strict || b.Strict), "strict")
}

// H_C12_structure: two sources and a nil one onto a structure, every field of each set or not.
func H_C12_structure() {
	v.Merge(3)
	d, a, b := u.Structure("d"), u.Structure("a"), u.Structure("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	structure(d, &o, &p, &q)
	structure(a, &p, &p, &p)
	structure(b, &q, &q, &q)
	v.Assert(own(smap(a.FormatConfig, "config"), "a") && own(smap(b.FormatConfig, "config"), "b"), "format options of the sources stay unchanged")
	v.Assert(own(smap(a.Schema, "type"), "a") && own(smap(b.Schema, "type"), "b"), "schemas of the sources stay unchanged")
	for _, s := range []*dataset.Structure{d, a, b} {
		v.Assert(len(s.FormatConfig) <= 2 && len(s.Schema) <= 2, "format options and schema are replaced as a whole")
	}
	v.Reach("structure")
}

func viz(d, o, a, b *dataset.Viz) {
	v.Assert(d.Format == last(o.Format, a.Format, b.Format), "format")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(d.ScriptPath == last(o.ScriptPath, a.ScriptPath, b.ScriptPath), "scriptPath")
	v.Assert(d.Text == last(o.Text, a.Text, b.Text), "text")
	v.Assert(d.RenderedPath == last(o.RenderedPath, a.RenderedPath, b.RenderedPath), "renderedPath")
	v.Assert(file(d.ScriptFile()) == last(file(o.ScriptFile()), file(a.ScriptFile()), file(b.ScriptFile())), "script file")
	v.Assert(file(d.RenderedFile()) == last(file(o.RenderedFile()), file(a.RenderedFile()), file(b.RenderedFile())), "rendered file")
}

// H_C12_viz: two sources and a nil one onto a viz, every field of each set or not.
func H_C12_viz() {
	v.Merge(3)
	d, a, b := u.Viz("d"), u.Viz("a"), u.Viz("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	viz(d, &o, &p, &q)
	viz(a, &p, &p, &p)
	viz(b, &q, &q, &q)
	v.Reach("viz")
}

func readme(d, o, a, b *dataset.Readme) {
	v.Assert(d.Format == last(o.Format, a.Format, b.Format), "format")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(d.ScriptPath == last(o.ScriptPath, a.ScriptPath, b.ScriptPath), "scriptPath")
	v.Assert(d.Text == last(o.Text, a.Text, b.Text), "text")
	v.Assert(d.RenderedPath == last(o.RenderedPath, a.RenderedPath, b.RenderedPath), "renderedPath")
	v.Assert(file(d.ScriptFile()) == last(file(o.ScriptFile()), file(a.ScriptFile()), file(b.ScriptFile())), "script file")
	v.Assert(file(d.RenderedFile()) == last(file(o.RenderedFile()), file(a.RenderedFile()), file(b.RenderedFile())), "rendered file")
}

// H_C12_readme: two sources and a nil one onto a readme, every field of each set or not.
func H_C12_readme() {
	v.Merge(3)
	d, a, b := u.Readme("d"), u.Readme("a"), u.Readme("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	readme(d, &o, &p, &q)
	readme(a, &p, &p, &p)
	readme(b, &q, &q, &q)
	v.Reach("readme")
}

func stat(s *dataset.Stats) string {
	x, _ := s.Stats.(string)
	return x
}

func stats(d, o, a, b *dataset.Stats) {
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(stat(d) == last(stat(o), stat(a), stat(b)), "stats")
}

// H_C12_stats: two sources and a nil one onto a stats component, every field of each set or not.
func H_C12_stats() {
	v.Merge(3)
	d, a, b := u.Stats("d"), u.Stats("a"), u.Stats("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	stats(d, &o, &p, &q)
	stats(a, &p, &p, &p)
	stats(b, &q, &q, &q)
	v.Reach("stats")
}

func step(t *dataset.Transform) string {
	if len(t.Steps) == 0 {
		return ""
	}
	return t.Steps[0].Name
}

func res(t *dataset.Transform, k string) string {
	r := t.Resources[k]
	if r == nil {
		return ""
	}
	return r.Path
}

// scalars of a transform: fields where the last source wins.
func transform(d, o, a, b *dataset.Transform) {
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
	v.Assert(d.ScriptPath == last(o.ScriptPath, a.ScriptPath, b.ScriptPath), "scriptPath")
	v.Assert(d.Text == last(o.Text, a.Text, b.Text), "text")
	v.Assert(d.Syntax == last(o.Syntax, a.Syntax, b.Syntax), "syntax")
	v.Assert(d.SyntaxVersion == last(o.SyntaxVersion, a.SyntaxVersion, b.SyntaxVersion), "syntaxVersion")
	v.Assert(d.Syntaxes["x"] == last(o.Syntaxes["x"], a.Syntaxes["x"], b.Syntaxes["x"]), "syntaxes")
	v.Assert(step(d) == last(step(o), step(a), step(b)), "steps")
	v.Assert(file(d.ScriptFile()) == last(file(o.ScriptFile()), file(a.ScriptFile()), file(b.ScriptFile())), "script file")
}

// H_C12_transform: two sources and a nil one onto a transform, every last-wins field of each set or not.
func H_C12_transform() {
	v.Merge(3)
	d, a, b := u.Transform("d", false), u.Transform("a", false), u.Transform("b", false)
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	transform(d, &o, &p, &q)
	transform(a, &p, &p, &p)
	transform(b, &q, &q, &q)
	v.Assert(own(step(a), "astep") && own(step(b), "bstep"), "steps of the sources stay unchanged")
	v.Assert(own(a.Syntaxes["x"], "a") && own(b.Syntaxes["x"], "b"), "syntaxes of the sources stay unchanged")
	for _, x := range []*dataset.Transform{d, a, b} {
		v.Assert(len(x.Steps) <= 1 && len(x.Syntaxes) <= 2, "steps and syntaxes are replaced as a whole")
	}
	v.Reach("transform")
}

// H_C12_transform_maps: the keyed fields (config, secrets, resources) collect the keys of all sources, the last source winning.
func H_C12_transform_maps() {
	switch v.Case(3) {
	case 0:
		var w [3]string
		var t [3]*dataset.Transform
		for i, n := range []string{"d", "a", "b"} {
			t[i] = &dataset.Transform{}
			if v.Bool() {
				t[i].Config = map[string]interface{}{"k": n, n: n}
				w[i] = n
			}
		}
		t[0].Assign(t[1], nil, t[2])
		v.Assert(smap(t[0].Config, "k") == last(w[0], w[1], w[2]), "config")
		for _, x := range w {
			v.Assert(x == "" || smap(t[0].Config, x) == x, "config keeps other keys")
		}
		v.Assert(smap(t[1].Config, "k") == w[1] && smap(t[2].Config, "k") == w[2], "sources keep their config")
		v.Assert(len(t[1].Config) <= 2 && len(t[2].Config) <= 2, "sources gain no config")
	case 1:
		var w [3]string
		var t [3]*dataset.Transform
		for i, n := range []string{"d", "a", "b"} {
			t[i] = &dataset.Transform{}
			if v.Bool() {
				t[i].Secrets = map[string]string{"k": n, n: n}
				w[i] = n
			}
		}
		t[0].Assign(t[1], nil, t[2])
		v.Assert(t[0].Secrets["k"] == last(w[0], w[1], w[2]), "secrets")
		for _, x := range w {
			v.Assert(x == "" || t[0].Secrets[x] == x, "secrets keep other keys")
		}
		v.Assert(t[1].Secrets["k"] == w[1] && t[2].Secrets["k"] == w[2], "sources keep their secrets")
		v.Assert(len(t[1].Secrets) <= 2 && len(t[2].Secrets) <= 2, "sources gain no secrets")
	case 2:
		var w [3]string
		var t [3]*dataset.Transform
		for i, n := range []string{"d", "a", "b"} {
			t[i] = &dataset.Transform{}
			if v.Bool() {
				t[i].Resources = map[string]*dataset.TransformResource{"k": {Path: n}, n: {Path: n}}
				w[i] = n
			}
		}
		t[0].Assign(t[1], nil, t[2])
		v.Assert(res(t[0], "k") == last(w[0], w[1], w[2]), "resources")
		for _, x := range w {
			v.Assert(x == "" || res(t[0], x) == x, "resources keep other keys")
		}
		v.Assert(res(t[1], "k") == w[1] && res(t[2], "k") == w[2], "sources keep their resources")
		v.Assert(len(t[1].Resources) <= 2 && len(t[2].Resources) <= 2, "sources gain no resources")
	}
	v.Reach("maps")
}

func dsFields(t string) *dataset.Dataset {
	d := &dataset.Dataset{
		BodyPath:     u.Opt(t + "bodypath"),
		ID:           u.Opt(t + "id"),
		Name:         u.Opt(t + "name"),
		Path:         u.Opt(t + "path"),
		Peername:     u.Opt(t + "peername"),
		PreviousPath: u.Opt(t + "previous"),
		ProfileID:    u.Opt(t + "profile"),
		NumVersions:  u.OptInt(int(t[0])),
		Qri:          u.Opt(t + "qri"),
	}
	if v.Bool() {
		d.Body = t + "body"
	}
	bb := []byte(t + "bytes")
	if v.Bool() {
		d.BodyBytes = bb
	}
	if f := u.OptFile(t + "file"); f != nil {
		d.SetBodyFile(f)
	}
	return d
}

func body(d *dataset.Dataset) string {
	s, _ := d.Body.(string)
	return s
}

func dset(d, o, a, b *dataset.Dataset) {
	v.Assert(body(d) == last(body(o), body(a), body(b)), "body")
	v.Assert(string(d.BodyBytes) == last(string(o.BodyBytes), string(a.BodyBytes), string(b.BodyBytes)), "bodyBytes")
	v.Assert(d.BodyPath == last(o.BodyPath, a.BodyPath, b.BodyPath), "bodyPath")
	v.Assert(file(d.BodyFile()) == last(file(o.BodyFile()), file(a.BodyFile()), file(b.BodyFile())), "body file")
	v.Assert(d.ID == last(b.ID, a.ID, o.ID), "id is kept once set")
	v.Assert(d.Name == last(o.Name, a.Name, b.Name), "name")
	v.Assert(d.Path == last(o.Path, a.Path, b.Path), "path")
	v.Assert(d.Peername == last(o.Peername, a.Peername, b.Peername), "peername")
	v.Assert(d.PreviousPath == last(o.PreviousPath, a.PreviousPath, b.PreviousPath), "previousPath")
	v.Assert(d.ProfileID == last(o.ProfileID, a.ProfileID, b.ProfileID), "profileID")
	v.Assert(d.NumVersions == lastInt(o.NumVersions, a.NumVersions, b.NumVersions), "numVersions")
	v.Assert(d.Qri == last(o.Qri, a.Qri, b.Qri), "qri")
}

// H_C12_dataset: two sources and a nil one onto a dataset, every plain field of each set or not.
func H_C12_dataset() {
	v.Merge(3)
	d, a, b := dsFields("d"), dsFields("a"), dsFields("b")
	o, p, q := *d, *a, *b
	d.Assign(a, nil, b)
	dset(d, &o, &p, &q)
	dset(a, &p, &p, &p)
	dset(b, &q, &q, &q)
	v.Reach("dataset")
}

// H_C12_components: each component of a dataset present or absent in the target and in two sources, two fields each set or not; sources stay unchanged.
func H_C12_components() {
	k := v.Case(7)
	v.Merge(3)
	ts := []string{"d", "a", "b"}
	var ds [3]*dataset.Dataset
	var one, two [3]string
	var has bool
	for i, t := range ts {
		ds[i] = &dataset.Dataset{}
		if v.Pick(2) == 0 {
			continue
		}
		has = true
		one[i], two[i] = u.Opt(t+"one"), u.Opt(t+"two")
		set(ds[i], k, one[i], two[i])
	}
	ds[0].Assign(ds[1], nil, ds[2])
	p, q, ok := get(ds[0], k)
	v.Assert(ok == has, "component present when a side has it")
	v.Assert(p == last(one[0], one[1], one[2]), "first field of the component")
	v.Assert(q == last(two[0], two[1], two[2]), "second field of the component")
	for i := 1; i < 3; i++ {
		p, q, _ := get(ds[i], k)
		v.Assert(p == one[i] && q == two[i], "components of the sources stay unchanged")
	}
	v.Reach("components")
}

func set(d *dataset.Dataset, k int, one, two string) {
	switch k {
	case 0:
		d.Commit = &dataset.Commit{Title: one, Message: two}
	case 1:
		d.Meta = &dataset.Meta{Title: one, Description: two}
	case 2:
		d.Structure = &dataset.Structure{Format: one, Checksum: two}
	case 3:
		d.Transform = &dataset.Transform{Text: one, ScriptPath: two}
	case 4:
		d.Viz = &dataset.Viz{Text: one, ScriptPath: two}
	case 5:
		d.Readme = &dataset.Readme{Text: one, ScriptPath: two}
	case 6:
		d.Stats = &dataset.Stats{Path: one, Qri: two}
	}
}

func get(d *dataset.Dataset, k int) (one, two string, ok bool) {
	switch k {
	case 0:
		if d.Commit != nil {
			return d.Commit.Title, d.Commit.Message, true
		}
	case 1:
		if d.Meta != nil {
			return d.Meta.Title, d.Meta.Description, true
		}
	case 2:
		if d.Structure != nil {
			return d.Structure.Format, d.Structure.Checksum, true
		}
	case 3:
		if d.Transform != nil {
			return d.Transform.Text, d.Transform.ScriptPath, true
		}
	case 4:
		if d.Viz != nil {
			return d.Viz.Text, d.Viz.ScriptPath, true
		}
	case 5:
		if d.Readme != nil {
			return d.Readme.Text, d.Readme.ScriptPath, true
		}
	case 6:
		if d.Stats != nil {
			return d.Stats.Path, d.Stats.Qri, true
		}
	}
	return "", "", false
}

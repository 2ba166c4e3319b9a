// Package c14 checks emptiness, dropping of values and comparison of dataset components.
package c14

import (
	"github.com/qri-io/dataset"
	"verifh/u"
	"verifh/v"
)

// H_C14_commit: every field set or not.
func H_C14_commit() {
	v.Merge(3)
	u.Times = true
	c := u.Commit("c")
	o := *c
	set := c.Author != nil || c.Message != "" || c.Signature != "" || !c.Timestamp.IsZero() || c.Title != "" || c.RunID != ""
	v.Assert(c.IsEmpty() == !set, "commit is empty exactly when no content is set")
	if v.Bool() {
		c.DropTransientValues()
		o.Path = ""
	} else {
		c.DropDerivedValues()
		o.Path, o.Qri = "", ""
	}
	v.Assert(*c == o, "commit drops exactly its derived or transient values")
	v.Reach("commit")
}

// H_C14_meta: every field set or not, additional metadata or not.
func H_C14_meta() {
	extra := v.Pick(3)
	v.Merge(3)
	m := u.Meta("m")
	set := m.AccessURL != "" || m.AccrualPeriodicity != "" || m.Citations != nil || m.Contributors != nil || m.Description != "" ||
		m.DownloadURL != "" || m.HomeURL != "" || m.Identifier != "" || m.Keywords != nil || m.Language != nil || m.License != nil ||
		m.ReadmeURL != "" || m.Title != "" || m.Theme != nil || m.Version != ""
	switch extra {
	case 1:
		v.Assert(m.Set("extra", "x") == nil, "extra keys are accepted")
		set = true
	case 2:
		m.Meta()
	}
	v.Assert(m.IsEmpty() == !set, "meta is empty exactly when no content is set")
	o := *m
	if v.Bool() {
		m.DropTransientValues()
		o.Path = ""
	} else {
		m.DropDerivedValues()
		o.Path, o.Qri = "", ""
	}
	v.Assert(m.AccessURL == o.AccessURL && m.AccrualPeriodicity == o.AccrualPeriodicity && m.Description == o.Description &&
		m.DownloadURL == o.DownloadURL && m.HomeURL == o.HomeURL && m.Identifier == o.Identifier && m.ReadmeURL == o.ReadmeURL &&
		m.Title == o.Title && m.Version == o.Version && m.License == o.License && m.Path == o.Path && m.Qri == o.Qri, "meta drops exactly its derived or transient values")
	v.Assert(len(m.Citations) == len(o.Citations) && len(m.Contributors) == len(o.Contributors) && len(m.Keywords) == len(o.Keywords) &&
		len(m.Language) == len(o.Language) && len(m.Theme) == len(o.Theme), "meta keeps its lists")
	v.Assert((m.Meta()["extra"] != nil) == (extra == 1), "meta keeps additional metadata")
	v.Reach("meta")
}

// H_C14_structure: every field set or not.
func H_C14_structure() {
	v.Merge(3)
	s := u.Structure("s")
	o := *s
	set := s.Checksum != "" || s.Compression != "" || s.Depth != 0 || s.Encoding != "" || s.Entries != 0 || s.ErrCount != 0 ||
		s.Format != "" || s.FormatConfig != nil || s.Length != 0 || s.Schema != nil || s.Strict
	v.Assert(s.IsEmpty() == !set, "structure is empty exactly when no content is set")
	if v.Bool() {
		s.DropTransientValues()
		o.Path = ""
	} else {
		s.DropDerivedValues()
		o.Checksum, o.Depth, o.ErrCount, o.Entries, o.Length, o.Path, o.Qri = "", 0, 0, 0, 0, "", ""
	}
	v.Assert(s.Checksum == o.Checksum && s.Compression == o.Compression && s.Depth == o.Depth && s.Encoding == o.Encoding && s.ErrCount == o.ErrCount &&
		s.Entries == o.Entries && s.Format == o.Format && len(s.FormatConfig) == len(o.FormatConfig) && s.Length == o.Length && s.Path == o.Path &&
		s.Qri == o.Qri && len(s.Schema) == len(o.Schema) && s.Strict == o.Strict, "structure drops exactly its derived or transient values")
	v.Reach("structure")
}

// H_C14_transform: every field set or not.
func H_C14_transform() {
	v.Merge(3)
	q := u.Transform("q", true)
	o := *q
	set := q.Config != nil || q.Resources != nil || q.Text != "" || q.ScriptPath != "" || q.Secrets != nil || q.Steps != nil ||
		q.Syntax != "" || q.SyntaxVersion != "" || q.Syntaxes != nil
	v.Assert(q.IsEmpty() == !set, "transform is empty exactly when no content is set")
	if v.Bool() {
		q.DropTransientValues()
		o.Path, o.Secrets, o.Text = "", nil, ""
	} else {
		q.DropDerivedValues()
		o.Path, o.Qri = "", ""
	}
	v.Assert(len(q.Config) == len(o.Config) && len(q.Resources) == len(o.Resources) && q.Text == o.Text && q.ScriptPath == o.ScriptPath &&
		len(q.Secrets) == len(o.Secrets) && len(q.Steps) == len(o.Steps) && q.Syntax == o.Syntax && q.SyntaxVersion == o.SyntaxVersion &&
		len(q.Syntaxes) == len(o.Syntaxes) && q.Path == o.Path && q.Qri == o.Qri, "transform drops exactly its derived or transient values")
	v.Reach("transform")
}

// H_C14_viz: every field set or not.
func H_C14_viz() {
	v.Merge(3)
	z := u.Viz("z")
	o := *z
	set := z.Format != "" || z.Text != "" || z.ScriptPath != "" || z.RenderedPath != ""
	v.Assert(z.IsEmpty() == !set, "viz is empty exactly when no content is set")
	if v.Bool() {
		z.DropTransientValues()
		o.Path, o.Text = "", ""
	} else {
		z.DropDerivedValues()
		o.Path, o.Qri = "", ""
	}
	v.Assert(*z == o, "viz drops exactly its derived or transient values")
	v.Reach("viz")
}

// H_C14_readme: every field set or not.
func H_C14_readme() {
	v.Merge(3)
	z := u.Readme("z")
	o := *z
	set := z.Format != "" || z.Text != "" || z.ScriptPath != "" || z.RenderedPath != ""
	v.Assert(z.IsEmpty() == !set, "readme is empty exactly when no content is set")
	if v.Bool() {
		z.DropTransientValues()
		o.Path, o.Text = "", ""
	} else {
		z.DropDerivedValues()
		o.Path, o.Qri = "", ""
	}
	v.Assert(*z == o, "readme drops exactly its derived or transient values")
	v.Reach("readme")
}

// H_C14_stats: every field set or not.
func H_C14_stats() {
	v.Merge(3)
	s := u.Stats("s")
	o := *s
	v.Assert(s.IsEmpty() == (s.Stats == nil), "stats are empty exactly when no content is set")
	s.DropDerivedValues()
	v.Assert(s.Path == "" && s.Qri == "", "stats drop their derived values")
	v.Assert((s.Stats == nil) == (o.Stats == nil), "stats keep their content")
	v.Reach("stats")
}

// H_C14_dataset: every plain field set or not, each component present or not.
func H_C14_dataset() {
	v.Merge(3)
	d := &dataset.Dataset{
		BodyPath:     u.Opt("bodypath"),
		ID:           u.Opt("id"),
		Name:         u.Opt("name"),
		Path:         u.Opt("path"),
		Peername:     u.Opt("peername"),
		PreviousPath: u.Opt("previous"),
		ProfileID:    u.Opt("profile"),
		NumVersions:  u.OptInt(3),
		Qri:          u.Opt("qri"),
	}
	if v.Bool() {
		d.Body = "body"
	}
	bb := []byte("bytes")
	if v.Bool() {
		d.BodyBytes = bb
	}
	cm, md, st, tf, vz, rm, sa := &dataset.Commit{Path: "p", Qri: "q", Title: "t"}, &dataset.Meta{Path: "p", Qri: "q", Title: "t"}, &dataset.Structure{Path: "p", Qri: "q", Format: "t", Length: 7},
		&dataset.Transform{Path: "p", Qri: "q", Text: "t"}, &dataset.Viz{Path: "p", Qri: "q", Text: "t"}, &dataset.Readme{Path: "p", Qri: "q", Text: "t"}, &dataset.Stats{Path: "p", Qri: "q", Stats: "t"}
	if v.Bool() {
		d.Commit = cm
	}
	if v.Bool() {
		d.Meta = md
	}
	if v.Bool() {
		d.Structure = st
	}
	if v.Bool() {
		d.Transform = tf
	}
	if v.Bool() {
		d.Viz = vz
	}
	if v.Bool() {
		d.Readme = rm
	}
	if v.Bool() {
		d.Stats = sa
	}
	set := d.Body != nil || d.BodyBytes != nil || d.BodyPath != "" || d.ID != "" || d.Name != "" || d.Peername != "" || d.PreviousPath != "" ||
		d.ProfileID != "" || d.NumVersions != 0 || d.Commit != nil || d.Meta != nil || d.Structure != nil || d.Transform != nil || d.Viz != nil || d.Readme != nil || d.Stats != nil
	v.Assert(d.IsEmpty() == !set, "dataset is empty exactly when no content is set")
	o := *d
	if v.Pick(2) == 1 {
		d.DropTransientValues()
		v.Assert(d.Body == nil && d.BodyBytes == nil && d.Name == "" && d.Peername == "" && d.Path == "" && d.ProfileID == "" && d.NumVersions == 0, "dataset drops its transient values")
		v.Assert(d.BodyPath == o.BodyPath && d.ID == o.ID && d.PreviousPath == o.PreviousPath && d.Qri == o.Qri, "dataset keeps other values")
		v.Assert(d.Commit == o.Commit && d.Meta == o.Meta && d.Structure == o.Structure && d.Transform == o.Transform && d.Viz == o.Viz && d.Readme == o.Readme && d.Stats == o.Stats, "dataset keeps its components")
		v.Assert(cm.Path == "p" && md.Path == "p" && st.Path == "p" && tf.Path == "p" && vz.Path == "p" && rm.Path == "p" && sa.Path == "p", "components keep their values")
		v.Reach("transient")
		return
	}
	d.DropDerivedValues()
	v.Assert(d.Qri == "" && d.Path == "", "dataset drops its derived values")
	v.Assert((d.Body == nil) == (o.Body == nil) && len(d.BodyBytes) == len(o.BodyBytes) && d.Name == o.Name && d.Peername == o.Peername && d.ProfileID == o.ProfileID &&
		d.NumVersions == o.NumVersions && d.BodyPath == o.BodyPath && d.ID == o.ID && d.PreviousPath == o.PreviousPath, "dataset keeps other values")
	v.Assert(d.Commit == o.Commit && d.Meta == o.Meta && d.Structure == o.Structure && d.Transform == o.Transform && d.Viz == o.Viz && d.Readme == o.Readme && d.Stats == o.Stats, "dataset keeps its components")
	if d.Commit != nil {
		v.Assert(cm.Path == "" && cm.Qri == "" && cm.Title == "t", "commit drops derived values")
	}
	if d.Meta != nil {
		v.Assert(md.Path == "" && md.Qri == "" && md.Title == "t", "meta drops derived values")
	}
	if d.Structure != nil {
		v.Assert(st.Path == "" && st.Qri == "" && st.Format == "t" && st.Length == 0, "structure drops derived values")
	}
	if d.Transform != nil {
		v.Assert(tf.Path == "" && tf.Qri == "" && tf.Text == "t", "transform drops derived values")
	}
	if d.Viz != nil {
		v.Assert(vz.Path == "" && vz.Qri == "" && vz.Text == "t", "viz drops derived values")
	}
	if d.Readme != nil {
		v.Assert(rm.Path == "" && rm.Qri == "" && rm.Text == "t", "readme drops derived values")
	}
	if d.Stats != nil {
		v.Assert(sa.Path == "" && sa.Qri == "" && sa.Stats != nil, "stats drop derived values")
	}
	v.Reach("derived")
}

func text() string { return v.String(1) }

// H_C14_compare_viz: every pair of visualisations with arbitrary one-byte fields.
func H_C14_compare_viz() {
	v.Merge(3)
	a := &dataset.Viz{Format: text(), Path: text(), Qri: text(), ScriptPath: text(), Text: text(), RenderedPath: text()}
	b := &dataset.Viz{Format: text(), Path: text(), Qri: text(), ScriptPath: text(), Text: text(), RenderedPath: text()}
	same := a.Format == b.Format && a.Qri == b.Qri && a.ScriptPath == b.ScriptPath && a.Text == b.Text && a.RenderedPath == b.RenderedPath
	v.Assert(a.ShallowCompare(b) == same, "viz comparison covers every field but the path")
	v.Assert(b.ShallowCompare(a) == same, "viz comparison is symmetric")
	var n *dataset.Viz
	v.Assert(n.ShallowCompare(nil) && !n.ShallowCompare(a) && !a.ShallowCompare(nil), "absent viz equals only absent viz")
	v.Reach("viz")
}

// H_C14_compare_readme: every pair of readmes with arbitrary one-byte fields.
func H_C14_compare_readme() {
	v.Merge(3)
	a := &dataset.Readme{Format: text(), Path: text(), Qri: text(), ScriptPath: text(), Text: text(), RenderedPath: text()}
	b := &dataset.Readme{Format: text(), Path: text(), Qri: text(), ScriptPath: text(), Text: text(), RenderedPath: text()}
	same := a.Format == b.Format && a.Qri == b.Qri && a.ScriptPath == b.ScriptPath && a.Text == b.Text && a.RenderedPath == b.RenderedPath
	v.Assert(a.ShallowCompare(b) == same, "readme comparison covers every field but the path")
	v.Assert(b.ShallowCompare(a) == same, "readme comparison is symmetric")
	var n *dataset.Readme
	v.Assert(n.ShallowCompare(nil) && !n.ShallowCompare(a) && !a.ShallowCompare(nil), "absent readme equals only absent readme")
	v.Reach("readme")
}

func tf() *dataset.Transform {
	return &dataset.Transform{
		Config:        map[string]interface{}{"k": text()},
		Path:          text(),
		Qri:           text(),
		Resources:     map[string]*dataset.TransformResource{"r": {Path: text()}},
		ScriptPath:    text(),
		Text:          text(),
		Secrets:       map[string]string{"s": text()},
		Steps:         []*dataset.TransformStep{{Name: text(), Script: text()}},
		Syntax:        text(),
		SyntaxVersion: text(),
		Syntaxes:      map[string]string{"x": text()},
	}
}

// H_C14_compare_transform: every pair of transforms with arbitrary one-byte fields and keyed values.
func H_C14_compare_transform() {
	v.Merge(3)
	a, b := tf(), tf()
	same := a.Config["k"].(string) == b.Config["k"].(string) && a.Qri == b.Qri && a.Resources["r"].Path == b.Resources["r"].Path && a.ScriptPath == b.ScriptPath && a.Text == b.Text &&
		a.Secrets["s"] == b.Secrets["s"] && a.Steps[0].Name == b.Steps[0].Name && a.Steps[0].Script.(string) == b.Steps[0].Script.(string) &&
		a.Syntax == b.Syntax && a.SyntaxVersion == b.SyntaxVersion && a.Syntaxes["x"] == b.Syntaxes["x"]
	v.Assert(a.ShallowCompare(b) == same, "transform comparison covers every field but the path")
	v.Assert(b.ShallowCompare(a) == same, "transform comparison is symmetric")
	var n *dataset.Transform
	v.Assert(n.ShallowCompare(nil) && !n.ShallowCompare(a) && !a.ShallowCompare(nil), "absent transform equals only absent transform")
	v.Reach("transform")
}

// H_C14_compare_keyed: keyed fields present on one side only make transforms differ.
func H_C14_compare_keyed() {
	a, b := &dataset.Transform{}, &dataset.Transform{}
	switch v.Case(5) {
	case 0:
		a.Config = map[string]interface{}{text(): 1}
	case 1:
		a.Resources = map[string]*dataset.TransformResource{text(): {}}
	case 2:
		a.Secrets = map[string]string{text(): ""}
	case 3:
		a.Steps = []*dataset.TransformStep{{}}
	case 4:
		a.Syntaxes = map[string]string{text(): ""}
	}
	v.Assert(!a.ShallowCompare(b) && !b.ShallowCompare(a), "a field set on one side only makes transforms differ")
	v.Assert(a.ShallowCompare(a) && b.ShallowCompare(b), "a transform equals itself")
	v.Reach("keyed")
}

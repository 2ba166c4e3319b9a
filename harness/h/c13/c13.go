// Package c13 checks the JSON encoding of dataset components.
package c13

import (
	"encoding/json"
	"strings"

	"github.com/qri-io/dataset"
	"verifh/u"
	"verifh/v"
)

// mask chooses which of n fields are set: none, all, one alone (holding arbitrary text),
// all but one, and in the thorough tier every pair.
type mask struct {
	on  []bool
	sym int // index of the field with arbitrary text, or -1
}

func choose(n int) mask {
	m := mask{on: make([]bool, n), sym: -1}
	k := v.Case(2*n + 2)
	switch {
	case k == 0:
	case k == 1:
		for i := range m.on {
			m.on[i] = true
		}
	case k < n+2:
		m.on[k-2] = true
		m.sym = k - 2
		if v.Bound(0, 1) == 1 {
			m.on[v.Pick(n)] = true
		}
	default:
		for i := range m.on {
			m.on[i] = i != k-n-2
		}
	}
	return m
}

// str is the value of field i: unset, arbitrary text of 1 (2) bytes, or fixed text.
func (m mask) str(i int, s string) string {
	if !m.on[i] {
		return ""
	}
	if i == m.sym {
		return u.Text(v.Bound(1, 2))
	}
	return s
}

func (m mask) num(i, x int) int {
	if !m.on[i] {
		return 0
	}
	if i == m.sym {
		return []int{1, -1, 1 << 53, -1 << 62}[v.Pick(4)]
	}
	return x
}

func (m mask) list(i int, s string) []string {
	if !m.on[i] {
		return nil
	}
	return []string{m.str(i, s), "x"}
}

func (m mask) dict(i int, s string) map[string]interface{} {
	if !m.on[i] {
		return nil
	}
	return map[string]interface{}{"a": m.str(i, s), "b": []interface{}{true, nil, 1.5}}
}

func (m mask) strs(i int, s string) map[string]string {
	if !m.on[i] {
		return nil
	}
	return map[string]string{"a": m.str(i, s), "b": ""}
}

func eqList(a, b []string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqDict(a, b map[string]interface{}) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return len(a) == 0 && len(b) == 0 || u.EqVal(a, b)
}

func eqStrs(a, b map[string]string) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || x != y {
			return false
		}
	}
	return true
}

// qri: an unset kind may be filled in by encoding, a set one is kept.
func qri(want, got, kind string) bool { return got == want || want == "" && got == kind }

// kind is unset or set.
func kind() string { return []string{"", "zz:1"}[v.Pick(2)] }

// isRef reports whether data is the JSON string of path.
func isRef(data []byte, path string) bool {
	var s string
	return json.Unmarshal(data, &s) == nil && s == path
}

func roundtrip(x, y interface{}) []byte {
	data, err := json.Marshal(x)
	v.Assert(err == nil, "component encodes")
	v.Assert(json.Unmarshal(data, y) == nil, "encoding decodes")
	return data
}

// H_C13_commit: no field, all, each alone with arbitrary text, all but each.
func H_C13_commit() {
	m := choose(7)
	a := dataset.Commit{Message: m.str(0, "msg"), Signature: m.str(1, "sig"), Title: m.str(2, "title"), RunID: m.str(3, "run"), Path: m.str(4, "path")}
	if m.on[5] {
		a.Author = &dataset.User{ID: m.str(5, "id"), Fullname: "n", Email: "e"}
	}
	if m.on[6] {
		a.Timestamp = u.AnyTime()
		v.Assume(a.Timestamp.Year() > 0)
	}
	a.Qri = kind()
	b := a
	var c dataset.Commit
	data := roundtrip(&a, &c)
	v.Assert(c.Message == b.Message && c.Signature == b.Signature && c.Title == b.Title && c.RunID == b.RunID, "commit text fields survive")
	v.Assert(c.Path == b.Path, "commit path survives")
	v.Assert((c.Author == nil) == (b.Author == nil), "author survives")
	if b.Author != nil {
		v.Assert(*c.Author == *b.Author, "author fields survive")
	}
	v.Assert(c.Timestamp.Equal(b.Timestamp), "timestamp survives")
	v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "a commit is encoded as a reference exactly when it only has a path")
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindCommit.String()), "kind survives or is filled in")
	}
	v.Reach("commit")
}

// H_C13_meta: no field, all, each alone with arbitrary text, all but each, and additional keys.
func H_C13_meta() {
	m := choose(17)
	a := dataset.Meta{AccessURL: m.str(0, "access"), AccrualPeriodicity: m.str(1, "R/P1W"), Description: m.str(2, "d"), DownloadURL: m.str(3, "dl"), HomeURL: m.str(4, "home"),
		Identifier: m.str(5, "ident"), Keywords: m.list(6, "kw"), Language: m.list(7, "lang"), ReadmeURL: m.str(8, "readme"), Title: m.str(9, "title"), Theme: m.list(10, "theme"), Version: m.str(11, "v")}
	if m.on[12] {
		a.Citations = []*dataset.Citation{{Name: m.str(12, "n"), URL: "u", Email: "e"}}
	}
	if m.on[13] {
		a.Contributors = []*dataset.User{{ID: m.str(13, "i"), Fullname: "n", Email: "e"}}
	}
	if m.on[14] {
		a.License = &dataset.License{Type: m.str(14, "t"), URL: "u"}
	}
	extra := map[string]interface{}{}
	if m.on[15] {
		extra["extra"] = m.str(15, "x")
		a.SetArbitrary("extra", extra["extra"])
	}
	if m.on[16] {
		for _, k := range []string{"data", "image", "keyword", "length", "timestamp", "Other"} {
			extra[k] = k + "!"
			a.SetArbitrary(k, k+"!")
		}
	}
	b := a
	var c dataset.Meta
	roundtrip(&a, &c)
	v.Assert(c.AccessURL == b.AccessURL && c.AccrualPeriodicity == b.AccrualPeriodicity && c.Description == b.Description && c.DownloadURL == b.DownloadURL &&
		c.HomeURL == b.HomeURL && c.Identifier == b.Identifier && c.ReadmeURL == b.ReadmeURL && c.Title == b.Title && c.Version == b.Version, "meta text fields survive")
	v.Assert(eqList(c.Keywords, b.Keywords) && eqList(c.Language, b.Language) && eqList(c.Theme, b.Theme), "meta lists survive")
	v.Assert(len(c.Citations) == len(b.Citations) && len(c.Contributors) == len(b.Contributors) && (c.License == nil) == (b.License == nil), "meta structured fields survive")
	if b.Citations != nil {
		v.Assert(*c.Citations[0] == *b.Citations[0], "citation survives")
	}
	if b.Contributors != nil {
		v.Assert(*c.Contributors[0] == *b.Contributors[0], "contributor survives")
	}
	if b.License != nil {
		v.Assert(*c.License == *b.License, "license survives")
	}
	v.Assert(u.EqVal(c.Meta(), extra), "additional metadata survives, and nothing is added to it")
	v.Reach("meta")
}

// H_C13_structure: no field, all, each alone with arbitrary text, all but each.
func H_C13_structure() {
	m := choose(12)
	a := dataset.Structure{Checksum: m.str(0, "sum"), Compression: m.str(1, "gzip"), Depth: m.num(2, 2), Encoding: m.str(3, "utf-8"), ErrCount: m.num(4, 3), Entries: m.num(5, 4),
		Format: m.str(6, "csv"), FormatConfig: m.dict(7, "x"), Length: m.num(8, 5), Schema: m.dict(9, "y"), Strict: m.on[10], Path: m.str(11, "path")}
	a.Qri = kind()
	b := a
	var c dataset.Structure
	data := roundtrip(&a, &c)
	v.Assert(c.Checksum == b.Checksum && c.Compression == b.Compression && c.Encoding == b.Encoding && c.Format == b.Format, "structure text fields survive")
	v.Assert(c.Depth == b.Depth && c.ErrCount == b.ErrCount && c.Entries == b.Entries && c.Length == b.Length, "structure counts survive")
	v.Assert(c.Strict == b.Strict, "strict survives")
	v.Assert(c.Path == b.Path, "structure path survives")
	v.Assert(eqDict(c.FormatConfig, b.FormatConfig), "format configuration survives")
	v.Assert(eqDict(c.Schema, b.Schema), "schema survives")
	v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "a structure is encoded as a reference exactly when it only has a path")
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindStructure.String()), "kind survives or is filled in")
	}
	v.Reach("structure")
}

const secret = "s3cr3t~value"

// H_C13_transform: no field, all, each alone with arbitrary text, all but each; secrets never appear.
func H_C13_transform() {
	m := choose(9)
	a := dataset.Transform{Config: m.dict(0, "cfg"), ScriptPath: m.str(1, "script"), Text: m.str(2, "text"), Syntax: m.str(3, "star"), SyntaxVersion: m.str(4, "1"), Syntaxes: m.strs(5, "x"), Path: m.str(6, "path")}
	if m.on[7] {
		a.Resources = map[string]*dataset.TransformResource{"r": {Path: m.str(7, "res")}}
	}
	if m.on[8] {
		a.Steps = []*dataset.TransformStep{{Name: m.str(8, "n"), Path: "p", Syntax: "s", Category: "c", Script: "t"}, {}}
	}
	a.Qri = kind()
	b := a
	a.Secrets = map[string]string{secret + "k": secret}
	if v.Pick(2) == 1 {
		a.Secrets = nil
	}
	var c dataset.Transform
	data := roundtrip(&a, &c)
	v.Assert(!strings.Contains(string(data), secret), "secrets are not encoded")
	v.Assert(c.Secrets == nil, "no secrets are decoded")
	v.Assert(c.ScriptPath == b.ScriptPath && c.Text == b.Text && c.Syntax == b.Syntax && c.SyntaxVersion == b.SyntaxVersion && c.Path == b.Path, "transform text fields survive")
	v.Assert(eqDict(c.Config, b.Config), "configuration survives")
	v.Assert(eqStrs(c.Syntaxes, b.Syntaxes), "syntaxes survive")
	v.Assert(len(c.Resources) == len(b.Resources) && len(c.Steps) == len(b.Steps), "resources and steps survive")
	if b.Resources != nil {
		v.Assert(c.Resources["r"] != nil && c.Resources["r"].Path == b.Resources["r"].Path, "resource survives")
	}
	for i := range b.Steps {
		x, y := b.Steps[i], c.Steps[i]
		v.Assert(x.Name == y.Name && x.Path == y.Path && x.Syntax == y.Syntax && x.Category == y.Category && u.EqVal(x.Script, y.Script), "step survives")
	}
	if a.Secrets == nil {
		v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "a transform is encoded as a reference exactly when it only has a path")
	}
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindTransform.String()), "kind survives or is filled in")
	}
	v.Reach("transform")
}

// H_C13_viz: no field, all, each alone with arbitrary text, all but each; open files never appear.
func H_C13_viz() {
	m := choose(5)
	a := dataset.Viz{Format: m.str(0, "html"), ScriptPath: m.str(1, "sp"), Text: m.str(2, "text"), RenderedPath: m.str(3, "rp"), Path: m.str(4, "path")}
	a.Qri = kind()
	b := a
	if v.Pick(2) == 1 {
		a.SetScriptFile(u.File(secret))
		a.SetRenderedFile(u.File(secret))
	}
	var c dataset.Viz
	data := roundtrip(&a, &c)
	v.Assert(!strings.Contains(string(data), secret), "open files are not encoded")
	v.Assert(c.Format == b.Format && c.ScriptPath == b.ScriptPath && c.Text == b.Text && c.RenderedPath == b.RenderedPath, "viz fields survive")
	v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "a viz is encoded as a reference exactly when it only has a path")
	if b.IsEmpty() {
		v.Assert(c.Path == b.Path, "the reference path survives")
	}
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindViz.String()), "kind survives or is filled in")
	}
	v.Reach("viz")
}

// H_C13_readme: no field, all, each alone with arbitrary text, all but each; open files never appear.
func H_C13_readme() {
	m := choose(5)
	a := dataset.Readme{Format: m.str(0, "html"), ScriptPath: m.str(1, "sp"), Text: m.str(2, "text"), RenderedPath: m.str(3, "rp"), Path: m.str(4, "path")}
	a.Qri = kind()
	b := a
	if v.Pick(2) == 1 {
		a.SetScriptFile(u.File(secret))
		a.SetRenderedFile(u.File(secret))
	}
	var c dataset.Readme
	data := roundtrip(&a, &c)
	v.Assert(!strings.Contains(string(data), secret), "open files are not encoded")
	v.Assert(c.Format == b.Format && c.ScriptPath == b.ScriptPath && c.Text == b.Text && c.RenderedPath == b.RenderedPath, "readme fields survive")
	v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "a readme is encoded as a reference exactly when it only has a path")
	if b.IsEmpty() {
		v.Assert(c.Path == b.Path, "the reference path survives")
	}
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindReadme.String()), "kind survives or is filled in")
	}
	v.Reach("readme")
}

// H_C13_stats: every field set or not.
func H_C13_stats() {
	m := choose(2)
	a := dataset.Stats{Path: m.str(0, "path")}
	if m.on[1] {
		a.Stats = []interface{}{map[string]interface{}{"a": m.str(1, "x"), "min": 1.5}}
	}
	a.Qri = kind()
	b := a
	var c dataset.Stats
	data := roundtrip(&a, &c)
	v.Assert(c.Path == b.Path, "stats path survives")
	v.Assert(u.EqVal(c.Stats, b.Stats), "stats survive")
	v.Assert(isRef(data, b.Path) == (b.Path != "" && b.IsEmpty()), "stats are encoded as a reference exactly when they only have a path")
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindStats.String()), "kind survives or is filled in")
	}
	v.Reach("stats")
}

// H_C13_ref: every component holding only a path of 1..2 (3) bytes encodes as that path and decodes to a reference.
func H_C13_ref() {
	k := v.Case(8)
	p := u.Text(1 + v.Pick(v.Bound(2, 3)))
	var x interface{}
	var got func() (string, bool)
	switch k {
	case 0:
		var y dataset.Commit
		x = dataset.NewCommitRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 1:
		var y dataset.Meta
		x = dataset.NewMetaRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 2:
		var y dataset.Structure
		x = dataset.NewStructureRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 3:
		var y dataset.Transform
		x = dataset.NewTransformRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 4:
		var y dataset.Viz
		x = dataset.NewVizRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 5:
		var y dataset.Readme
		x = dataset.NewReadmeRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 6:
		var y dataset.Stats
		x = dataset.NewStatsRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	case 7:
		var y dataset.Dataset
		x = dataset.NewDatasetRef(p)
		data := roundtrip(x, &y)
		got = func() (string, bool) { return y.Path, y.IsEmpty() && isRef(data, p) }
	}
	path, ok := got()
	v.Assert(path == p, "the path of a reference survives")
	v.Assert(ok, "a reference encodes as its path and decodes to a reference")
	v.Reach("ref")
}

// H_C13_dataset: no field, all, each alone with arbitrary text, all but each, with components as references or with content.
func H_C13_dataset() {
	m := choose(18)
	a := dataset.Dataset{BodyPath: m.str(0, "bp"), ID: m.str(1, "id"), Name: m.str(2, "name"), Path: m.str(3, "path"), Peername: m.str(4, "peer"), PreviousPath: m.str(5, "prev"), ProfileID: m.str(6, "prof"), NumVersions: m.num(7, 3)}
	if m.on[8] {
		a.Body = []interface{}{m.str(8, "b"), nil, true}
	}
	if m.on[9] {
		a.BodyBytes = []byte("raw bytes\x00\xff")
	}
	if m.on[10] {
		a.Commit = &dataset.Commit{Title: m.str(10, "t"), Timestamp: u.Time("d")}
	}
	if m.on[11] {
		a.Meta = &dataset.Meta{Title: m.str(11, "t")}
	}
	if m.on[12] {
		a.Structure = &dataset.Structure{Format: m.str(12, "csv")}
	}
	if m.on[13] {
		a.Transform = &dataset.Transform{Text: m.str(13, "t"), Secrets: map[string]string{"k": secret}}
	}
	if m.on[14] {
		a.Viz = &dataset.Viz{Text: m.str(14, "t")}
	}
	if m.on[15] {
		a.Readme = &dataset.Readme{Text: m.str(15, "t")}
	}
	if m.on[16] {
		a.Stats = &dataset.Stats{Stats: m.str(16, "t")}
	}
	if m.on[17] {
		a.SetBodyFile(u.File(secret))
	}
	a.Qri = kind()
	b := a
	var c dataset.Dataset
	data := roundtrip(&a, &c)
	v.Assert(!strings.Contains(string(data), secret), "secrets and open files are not encoded")
	v.Assert(c.BodyPath == b.BodyPath && c.ID == b.ID && c.Name == b.Name && c.Path == b.Path && c.Peername == b.Peername && c.PreviousPath == b.PreviousPath && c.ProfileID == b.ProfileID && c.NumVersions == b.NumVersions, "dataset fields survive")
	v.Assert(u.EqVal(c.Body, b.Body), "inline body survives")
	v.Assert(string(c.BodyBytes) == string(b.BodyBytes), "body bytes survive")
	v.Assert((c.Commit == nil) == (b.Commit == nil) && (c.Meta == nil) == (b.Meta == nil) && (c.Structure == nil) == (b.Structure == nil) && (c.Transform == nil) == (b.Transform == nil) &&
		(c.Viz == nil) == (b.Viz == nil) && (c.Readme == nil) == (b.Readme == nil) && (c.Stats == nil) == (b.Stats == nil), "components survive")
	if b.Commit != nil {
		v.Assert(c.Commit.Title == b.Commit.Title && c.Commit.Timestamp.Equal(b.Commit.Timestamp), "commit survives")
	}
	if b.Meta != nil {
		v.Assert(c.Meta.Title == b.Meta.Title, "meta survives")
	}
	if b.Structure != nil {
		v.Assert(c.Structure.Format == b.Structure.Format, "structure survives")
	}
	if b.Transform != nil {
		v.Assert(c.Transform.Text == b.Transform.Text && c.Transform.Secrets == nil, "transform survives")
	}
	if b.Viz != nil {
		v.Assert(c.Viz.Text == b.Viz.Text, "viz survives")
	}
	if b.Readme != nil {
		v.Assert(c.Readme.Text == b.Readme.Text, "readme survives")
	}
	if b.Stats != nil {
		v.Assert(u.EqVal(c.Stats.Stats, b.Stats.Stats), "stats survive")
	}
	if b.Path == "" || !b.IsEmpty() {
		v.Assert(qri(b.Qri, c.Qri, dataset.KindDataset.String()), "kind survives or is filled in")
	}
	v.Reach("dataset")
}

// H_C13_object: references (a path of 1..2 bytes) and components holding one arbitrary text always marshal to an object of their kind when asked to, with that text.
func H_C13_object() {
	k := v.Case(6)
	s := u.Text(1 + v.Pick(2))
	ref := v.Bool()
	var data []byte
	var err error
	key := "text"
	switch k {
	case 0:
		x := dataset.NewCommitRef(s)
		if !ref {
			x, key = &dataset.Commit{Title: s}, "title"
		}
		data, err = x.MarshalJSONObject()
	case 1:
		x := dataset.NewMetaRef(s)
		if !ref {
			x, key = &dataset.Meta{Title: s}, "title"
		}
		data, err = x.MarshalJSONObject()
	case 2:
		x := dataset.NewTransformRef(s)
		if !ref {
			x = &dataset.Transform{Text: s}
		}
		data, err = x.MarshalJSONObject()
	case 3:
		x := dataset.NewVizRef(s)
		if !ref {
			x = &dataset.Viz{Text: s}
		}
		data, err = x.MarshalJSONObject()
	case 4:
		x := dataset.NewReadmeRef(s)
		if !ref {
			x = &dataset.Readme{Text: s}
		}
		data, err = x.MarshalJSONObject()
	case 5:
		x := dataset.NewStatsRef(s)
		if !ref {
			x, key = &dataset.Stats{Stats: s}, "stats"
		}
		data, err = x.MarshalJSONObject()
	}
	v.Assert(err == nil, "a component marshals to an object")
	m := map[string]interface{}{}
	v.Assert(json.Unmarshal(data, &m) == nil, "a component marshals to an object")
	if !ref {
		v.Assert(u.EqVal(m[key], s), "an object holds the component's content")
		v.Reach("content")
	}
	v.Reach("object")
}

// H_C13_unmarshal: every component's unmarshaling helper gives back a component given by pointer or value, decodes an encoding of it, and rejects anything else and arbitrary text of 1..2 bytes that is no JSON.
func H_C13_unmarshal() {
	k := v.Case(6)
	how := v.Pick(6)
	t := u.Text(1)
	bad := v.String(1 + v.Pick(2))
	for i := 0; i < len(bad); i++ {
		v.Assume(bad[i] >= 'A' && bad[i] <= 'z')
	}
	other := []interface{}{nil, 1, "a", map[string]interface{}{}, json.RawMessage("{}")}[v.Pick(5)]
	arg := func(ptr, val interface{}) interface{} {
		switch how {
		case 0:
			return ptr
		case 1:
			return val
		case 2:
			data, err := json.Marshal(ptr)
			v.Assert(err == nil, "component encodes")
			return data
		case 3:
			return []byte(bad)
		}
		return other
	}
	var err error
	var got string
	var same, isNil bool
	switch k {
	case 0:
		x := &dataset.Commit{Title: t}
		y, e := dataset.UnmarshalCommit(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Title
		}
	case 1:
		x := &dataset.Dataset{Name: t}
		y, e := dataset.UnmarshalDataset(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Name
		}
	case 2:
		x := &dataset.Readme{Text: t}
		y, e := dataset.UnmarshalReadme(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Text
		}
	case 3:
		x := &dataset.Structure{Format: t}
		y, e := dataset.UnmarshalStructure(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Format
		}
	case 4:
		x := &dataset.Transform{Text: t}
		y, e := dataset.UnmarshalTransform(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Text
		}
	case 5:
		x := &dataset.Viz{Text: t}
		y, e := dataset.UnmarshalViz(arg(x, *x))
		err, same, isNil = e, x == y, y == nil
		if y != nil {
			got = y.Text
		}
	}
	if how < 3 {
		v.Assert(err == nil && !isNil && got == t, "a component is given back or decoded")
		v.Assert(same == (how == 0), "a pointer is given back as it is")
		v.Reach("good")
		return
	}
	v.Assert(err != nil, "what is no component is an error")
	v.Reach("bad")
}

// H_C13_text: arbitrary texts of 0..3 (4) bytes, and of 0..2 (3) within braces and quotes, given to every component's decoder: text that is no JSON, a number, a list or a truth value is an error, a string is a reference, and an empty object is an empty component; nothing panics.
func H_C13_text() {
	k := v.Case(8)
	var s string
	switch v.Case(3) {
	case 0:
		s = v.String(v.Pick(v.Bound(4, 5)))
	case 1:
		s = "{" + v.String(v.Pick(v.Bound(3, 4))) + "}"
	case 2:
		s = "\"" + v.String(v.Pick(v.Bound(3, 4))) + "\""
	}
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] < 0x80)
	}
	var ref interface{}
	refErr := json.Unmarshal([]byte(s), &ref)
	data := []byte(s)
	var err error
	var path string
	var empty bool
	switch k {
	case 0:
		x := &dataset.Commit{Title: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 1:
		x := &dataset.Meta{Title: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 2:
		x := &dataset.Structure{Format: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 3:
		x := &dataset.Transform{Text: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 4:
		x := &dataset.Viz{Text: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 5:
		x := &dataset.Readme{Text: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 6:
		x := &dataset.Stats{Stats: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	case 7:
		x := &dataset.Dataset{Name: "old"}
		err = json.Unmarshal(data, x)
		path, empty = x.Path, x.IsEmpty()
	}
	if refErr != nil {
		v.Assert(err != nil, "text that is no JSON is an error")
		return
	}
	switch y := ref.(type) {
	case string:
		v.Assert(err == nil && empty && path == y, "a string decodes to a reference")
		v.Reach("string")
	case map[string]interface{}:
		if len(y) == 0 {
			v.Assert(err == nil && empty && path == "", "an empty object decodes to an empty component")
			v.Reach("object")
		}
	case nil:
		v.Assert(err == nil, "null decodes")
	default:
		v.Assert(err != nil, "numbers, lists and truth values are no components")
		v.Reach("other")
	}
}

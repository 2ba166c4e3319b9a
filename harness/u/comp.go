package u

import (
	"time"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verifh/v"
)

// Opt is s or the empty string.
func Opt(s string) string {
	if v.Bool() {
		return s
	}
	return ""
}

// OptInt is x or zero.
func OptInt(x int) int {
	if v.Bool() {
		return x
	}
	return 0
}

// OptMap is a map with key k and one more, or nil.
func OptMap(k, s string) map[string]interface{} {
	m := map[string]interface{}{k: s, s: s}
	if v.Bool() {
		return m
	}
	return nil
}

// OptStrMap is a map with key k and one more, or nil.
func OptStrMap(k, s string) map[string]string {
	m := map[string]string{k: s, s: s}
	if v.Bool() {
		return m
	}
	return nil
}

// OptList is a one-element list or nil.
func OptList(s string) []string {
	l := []string{s}
	if v.Bool() {
		return l
	}
	return nil
}

// OptFile is a file or nil.
func OptFile(s string) qfs.File {
	f := qfs.NewMemfileBytes(s, []byte(s))
	if v.Bool() {
		return f
	}
	return nil
}

// Commit is a commit with every field set or not.
func Commit(t string) *dataset.Commit {
	c := &dataset.Commit{
		Message:   Opt(t + "message"),
		Path:      Opt(t + "path"),
		Qri:       Opt(t + "qri"),
		Signature: Opt(t + "signature"),
		Title:     Opt(t + "title"),
		RunID:     Opt(t + "runid"),
	}
	xAuthor := &dataset.User{ID: t + "author"}
	if v.Bool() {
		c.Author = xAuthor
	}
	xTimestamp := Time(t)
	if v.Bool() {
		c.Timestamp = xTimestamp
		if Times {
			c.Timestamp = AnyTime()
		}
	}
	return c
}

// Times makes Commit use times of every kind instead of a fixed one.
var Times bool

// AnyTime is a time: after, at and before 1970, before year one, and in another zone.
func AnyTime() time.Time {
	switch v.Pick(6) {
	case 0:
		return time.Unix(0, 0).UTC()
	case 1:
		return time.Unix(0, 1).UTC()
	case 2:
		return time.Unix(-86400, 0).UTC()
	case 3:
		return time.Unix(-62135596800, 1).UTC()
	case 4:
		return time.Unix(-62135596801, 0).UTC()
	}
	return time.Unix(1600000000, 5).In(time.FixedZone("x", 3600))
}

// Time is a distinct time per tag.
func Time(t string) time.Time { return time.Unix(1600000000+int64(t[0])*7919, 0).UTC() }

// Meta is a meta with every field set or not.
func Meta(t string) *dataset.Meta {
	m := &dataset.Meta{
		AccessURL:          Opt(t + "accessurl"),
		AccrualPeriodicity: Opt(t + "accrual"),
		Description:        Opt(t + "description"),
		DownloadURL:        Opt(t + "downloadurl"),
		HomeURL:            Opt(t + "homeurl"),
		Identifier:         Opt(t + "identifier"),
		Keywords:           OptList(t + "keywords"),
		Language:           OptList(t + "language"),
		Path:               Opt(t + "path"),
		Qri:                Opt(t + "qri"),
		ReadmeURL:          Opt(t + "readmeurl"),
		Title:              Opt(t + "title"),
		Theme:              OptList(t + "theme"),
		Version:            Opt(t + "version"),
	}
	xCitations := []*dataset.Citation{{Name: t + "citation"}}
	if v.Bool() {
		m.Citations = xCitations
	}
	xContributors := []*dataset.User{{ID: t + "contributor"}}
	if v.Bool() {
		m.Contributors = xContributors
	}
	xLicense := &dataset.License{Type: t + "license"}
	if v.Bool() {
		m.License = xLicense
	}
	return m
}

// Structure is a structure with every field set or not.
func Structure(t string) *dataset.Structure {
	n := int(t[0])
	return &dataset.Structure{
		Checksum:     Opt(t + "checksum"),
		Compression:  Opt(t + "compression"),
		Depth:        OptInt(n + 100),
		Encoding:     Opt(t + "encoding"),
		ErrCount:     OptInt(n + 200),
		Entries:      OptInt(n + 300),
		Format:       Opt(t + "format"),
		FormatConfig: OptMap("config", t),
		Length:       OptInt(n + 400),
		Path:         Opt(t + "path"),
		Qri:          Opt(t + "qri"),
		Schema:       OptMap("type", t),
		Strict:       v.Bool(),
	}
}

// Transform is a transform with every field set or not; keyed leaves out or adds the keyed fields.
func Transform(t string, keyed bool) *dataset.Transform {
	q := &dataset.Transform{
		Path:          Opt(t + "path"),
		Qri:           Opt(t + "qri"),
		ScriptPath:    Opt(t + "scriptpath"),
		Text:          Opt(t + "text"),
		Syntax:        Opt(t + "syntax"),
		SyntaxVersion: Opt(t + "syntaxversion"),
		Syntaxes:      OptStrMap("x", t),
	}
	if keyed {
		q.Config = OptMap("k"+t, t)
		q.Secrets = OptStrMap("s"+t, t)
	}
	if keyed && v.Bool() {
		q.Resources = map[string]*dataset.TransformResource{"r" + t: {Path: t + "resource"}}
	}
	xSteps := []*dataset.TransformStep{{Name: t + "step"}}
	if v.Bool() {
		q.Steps = xSteps
	}
	if f := OptFile(t + "script"); f != nil {
		q.SetScriptFile(f)
	}
	return q
}

// Viz is a viz with every field set or not.
func Viz(t string) *dataset.Viz {
	z := &dataset.Viz{
		Format:       Opt(t + "format"),
		Path:         Opt(t + "path"),
		Qri:          Opt(t + "qri"),
		ScriptPath:   Opt(t + "scriptpath"),
		Text:         Opt(t + "text"),
		RenderedPath: Opt(t + "rendered"),
	}
	if f := OptFile(t + "script"); f != nil {
		z.SetScriptFile(f)
	}
	if f := OptFile(t + "render"); f != nil {
		z.SetRenderedFile(f)
	}
	return z
}

// Readme is a readme with every field set or not.
func Readme(t string) *dataset.Readme {
	z := &dataset.Readme{
		Format:       Opt(t + "format"),
		Path:         Opt(t + "path"),
		Qri:          Opt(t + "qri"),
		ScriptPath:   Opt(t + "scriptpath"),
		Text:         Opt(t + "text"),
		RenderedPath: Opt(t + "rendered"),
	}
	if f := OptFile(t + "script"); f != nil {
		z.SetScriptFile(f)
	}
	if f := OptFile(t + "render"); f != nil {
		z.SetRenderedFile(f)
	}
	return z
}

// Stats is a stats component with every field set or not.
func Stats(t string) *dataset.Stats {
	s := &dataset.Stats{Path: Opt(t + "path"), Qri: Opt(t + "qri")}
	xStats := t + "stats"
	if v.Bool() {
		s.Stats = xStats
	}
	return s
}

// File is an in-memory file named and holding s.
func File(s string) qfs.File { return qfs.NewMemfileBytes(s, []byte(s)) }

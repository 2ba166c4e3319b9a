// Package c15 checks the path map and the signing bytes of a dataset.
package c15

import (
	"strings"
	"time"

	"github.com/qri-io/dataset"
	"verifh/u"
	"verifh/v"
)

var names = []string{"body", "commit", "meta", "dataset", "readme", "structure", "transform", "viz", "stats"}

// build makes a dataset whose component i (in the order of names) is present with path p[i].
func build(has []bool, p []string) *dataset.Dataset {
	d := &dataset.Dataset{}
	if has[0] {
		d.BodyPath = p[0]
	}
	if has[1] {
		d.Commit = &dataset.Commit{Path: p[1]}
	}
	if has[2] {
		d.Meta = &dataset.Meta{Path: p[2]}
	}
	if has[3] {
		d.Path = p[3]
	}
	if has[4] {
		d.Readme = &dataset.Readme{Path: p[4]}
	}
	if has[5] {
		d.Structure = &dataset.Structure{Path: p[5]}
	}
	if has[6] {
		d.Transform = &dataset.Transform{Path: p[6]}
	}
	if has[7] {
		d.Viz = &dataset.Viz{Path: p[7]}
	}
	if has[8] {
		d.Stats = &dataset.Stats{Path: p[8]}
	}
	return d
}

// H_C15_pathmap: every combination of present components with arbitrary one-byte paths, every single ignored name, two ignored names, or none.
func H_C15_pathmap() {
	ig := v.Case(len(names) + 2)
	has := make([]bool, len(names))
	p := make([]string, len(names))
	for i := range names {
		has[i] = v.Pick(2) == 1
		if has[i] {
			p[i] = v.String(1)
		}
	}
	d := build(has, p)
	var ignore []string
	switch {
	case ig < len(names):
		ignore = []string{names[ig]}
	case ig == len(names):
		ignore = []string{"stats", "commit", "nothing"}
	}
	m := d.PathMap(ignore...)
	n := 0
	for i, name := range names {
		want := has[i]
		for _, g := range ignore {
			if g == name {
				want = false
			}
		}
		got, ok := m[name]
		v.Assert(ok == want, "the path map lists exactly the present components that are not ignored")
		if want {
			v.Assert(got == p[i], "the path map holds the component's path")
			n++
		}
	}
	v.Assert(len(m) == n, "the path map lists nothing else")
	v.Reach("pathmap")
}

// H_C15_pathmap_empty: components without a path are listed with the empty path; a nil dataset has no components.
func H_C15_pathmap_empty() {
	k := v.Case(len(names))
	has := make([]bool, len(names))
	has[k] = true
	d := build(has, make([]string, len(names)))
	m := d.PathMap()
	if k == 0 || k == 3 {
		v.Assert(len(m) == 0, "an unset path is no component")
	} else {
		x, ok := m[names[k]]
		v.Assert(ok && x == "" && len(m) == 1, "a component without a path is listed with the empty path")
	}
	var none *dataset.Dataset
	v.Assert(len(none.PathMap()) == 0, "a nil dataset has no components")
	v.Reach("empty")
}

var prefixes = []string{"bd", "", "md", "", "rm", "st", "tf", "vz", "sa"}

func line(n int) string {
	s := v.String(n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] != '\n')
	}
	return s
}

var stamps = []time.Time{
	time.Date(2001, 1, 1, 1, 1, 1, 0, time.UTC),
	time.Date(2001, 1, 1, 1, 1, 2, 0, time.UTC),
	time.Date(2021, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2001, 1, 1, 4, 1, 1, 0, time.FixedZone("x", 3*3600)),
}

// parse splits signing bytes into values by prefix; the signing bytes determine every
// value, so datasets with different values cannot share them.
func parse(b []byte) (map[string]string, bool) {
	m := map[string]string{}
	if len(b) == 0 {
		return m, true
	}
	for _, l := range strings.Split(string(b), "\n") {
		if len(l) < 3 || l[2] != ':' {
			return nil, false
		}
		if _, dup := m[l[:2]]; dup {
			return nil, false
		}
		m[l[:2]] = l[3:]
	}
	return m, true
}

// H_C15_signing: every combination of identified components; one of them (or the identity) has an arbitrary value of up to 2 bytes, the others a fixed one.
func H_C15_signing() {
	k := v.Case(len(names) + 1)
	has := make([]bool, len(names))
	p := make([]string, len(names))
	val := func(i int) string {
		if i != k {
			return []string{"a", "b:", "", "bd:x", "cm:", "st", "/p", "q", "bd:"}[i]
		}
		return line(1 + v.Pick(v.Bound(2, 3)))
	}
	for i := range names {
		has[i] = i == k || v.Pick(2) == 1
		if has[i] {
			p[i] = val(i)
			if p[i] == "" {
				p[i] = "m"
			}
		}
	}
	d := build(has, p)
	if k == len(names) {
		d.ID = val(k)
	} else if v.Pick(2) == 1 {
		d.ID = "id:"
	}
	stamp := -1
	if has[1] {
		stamp = v.Pick(len(stamps)+1) - 1
		if stamp >= 0 {
			d.Commit.Timestamp = stamps[stamp]
		}
	}
	b := d.SigningBytes()
	m, ok := parse(b)
	v.Assert(ok, "signing bytes hold one prefixed line per component")
	n := 0
	want := func(pre, val string, on bool) {
		if !on {
			return
		}
		got, ok := m[pre]
		v.Assert(ok, "every identified component has a line")
		v.Assert(got == val, "the line holds the component's path")
		n++
	}
	want("id", d.ID, d.ID != "")
	for i, pre := range prefixes {
		if pre != "" {
			want(pre, p[i], has[i])
		}
	}
	if stamp >= 0 {
		got, ok := m["cm"]
		v.Assert(ok, "a commit with a time has a line")
		for j, s := range stamps {
			text := s.UTC().Format(time.RFC3339)
			v.Assert((got == text) == s.Equal(stamps[stamp]), "the commit line tells times apart")
			_ = j
		}
		n++
	}
	v.Assert(len(m) == n, "signing bytes hold nothing else")
	v.Assert(u.EqBytes(d.SigningBytes(), b), "signing bytes are stable")
	v.Reach("signing")
}

// H_C15_signing_extra: values that are not identity, path or time do not enter the signing bytes, and components without a path have no line.
func H_C15_signing_extra() {
	a, b := &dataset.Dataset{}, &dataset.Dataset{}
	switch v.Case(7) {
	case 0:
		a.Commit = &dataset.Commit{Title: v.String(1), Signature: v.String(1)}
	case 1:
		a.Meta = &dataset.Meta{Title: v.String(1)}
	case 2:
		a.Readme = &dataset.Readme{Text: v.String(1)}
	case 3:
		a.Structure = &dataset.Structure{Format: v.String(1)}
	case 4:
		a.Transform = &dataset.Transform{Text: v.String(1)}
	case 5:
		a.Viz = &dataset.Viz{Text: v.String(1)}
	case 6:
		a.Name, a.Peername, a.ProfileID, a.Qri = v.String(1), v.String(1), v.String(1), v.String(1)
		a.Stats = &dataset.Stats{Stats: v.String(1)}
	}
	v.Assert(u.EqBytes(a.SigningBytes(), b.SigningBytes()), "content without a path is not signed")
	v.Reach("extra")
}

// H_C15_signable: the deprecated signable bytes need commit and structure, and tell times and checksums apart.
func H_C15_signable() {
	d := &dataset.Dataset{}
	sum := line(2)
	if v.Pick(2) == 1 {
		d.Structure = &dataset.Structure{Checksum: sum}
	}
	k := v.Pick(len(stamps) + 1)
	if k < len(stamps) {
		d.Commit = &dataset.Commit{Timestamp: stamps[k]}
	}
	b, err := d.SignableBytes()
	if d.Structure == nil || d.Commit == nil {
		v.Assert(err != nil, "commit and structure are required")
		return
	}
	v.Assert(err == nil, "signable bytes are given")
	v.Assert(string(b) == stamps[k].UTC().Format(time.RFC3339)+"\n"+sum, "signable bytes hold time and checksum")
	v.Reach("signable")
}

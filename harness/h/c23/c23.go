// Package c23 checks transform step files.
package c23

import (
	"errors"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/stepfile"
	"verifh/u"
	"verifh/v"
)

type reader struct {
	*u.Src
	closed bool
}

func (r *reader) Close() error { r.closed = true; return nil }

// alphabet holds the bytes that matter for separators; text gives an arbitrary string over arbitrary bytes or over it.
func text(n int, any bool) string {
	s := v.String(n)
	if !any {
		for i := 0; i < n; i++ {
			v.Assume(s[i] == '\n' || s[i] == '-' || s[i] == '\r' || s[i] == ' ' || s[i] == 'a')
		}
	}
	return s
}

// hasSeparatorLine reports whether a line of s is the separator.
func hasSeparatorLine(s string) bool {
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			if i-start == 3 && s[start:i] == "---" {
				return true
			}
			start = i + 1
		}
	}
	return false
}

func script(kind int, s string) interface{} {
	switch kind {
	case 0:
		return s
	case 1:
		return []byte(s)
	case 2:
		return strings.NewReader(s)
	}
	return &reader{Src: u.Chunked([]byte(s), 1)}
}

// H_C23_roundtrip: lists of steps, one of which has an arbitrary script, read back in arbitrary splits.
func H_C23_roundtrip() {
	n := 1 + v.Case(3)
	k := v.Case(n)
	size := v.Case(v.Bound(6, 8))
	steps := make([]*dataset.TransformStep, n)
	want := make([]string, n)
	for i := range steps {
		switch {
		case i == k:
			want[i] = text(size, size < 4)
			v.Assume(!hasSeparatorLine(want[i]))
		case i == 0:
			want[i] = "x\n--"
		case i == 1:
			want[i] = "\n"
		default:
			want[i] = "-\n y"
		}
		kind := 0
		if i == k {
			kind = v.Pick(4)
		}
		steps[i] = &dataset.TransformStep{Script: script(kind, want[i])}
	}
	sink := &u.Sink{}
	v.Assert(stepfile.Write(steps, sink) == nil, "steps are written")
	if r, ok := steps[k].Script.(*reader); ok {
		v.Assert(r.closed, "scripts read from a file are closed")
	}
	var in io.Reader = &u.Src{Data: sink.B, ErrOK: true}
	if v.Pick(2) == 1 {
		in = u.OneByte(sink.B)
	}
	got, err := stepfile.Read(in)
	v.Assert(err == nil, "a step file is read")
	v.Assert(len(got) == n, "as many steps are read as were written")
	for i := range got {
		s, ok := got[i].Script.(string)
		v.Assert(ok && s == want[i], "every script is read as it was written")
	}
	v.Reach("roundtrip")
}

// H_C23_fault: a failing sink is reported whatever write fails, and so are scripts that cannot be written.
func H_C23_fault() {
	n := 1 + v.Pick(3)
	steps := make([]*dataset.TransformStep, n)
	bad := false
	for i := range steps {
		k := v.Pick(6)
		switch k {
		case 0, 1, 2, 3:
			steps[i] = &dataset.TransformStep{Script: script(k, "ab")}
		case 4:
			steps[i] = &dataset.TransformStep{Script: 5}
			bad = true
		case 5:
			steps[i] = &dataset.TransformStep{Script: &u.Src{Data: []byte("a"), Err: errors.New("broken")}}
			bad = true
		}
	}
	sink := &u.Sink{FailAt: v.Pick(8)}
	err := stepfile.Write(steps, sink)
	v.Assert((err != nil) == (bad || sink.Failed), "success means that every step was written")
	if err == nil {
		v.Assert(len(sink.B) == 2*n+5*(n-1), "success means that every byte was written")
		v.Reach("written")
	} else {
		v.Reach("failed")
	}
}

// H_C23_read: arbitrary files; a read error is reported, otherwise the steps and separators make up the file.
func H_C23_read() {
	size := v.Case(v.Bound(8, 11))
	s := text(size, false)
	src := &u.Src{Data: []byte(s)}
	fail := v.Pick(2) == 1
	if fail {
		src.Err = io.ErrUnexpectedEOF
	}
	got, err := stepfile.Read(src)
	if fail {
		v.Assert(err != nil, "a read error is reported")
		return
	}
	v.Assert(err == nil && len(got) > 0, "every file has steps")
	all := ""
	for i, st := range got {
		x, ok := st.Script.(string)
		v.Assert(ok, "scripts are text")
		if i > 0 {
			all += "\n---\n"
		}
		all += x
		v.Assert(!strings.Contains(x, "\n---\n"), "no script holds a separator")
	}
	v.Assert(all == s, "steps and separators make up the file")
	v.Reach("read")
}

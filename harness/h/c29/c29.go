// Package c29 checks how body and script files are opened.
package c29

import (
	"context"
	"errors"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

var errResolve = errors.New("resolve failed")

// resolver records what it is asked for.
type resolver struct {
	data  []byte
	err   error
	asked []string
}

func (r *resolver) Get(ctx context.Context, path string) (qfs.File, error) {
	r.asked = append(r.asked, path)
	if r.err != nil {
		return nil, r.err
	}
	return qfs.NewMemfileBytes(path, r.data), nil
}

func read(f qfs.File) []byte {
	var out []byte
	p := make([]byte, 3)
	for i := 0; i < 20; i++ {
		n, err := f.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			v.Assert(err == io.EOF, "the file is readable")
			return out
		}
	}
	v.Assert(false, "the file ends")
	return nil
}

// target is one way to open a file.
type target struct {
	open func(context.Context, qfs.PathResolver) error
	file func() qfs.File
}

const nTargets = 6

// mk builds component number k with the given inline content, path and already opened file.
func mk(k int, inline []byte, path string, old qfs.File) target {
	switch k {
	case 0:
		ds := &dataset.Dataset{BodyBytes: inline, BodyPath: path}
		if old != nil {
			ds.SetBodyFile(old)
		}
		return target{ds.OpenBodyFile, ds.BodyFile}
	case 1:
		c := &dataset.Transform{Text: string(inline), ScriptPath: path}
		if old != nil {
			c.SetScriptFile(old)
		}
		return target{c.OpenScriptFile, c.ScriptFile}
	case 2:
		c := &dataset.Viz{Text: string(inline), ScriptPath: path}
		if old != nil {
			c.SetScriptFile(old)
		}
		return target{c.OpenScriptFile, c.ScriptFile}
	case 3:
		c := &dataset.Readme{Text: string(inline), ScriptPath: path}
		if old != nil {
			c.SetScriptFile(old)
		}
		return target{c.OpenScriptFile, c.ScriptFile}
	case 4:
		c := &dataset.Viz{RenderedPath: path, Text: string(inline), ScriptPath: "other"}
		if old != nil {
			c.SetRenderedFile(old)
		}
		return target{c.OpenRenderedFile, c.RenderedFile}
	default:
		c := &dataset.Readme{RenderedPath: path, Text: string(inline), ScriptPath: "other"}
		if old != nil {
			c.SetRenderedFile(old)
		}
		return target{c.OpenRenderedFile, c.RenderedFile}
	}
}

// H_C29_open: inline content before the path, the path before nothing; missing and failing resolvers are errors.
func H_C29_open() {
	k := v.Case(nTargets)
	var inline []byte
	if v.Bool() {
		inline = v.Bytes(1 + v.Pick(v.Bound(4, 12)))
	}
	path := string(v.Bytes(v.Pick(v.Bound(3, 8))))
	content := v.Bytes(v.Pick(v.Bound(4, 12)))
	var old qfs.File
	if v.Bool() {
		old = qfs.NewMemfileBytes("old", []byte("old"))
	}
	t := mk(k, inline, path, old)
	res := &resolver{data: content}
	var pr qfs.PathResolver
	how := v.Pick(3)
	if how > 0 {
		pr = res
	}
	if how == 2 {
		res.err = errResolve
	}
	err := t.open(context.Background(), pr)
	switch {
	case k < 4 && len(inline) > 0:
		v.Assert(err == nil, "inline content needs no resolver")
		v.Assert(len(res.asked) == 0, "inline content resolves nothing")
		v.Assert(t.file() != nil && u.EqBytes(read(t.file()), inline), "the file holds the inline content")
		v.Reach("inline")
	case path == "":
		v.Assert(err == nil && len(res.asked) == 0, "without a path nothing is resolved")
		if old == nil {
			v.Assert(t.file() == nil, "without content and path there is no file")
		} else {
			v.Assert(string(read(t.file())) == "old", "an open file is kept")
		}
		v.Reach("nothing")
	case how == 0:
		v.Assert(err == dataset.ErrNoResolver, "a path needs a resolver")
		v.Reach("no resolver")
	case how == 2:
		v.Assert(err != nil, "a failing resolver is reported")
		v.Assert(len(res.asked) == 1 && res.asked[0] == path, "the path is resolved once")
		v.Reach("failing")
	default:
		v.Assert(err == nil, "a path is resolved")
		v.Assert(len(res.asked) == 1 && res.asked[0] == path, "the path is resolved once")
		v.Assert(t.file() != nil && u.EqBytes(read(t.file()), content), "the file holds the resolved content")
		v.Reach("resolved")
	}
}

// H_C29_body: a decoded body is reported as such and never read as bytes; empty inline bytes are content.
func H_C29_body() {
	path := string(v.Bytes(v.Pick(3)))
	res := &resolver{data: v.Bytes(v.Pick(3))}
	ds := &dataset.Dataset{BodyPath: path}
	if v.Case(2) == 0 {
		ds.Body = []interface{}{"a"}
		if v.Bool() {
			ds.BodyBytes = v.Bytes(v.Pick(3))
		}
		v.Assert(ds.OpenBodyFile(context.Background(), res) == dataset.ErrInlineBody, "a decoded body is not a file")
		v.Assert(len(res.asked) == 0 && ds.BodyFile() == nil, "a decoded body opens nothing")
		v.Reach("decoded")
		return
	}
	ds.BodyBytes = []byte{}
	v.Assert(ds.OpenBodyFile(context.Background(), res) == nil, "empty inline bytes are content")
	v.Assert(len(res.asked) == 0 && ds.BodyFile() != nil && len(read(ds.BodyFile())) == 0, "the file is empty")
	v.Reach("empty")
}

// H_C29_inline: inlining a script reads all of it, and reports failures without changing the component.
func H_C29_inline() {
	k := v.Case(3)
	inline := string(v.Bytes(v.Pick(v.Bound(3, 6))))
	path := string(v.Bytes(v.Pick(3)))
	content := v.Bytes(v.Pick(v.Bound(5, 10)))
	var old qfs.File
	if v.Bool() {
		old = qfs.NewMemfileBytes("old", []byte("old"))
	}
	res := &resolver{data: content}
	var pr qfs.PathResolver
	how := v.Pick(4)
	if how > 0 {
		pr = res
	}
	if how == 2 {
		res.err = errResolve
	}
	broken := how == 3
	var inl func(context.Context, qfs.PathResolver) error
	var text, sp *string
	var set func(qfs.File)
	switch k {
	case 0:
		c := &dataset.Transform{Text: inline, ScriptPath: path}
		inl, text, sp, set = c.InlineScriptFile, &c.Text, &c.ScriptPath, c.SetScriptFile
	case 1:
		c := &dataset.Viz{Text: inline, ScriptPath: path}
		inl, text, sp, set = c.InlineScriptFile, &c.Text, &c.ScriptPath, c.SetScriptFile
	case 2:
		c := &dataset.Readme{Text: inline, ScriptPath: path}
		inl, text, sp, set = c.InlineScriptFile, &c.Text, &c.ScriptPath, c.SetScriptFile
	}
	if broken {
		old = qfs.NewMemfileReader("old", &u.Src{Data: []byte("ol"), Err: u.ErrSource})
	}
	if old != nil {
		set(old)
	}
	err := inl(context.Background(), pr)
	switch {
	case pr == nil:
		v.Assert(err == nil && *text == inline && *sp == path, "without a resolver nothing changes")
		v.Reach("no resolver")
	case inline != "":
		v.Assert(err == nil && *text == inline && len(res.asked) == 0, "inline text is kept")
		v.Assert(*sp == "", "inline text replaces the path")
		v.Reach("inline")
	case path != "" && how == 2:
		v.Assert(err != nil && *text == "" && *sp == path, "a failing resolver is reported, and nothing changes")
		v.Reach("failing")
	case path != "":
		v.Assert(err == nil && *text == string(content) && *sp == "", "the resolved content becomes the text")
		v.Reach("resolved")
	case old == nil:
		v.Assert(err == nil && *text == "" && *sp == "", "without content and path nothing changes")
		v.Reach("nothing")
	case broken:
		v.Assert(err != nil && *text == "", "a file that cannot be read is reported, and nothing changes")
		v.Reach("broken")
	default:
		v.Assert(err == nil && *text == "old", "the content of an open file becomes the text")
		v.Reach("file")
	}
}

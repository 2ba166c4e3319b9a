// Package c09 checks copying, paging, iterating, reading all and converting.
package c09

import (
	"errors"
	"io"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

// errRead is the failure a source reports; the end of its input in the middle of a value is one as well
var errRead = errors.New("injected read error")
var errWrite = errors.New("injected write error")

// src is an entry source of n entries that fails at entry fail (-1: never).
type src struct {
	st   *dataset.Structure
	n    int
	fail int
	err  error
	i    int
	vals []interface{}
}

func (s *src) Structure() *dataset.Structure { return s.st }
func (s *src) Close() error                  { return nil }
func (s *src) ReadEntry() (dsio.Entry, error) {
	if s.i == s.fail {
		return dsio.Entry{}, s.err
	}
	if s.i >= s.n {
		return dsio.Entry{}, io.EOF
	}
	e := dsio.Entry{Index: s.i, Key: string([]byte{'k', byte('0' + s.i)}), Value: s.vals[s.i]}
	s.i++
	return e, nil
}

type dst struct {
	st   *dataset.Structure
	got  []dsio.Entry
	fail int
}

func (d *dst) Structure() *dataset.Structure { return d.st }
func (d *dst) Close() error                  { return nil }
func (d *dst) WriteEntry(e dsio.Entry) error {
	if len(d.got) == d.fail {
		return errWrite
	}
	d.got = append(d.got, e)
	return nil
}

func source(max int, failing bool) *src {
	s := &src{st: u.ArrayStruct("json"), fail: -1, err: errRead}
	if v.Pick(2) == 1 {
		s.st = u.ObjectStruct("json")
	}
	s.n = v.Pick(max + 1)
	for i := 0; i < s.n; i++ {
		s.vals = append(s.vals, v.Int64())
	}
	if failing {
		s.fail = v.Pick(s.n+2) - 1
		if s.fail >= 0 && v.Pick(2) == 1 {
			s.err = io.ErrUnexpectedEOF
		}
	}
	return s
}

func same(e dsio.Entry, s *src, i int) bool {
	return e.Index == i && e.Key == string([]byte{'k', byte('0' + i)}) && u.EqVal(e.Value, s.vals[i])
}

// H_C09_copy: every source of up to 4 (6) entries, every position of a read failure and of a write failure.
func H_C09_copy() {
	s := source(v.Bound(4, 6), true)
	d := &dst{fail: v.Pick(s.n+2) - 1}
	err := dsio.Copy(s, d)
	bad := s.fail >= 0 || d.fail >= 0 && d.fail < s.n
	v.Assert((err != nil) == bad, "Copy reports exactly the failures")
	if !bad {
		v.Assert(len(d.got) == s.n, "Copy delivers every entry")
		v.Reach("copied")
	} else {
		v.Reach("failed")
	}
	v.Assert(len(d.got) <= s.n, "Copy delivers no entry twice")
	for i, e := range d.got {
		v.Assert(same(e, s, i), "Copy delivers entries in order")
	}
}

// H_C09_paged: every offset and limit (negative to beyond the end), every position of a read failure.
func H_C09_paged() {
	s := source(v.Bound(4, 6), true)
	off, lim := v.Int(-2, 8), v.Int(-2, 8)
	p := &dsio.PagedReader{Reader: s, Offset: off, Limit: lim}
	v.Assert(p.Structure() == s.st, "structure")
	var got []dsio.Entry
	var err error
	for {
		var e dsio.Entry
		if e, err = p.ReadEntry(); err != nil {
			break
		}
		got = append(got, e)
		v.Assert(len(got) <= s.n, "no entry twice")
	}
	first := off
	if first < 0 {
		first = 0
	}
	for i, e := range got {
		v.Assert(same(e, s, first+i), "the window's entries in order")
	}
	end := s.n // entries available before the source ends or fails
	if s.fail >= 0 {
		end = s.fail
	}
	avail := end - first
	if avail < 0 {
		avail = 0
	}
	want := avail
	if lim >= 0 && lim < want {
		want = lim
	}
	v.Assert(len(got) == want, "exactly the selected window")
	if s.fail >= 0 && (lim < 0 || first+lim > end || first > end) {
		v.Assert(err == s.err, "the source's error is reported")
		v.Reach("error")
	} else {
		v.Assert(err == io.EOF, "the window ends in end-of-file")
		v.Reach("window")
	}
	v.Assert(p.Close() == nil, "close")
}

// H_C09_each: EachEntry calls back once per entry in order, stops cleanly when the callback says so, and reports failures.
func H_C09_each() {
	s := source(v.Bound(4, 6), true)
	stop := v.Pick(s.n+2) - 1
	stopErr := io.EOF
	if v.Pick(2) == 1 {
		stopErr = errWrite
	}
	n := 0
	err := dsio.EachEntry(s, func(i int, e dsio.Entry, err error) error {
		v.Assert(i == n, "callback index")
		v.Assert(err == nil, "callback error")
		v.Assert(same(e, s, i), "callback entry")
		if i == stop {
			return stopErr
		}
		n++
		return nil
	})
	end := s.n
	if s.fail >= 0 {
		end = s.fail
	}
	switch {
	case stop >= 0 && stop < end:
		v.Assert(n == stop, "stops at the callback's error")
		v.Assert((err != nil) == (stopErr != io.EOF), "the callback's error is reported")
		v.Reach("stopped")
	case s.fail >= 0:
		v.Assert(n == end && err != nil, "the source's error is reported")
		v.Reach("failed")
	default:
		v.Assert(n == s.n && err == nil, "every entry is visited")
		v.Reach("all")
	}
}

// H_C09_all: ReadAll returns every entry or the source's error.
func H_C09_all() {
	s := source(v.Bound(4, 6), true)
	x, err := dsio.ReadAll(s)
	if s.fail >= 0 {
		v.Assert(err != nil, "the source's error is reported")
		v.Reach("failed")
		return
	}
	v.Assert(err == nil, "no error")
	if s.st.Schema["type"] == "object" {
		m, ok := x.(map[string]interface{})
		v.Assert(ok && len(m) == s.n, "every entry")
		for i := 0; i < s.n; i++ {
			y, ok := m[string([]byte{'k', byte('0' + i)})]
			v.Assert(ok, "every key")
			v.Assert(u.EqVal(y, s.vals[i]), "every value")
		}
		v.Reach("object")
		return
	}
	a, ok := x.([]interface{})
	v.Assert(ok && len(a) == s.n, "every entry")
	for i := range a {
		v.Assert(u.EqVal(a[i], s.vals[i]), "every value in order")
	}
	v.Reach("array")
}

func csvStruct() *dataset.Structure {
	return &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type": "array",
		"items": map[string]interface{}{"type": "array", "items": []interface{}{
			map[string]interface{}{"title": "a", "type": "string"},
			map[string]interface{}{"title": "b", "type": "integer"},
		}},
	}}
}

func nd(format string) *dataset.Structure { return u.ArrayStruct(format) }

// H_C09_convert: ConvertFile from JSON, CBOR, NDJSON and CSV to JSON, pretty JSON, CBOR, NDJSON and CSV, any window of up to 3 rows.
func H_C09_convert() {
	in, out := v.Case(4), v.Case(5)
	n := v.Pick(4)
	cells := v.Bytes(n)
	letters := []string{"x", "y", "z"}
	var body []byte
	rows := make([][]interface{}, 0, n)
	for i := 0; i < n; i++ {
		v.Assume(cells[i] >= 'a' && cells[i] <= 'z')
		rows = append(rows, []interface{}{string([]byte{cells[i], letters[i][0]}), int64(i + 1)})
	}
	var ist *dataset.Structure
	switch in {
	case 0:
		ist = nd("json")
		body = append(body, '[')
		for i := range rows {
			if i > 0 {
				body = append(body, ',')
			}
			body = append(body, row(cells[i], i)...)
		}
		body = append(body, ']')
	case 1:
		ist = nd("cbor")
		body = append(body, 0x80|byte(n))
		for i := range rows {
			body = append(body, 0x82, 0x62, cells[i], letters[i][0], byte(i+1))
		}
	case 2:
		ist = nd("ndjson")
		for i := range rows {
			body = append(body, row(cells[i], i)...)
			body = append(body, '\n')
		}
	case 3:
		ist = csvStruct()
		for i := range rows {
			body = append(body, cells[i], letters[i][0], ',', byte('1'+i), '\n')
		}
	}
	broken := v.Pick(2) == 1
	if broken {
		// an unterminated value behind the rows
		v.Assume(in == 0 && n > 0 || in == 2)
		if in == 0 {
			body = append(body[:len(body)-1], ',', '"')
		} else {
			body = append(body, '[', '\n')
		}
	}
	var ost *dataset.Structure
	switch out {
	case 0:
		ost = nd("json")
	case 1:
		ost = nd("json")
		ost.FormatConfig = map[string]interface{}{"pretty": true}
	case 2:
		ost = nd("cbor")
	case 3:
		ost = nd("ndjson")
	case 4:
		ost = csvStruct()
	}
	all := v.Pick(2) == 1
	lim, off := -1, 0
	if !all && !broken {
		lim, off = v.Pick(5)-1, v.Pick(4)
	}
	data, err := dsio.ConvertFile(qfs.NewMemfileBytes("body", body), ist, ost, lim, off, all)
	if broken {
		v.Assert(err != nil, "a source that cannot be read is reported")
		v.Reach("broken")
		return
	}
	v.Assert(err == nil, "conversion succeeds")
	if !all {
		if off > len(rows) {
			off = len(rows)
		}
		rows = rows[off:]
		if lim >= 0 && lim < len(rows) {
			rows = rows[:lim]
		}
	}
	r, err := dsio.NewEntryReader(ost, &u.Src{Data: data})
	v.Assert(err == nil, "result opens")
	got, err := u.ReadAll(r, len(rows))
	v.Assert(u.IsEOF(err), "result reads to end-of-file")
	v.Assert(len(got) == len(rows), "result holds the selected rows")
	for i := range rows {
		v.Assert(u.EqVal(u.Floats(got[i].Value), u.Floats(rows[i])), "each row unchanged and in order")
	}
	v.Reach("converted")
}

func row(c byte, i int) []byte {
	return []byte{'[', '"', c, "xyz"[i], '"', ',', byte('1' + i), ']'}
}

// H_C09_many: sources of 90 to 300 entries through every way of reading them, with a window that starts and ends anywhere around 0, 100 and the end.
func H_C09_many() {
	n := []int{90, 99, 100, 101, 128, 256, 300}[v.Case(7)]
	v.Steps(40000000)
	s := &src{st: u.ArrayStruct("json"), fail: -1, n: n}
	x := v.Int64()
	for i := 0; i < n; i++ {
		s.vals = append(s.vals, x)
	}
	off := []int{0, 1, 99, 100, n - 1, n, n + 1}[v.Pick(7)]
	lim := []int{0, 1, 99, 100, 101, n, n + 1}[v.Pick(7)]
	want := n - off
	if want < 0 {
		want = 0
	}
	if lim < want {
		want = lim
	}
	p := &dsio.PagedReader{Reader: s, Offset: off, Limit: lim}
	var got []dsio.Entry
	switch v.Pick(3) {
	case 0:
		d := &dst{fail: -1}
		v.Assert(dsio.Copy(p, d) == nil, "Copy succeeds")
		got = d.got
	case 1:
		err := dsio.EachEntry(p, func(i int, e dsio.Entry, err error) error {
			v.Assert(i == len(got) && err == nil, "entries are numbered")
			got = append(got, e)
			return nil
		})
		v.Assert(err == nil, "EachEntry succeeds")
	case 2:
		all, err := dsio.ReadAll(p)
		v.Assert(err == nil, "ReadAll succeeds")
		arr, ok := all.([]interface{})
		v.Assert(ok && len(arr) == want, "exactly the selected window")
		for _, y := range arr {
			v.Assert(u.EqVal(y, x), "values are unchanged")
		}
		v.Reach("all")
		return
	}
	v.Assert(len(got) == want, "exactly the selected window")
	for i, e := range got {
		v.Assert(same(e, s, off+i), "the window's entries in order")
	}
	v.Reach("many")
}

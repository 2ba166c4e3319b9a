// Package c06 checks CSV bodies with typed columns.
package c06

import (
	"io"
	"strconv"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

var types = []string{"string", "integer", "boolean", "number", "object", "array", "null"}

// structure builds a tabular structure; header: 0 no configuration, 1 off, 2 on.
func structure(cols []string, titles []string, header int, sep string) *dataset.Structure {
	items := make([]interface{}, len(cols))
	for i, c := range cols {
		m := map[string]interface{}{"type": c}
		if titles != nil {
			m["title"] = titles[i]
		}
		items[i] = m
	}
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{
		"type":  "array",
		"items": map[string]interface{}{"type": "array", "items": items},
	}}
	if header > 0 || sep != "" {
		st.FormatConfig = map[string]interface{}{}
		if header > 0 {
			st.FormatConfig["headerRow"] = header == 2
		}
		if sep != "" {
			st.FormatConfig["separator"] = sep
		}
	}
	return st
}

// cell is arbitrary text of n bytes without carriage returns.
func cell(n int) string {
	s := v.String(n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] != '\r')
	}
	return s
}

func value(typ string, text int) interface{} {
	switch typ {
	case "string":
		return cell(text)
	case "integer":
		return u.SmallInt()
	case "boolean":
		return v.Bool()
	case "number":
		return []float64{1.5, -0.25, 1e21, 12345678, 0, 1e-7, 0.30000000000000004, -123456.7890123}[v.Pick(8)]
	case "object":
		return map[string]interface{}{"a": u.Text(1), "b,\"": nil}
	case "array":
		return []interface{}{u.Text(1), true, []interface{}{}}
	}
	return nil
}

// plain is value with integers of a fixed set.
func plain(typ string, text int) interface{} {
	if typ == "integer" {
		return []int64{0, -1, 7, 1234567, -9223372036854775808}[v.Pick(5)]
	}
	return value(typ, text)
}

func roundtrip(st *dataset.Structure, rows [][]interface{}, size int) {
	sink := &u.Sink{}
	w, err := dsio.NewCSVWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	for i, r := range rows {
		v.Assert(w.WriteEntry(dsio.Entry{Index: i, Value: r}) == nil, "row is accepted")
	}
	v.Assert(w.Close() == nil, "writer closes")
	r, err := dsio.NewCSVReaderSize(st, &u.Src{Data: sink.B}, size)
	v.Assert(err == nil, "reader opens")
	for i, want := range rows {
		got, err := r.ReadEntry()
		v.Assert(err == nil, "each row is read back")
		v.Assert(got.Index == i && got.Key == "", "rows are numbered")
		v.Assert(u.EqVal(got.Value, want), "the row read equals the row written")
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
	v.Assert(r.Close() == nil, "reader closes")
}

// H_C06_cells: one column of text, cells of 0..3 (4) arbitrary bytes without carriage returns, header row absent, off or on.
func H_C06_cells() {
	n := v.Case(v.Bound(4, 5))
	header := v.Pick(3)
	st := structure([]string{"string"}, []string{"t"}, header, "")
	roundtrip(st, [][]interface{}{{cell(n)}, {"x"}}, 64)
	v.Reach("cell")
}

// H_C06_separator: two text columns with cells of 0..2 bytes each, and every single-character separator the CSV format admits.
func H_C06_separator() {
	a, b := v.Case(3), v.Pick(v.Bound(2, 3))
	sep := v.String(1)
	c := sep[0]
	v.Assume(c != 0 && c != '"' && c != '\r' && c != '\n')
	st := structure([]string{"string", "string"}, nil, 2*v.Pick(2), sep)
	roundtrip(st, [][]interface{}{{cell(a), cell(b)}}, 64)
	v.Reach("separator")
}

// H_C06_types: every pair of column types (including several rows), header row on or off.
func H_C06_types() {
	k := v.Case(len(types) * len(types))
	cols := []string{types[k%len(types)], types[k/len(types)]}
	st := structure(cols, []string{"a", "b"}, 1+v.Pick(2), "")
	rows := make([][]interface{}, v.Bound(1, 2))
	for i := range rows {
		rows[i] = []interface{}{plain(cols[0], 1), plain(cols[1], 1)}
	}
	roundtrip(st, rows, 64)
	v.Reach("types")
}

// H_C06_single: a single column of each type, 0..1 (2) rows.
func H_C06_single() {
	typ := types[v.Case(len(types))]
	n := v.Pick(v.Bound(2, 3))
	st := structure([]string{typ}, []string{"a"}, v.Pick(3), "")
	rows := make([][]interface{}, n)
	for i := range rows {
		rows[i] = []interface{}{value(typ, v.Pick(2))}
	}
	roundtrip(st, rows, 64)
	v.Reach("single")
}

// H_C06_titles: header titles of 0..2 arbitrary bytes do not disturb the rows.
func H_C06_titles() {
	t := cell(v.Case(3))
	cols, titles := []string{"string"}, []string{t}
	row := []interface{}{cell(1)}
	if v.Pick(2) == 1 {
		cols, titles = append(cols, "integer"), append(titles, "b")
		row = append(row, int64(7))
	}
	st := structure(cols, titles, 2, "")
	sink := &u.Sink{}
	w, err := dsio.NewCSVWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	v.Assert(w.WriteEntry(dsio.Entry{Value: row}) == nil, "row is accepted")
	v.Assert(w.Close() == nil, "writer closes")
	// the header row, read as data, holds the titles
	raw := structure(cols, nil, 1, "")
	r, err := dsio.NewCSVReader(raw, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	h, err := r.ReadEntry()
	v.Assert(err == nil, "header row is present")
	hr, ok := h.Value.([]interface{})
	v.Assert(ok && len(hr) == len(cols), "header row has one title per column")
	v.Assert(u.EqVal(hr[0], t), "header row holds the title")
	_, err = r.ReadEntry()
	v.Assert(err == nil, "data row follows the header")
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "header is written once")
	r, err = dsio.NewCSVReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	got, err := r.ReadEntry()
	v.Assert(err == nil && u.EqVal(got.Value, row), "header is not returned as data")
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
	v.Reach("titles")
}

// H_C06_text: a cell of 0..3 bytes in a typed column is read as the value it denotes, or else as its text.
func H_C06_text() {
	typ := types[1+v.Case(3)]
	text := cell(v.Case(v.Bound(3, 4)))
	st := structure([]string{"string", "string"}, nil, 1, "")
	sink := &u.Sink{}
	w, err := dsio.NewCSVWriter(st, sink)
	v.Assert(err == nil, "writer opens")
	v.Assert(w.WriteEntry(dsio.Entry{Value: []interface{}{text, "x"}}) == nil, "row is accepted")
	v.Assert(w.Close() == nil, "writer closes")
	r, err := dsio.NewCSVReader(structure([]string{typ, "string"}, nil, 1, ""), &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	got, err := r.ReadEntry()
	v.Assert(err == nil, "the row is read")
	row, ok := got.Value.([]interface{})
	v.Assert(ok && len(row) == 2, "the row has its cells")
	var want interface{} = text
	switch typ {
	case "integer":
		if x, err := strconv.ParseInt(text, 10, 64); err == nil {
			want = x
		}
	case "number":
		if x, err := strconv.ParseFloat(text, 64); err == nil {
			want = x
		}
	case "boolean":
		if x, err := strconv.ParseBool(text); err == nil {
			want = x
		}
	}
	if want != text {
		v.Reach("value")
	} else {
		v.Reach("text")
	}
	v.Assert(u.EqVal(row[0], want), "a cell is the value it denotes, or its text")
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
}

// H_C06_schema: every shape of column schema (type absent, empty list, list, not an object) opens without a panic.
func H_C06_schema() {
	var col interface{}
	switch v.Case(6) {
	case 0:
		col = map[string]interface{}{}
	case 1:
		col = map[string]interface{}{"type": []interface{}{}}
	case 2:
		col = map[string]interface{}{"type": []interface{}{"string", "null"}}
	case 3:
		col = map[string]interface{}{"type": []interface{}{nil}}
	case 4:
		col = "string"
	case 5:
		col = map[string]interface{}{"type": 5, "title": 6}
	}
	st := structure([]string{"string"}, nil, v.Pick(3), "")
	st.Schema["items"].(map[string]interface{})["items"] = []interface{}{col}
	roundtrip(st, [][]interface{}{{cell(1)}}, 64)
	v.Reach("schema")
}

// H_C06_many: 1 to 300 rows or 1 to 40 columns with an arbitrary letter and number in each, header row on or off.
func H_C06_many() {
	k := v.Case(16)
	rows, cols := 2, 2
	if k < 10 {
		rows = []int{9, 10, 11, 64, 100, 128, 255, 256, 257, 300}[k]
	} else {
		cols = []int{1, 5, 10, 26, 27, 40}[k-10]
	}
	v.Steps(40000000)
	header := 2 * v.Pick(2)
	var ts, titles []string
	for i := 0; i < cols; i++ {
		ts = append(ts, []string{"string", "integer", "boolean"}[i%3])
		titles = append(titles, "t")
	}
	c := v.Byte()
	v.Assume(v.And(c >= 'a', c <= 'z'))
	b := v.Bool()
	var data [][]interface{}
	for i := 0; i < rows; i++ {
		row := make([]interface{}, cols)
		for j := range row {
			switch j % 3 {
			case 0:
				row[j] = string([]byte{c, byte('a' + i%26)})
			case 1:
				row[j] = int64(1000*j + i)
			case 2:
				row[j] = b
			}
		}
		data = append(data, row)
	}
	roundtrip(structure(ts, titles, header, ""), data, 64)
	v.Reach("many")
}

// H_C06_long: cells with lengths around the buffers of the reader (64) and writer (4096), ending in an arbitrary byte, followed by another cell and row.
func H_C06_long() {
	n := []int{14, 15, 16, 62, 63, 64, 65, 127, 128, 4090, 4094, 4095, 4096, 4097, 8192}[v.Case(15)]
	v.Steps(30000000)
	long := make([]byte, n)
	for i := range long {
		long[i] = 'x'
	}
	where := v.Pick(2)
	e := cell(1)
	s := string(long) + e
	if where == 1 {
		s = e + string(long)
	}
	roundtrip(structure([]string{"string", "string"}, []string{"a", "b"}, 2*v.Pick(2), ""), [][]interface{}{{s, "y"}, {"z", s}}, 64)
	v.Reach("long")
}

// H_C06_options: cells of 0..2 (3) arbitrary bytes with lazy quotes and variadic fields in any combination.
func H_C06_options() {
	a := v.Case(v.Bound(3, 4))
	st := structure([]string{"string", "string"}, []string{"a", "b"}, 2*v.Pick(2), "")
	if st.FormatConfig == nil {
		st.FormatConfig = map[string]interface{}{}
	}
	switch v.Pick(3) {
	case 0:
		st.FormatConfig["lazyQuotes"] = true
	case 1:
		st.FormatConfig["variadicFields"] = true
	case 2:
		st.FormatConfig["lazyQuotes"], st.FormatConfig["variadicFields"] = true, true
	}
	roundtrip(st, [][]interface{}{{cell(a), "x"}, {"y", cell(1)}}, 64)
	v.Reach("options")
}

// Package c21 checks XLSX bodies with typed columns. The spreadsheet library (excelize) is replaced by a stand-in with
// the same calls and treatment of sheets, rows and cells while paths are explored; replays use the real one.
package c21

import (
	"encoding/json"
	"io"
	"strconv"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verifh/u"
	"verifh/v"
)

var types = []string{"string", "integer", "boolean", "number", "object", "array"}

func structure(sheet string, cols ...string) *dataset.Structure {
	items := make([]interface{}, len(cols))
	for i, c := range cols {
		items[i] = map[string]interface{}{"title": "c" + strconv.Itoa(i), "type": c}
	}
	st := &dataset.Structure{Format: "xlsx", Schema: map[string]interface{}{
		"type":  "array",
		"items": map[string]interface{}{"type": "array", "items": items},
	}}
	if sheet != "" {
		st.FormatConfig = map[string]interface{}{"sheetName": sheet}
	}
	return st
}

// cell is arbitrary printable ASCII text of n bytes.
func cell(n int) string {
	s := v.String(n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] >= 0x20 && s[i] < 0x7f)
	}
	return s
}

func value(typ string, text int) interface{} {
	switch typ {
	case "string":
		return cell(text)
	case "integer":
		return []int64{0, -1, 7, 1234567, -9223372036854775808}[v.Pick(5)]
	case "boolean":
		return v.Bool()
	case "number":
		return []float64{1.5, -0.25, 1e21, 12345678, 0, 1e-7, 0.30000000000000004, -123456.7890123}[v.Pick(8)]
	case "object":
		return map[string]interface{}{"a": cell(1), "b,\"": nil}
	case "array":
		return []interface{}{cell(1), true, []interface{}{}, 1.5}
	}
	return nil
}

func write(st *dataset.Structure, w io.Writer, rows [][]interface{}) {
	x, err := dsio.NewEntryWriter(st, w)
	v.Assert(err == nil, "writer opens")
	v.Assert(x.Structure() == st, "a writer keeps its structure")
	for i, r := range rows {
		v.Assert(x.WriteEntry(dsio.Entry{Index: i, Value: r}) == nil, "row is accepted")
	}
	v.Assert(x.Close() == nil, "writer closes")
}

func read(st *dataset.Structure, data []byte, rows [][]interface{}) {
	var src io.Reader = &u.Src{Data: data}
	if len(rows) == 1 && v.Bool() {
		src = u.OneByte(data)
	}
	r, err := dsio.NewEntryReader(st, src)
	v.Assert(err == nil, "reader opens")
	v.Assert(r.Structure() == st, "a reader keeps its structure")
	for i, want := range rows {
		got, err := r.ReadEntry()
		v.Assert(err == nil, "each row is read back")
		v.Assert(got.Index == i && got.Key == "", "rows are numbered")
		v.Assert(u.EqVal(got.Value, want), "the row read equals the row written")
	}
	for i := 0; i < 2; i++ {
		_, err = r.ReadEntry()
		v.Assert(err == io.EOF, "end-of-file after the last row")
	}
	v.Assert(r.Close() == nil, "reader closes")
}

// H_C21_types: every pair of column types, 0..2 rows, the default sheet, a named one or the default one by name.
func H_C21_types() {
	k := v.Case(len(types) * len(types))
	cols := []string{types[k%len(types)], types[k/len(types)]}
	st := structure([]string{"", "other", "Sheet1"}[v.Pick(3)], cols...)
	rows := make([][]interface{}, v.Pick(3))
	for i := range rows {
		if i == len(rows)-1 {
			rows[i] = []interface{}{value(cols[0], 1), value(cols[1], 1)}
			continue
		}
		plain := map[string]interface{}{"string": "x", "integer": int64(-7), "boolean": true, "number": 2.5, "object": map[string]interface{}{"z": "y"}, "array": []interface{}{}}
		rows[i] = []interface{}{plain[cols[0]], plain[cols[1]]}
	}
	sink := &u.Sink{}
	write(st, sink, rows)
	read(st, sink.B, rows)
	v.Reach("types")
}

// H_C21_integer: one row with any integer of up to 64 bits.
func H_C21_integer() {
	rows := [][]interface{}{{u.SmallInt(), "x"}}
	st := structure("", "integer", "string")
	sink := &u.Sink{}
	write(st, sink, rows)
	read(st, sink.B, rows)
	v.Reach("integer")
}

// H_C21_text: a cell of 0..3 (4) printable bytes in a typed column is read as the value it denotes, or else as its text.
func H_C21_text() {
	typ := types[v.Case(len(types))]
	n := v.Pick(v.Bound(4, 5))
	s := cell(n)
	if typ == "number" {
		s = []string{"", "1.5", "-2", "x", "1e3", "0x", "1 ", "+1"}[v.Pick(8)]
	}
	sink := &u.Sink{}
	write(structure("", "string", "string"), sink, [][]interface{}{{s, "end"}})
	var want interface{} = s
	switch typ {
	case "integer":
		if x, err := strconv.ParseInt(s, 10, 64); err == nil {
			want = x
		}
	case "number":
		if x, err := strconv.ParseFloat(s, 64); err == nil {
			want = x
		}
	case "boolean":
		// the accepted spellings are those of the standard library
		if x, err := strconv.ParseBool(s); err == nil {
			want = x
		}
	case "object":
		x := map[string]interface{}{}
		if json.Unmarshal([]byte(s), &x) == nil {
			want = x
			if x == nil {
				return
			}
		}
	case "array":
		x := []interface{}{}
		if json.Unmarshal([]byte(s), &x) == nil {
			want = x
			if x == nil {
				return
			}
		}
	}
	read(structure("", typ, "string"), sink.B, [][]interface{}{{want, "end"}})
	v.Reach("text")
}

// H_C21_shape: rows of 1..3 cells in a table of 2 columns, in any order: rows that are too short or just as long keep their types, cells never move between rows or columns.
func H_C21_shape() {
	st := structure("", "integer", "string")
	var rows, back [][]interface{}
	for i := 0; i < 3; i++ {
		n := 1 + v.Pick(3)
		a, b := int64(i+1), cell(1)
		row := []interface{}{a, b, "w"}[:n]
		rows = append(rows, row)
		if n < 3 {
			back = append(back, row)
		} else {
			back = append(back, nil)
		}
	}
	sink := &u.Sink{}
	write(st, sink, rows)
	r, err := dsio.NewEntryReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	for i, want := range back {
		got, err := r.ReadEntry()
		v.Assert(err == nil && got.Index == i, "each row is read back")
		arr, ok := got.Value.([]interface{})
		v.Assert(ok && len(arr) == len(rows[i]), "a row has as many cells as were written")
		if want != nil {
			v.Assert(u.EqVal(arr, want), "the row read equals the row written")
		} else {
			v.Assert(u.EqVal(arr[1], rows[i][1]) && u.EqVal(arr[2], "w"), "surplus cells do not move others")
		}
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
	v.Reach("shape")
}

// H_C21_wide: tables of up to 760 columns (past Z and ZZ), each with its own value, one of them an arbitrary character, and of up to 120 rows.
func H_C21_wide() {
	v.Steps(40000000)
	n := []int{1, 25, 26, 27, 28, 52, 53, 120, 702, 703, 728, 760}[v.Case(12)]
	cols := make([]string, n)
	row := make([]interface{}, n)
	for i := range cols {
		cols[i] = "string"
		row[i] = strconv.Itoa(i)
	}
	row[n-1] = cell(1)
	rows := [][]interface{}{row}
	if v.Bool() && n <= 120 {
		rows = nil
		cols = []string{"integer", "string"}
		for i := 0; i < n; i++ {
			rows = append(rows, []interface{}{int64(i), "x"})
		}
		rows[n-1][1] = cell(1)
	}
	st := structure("", cols...)
	sink := &u.Sink{}
	write(st, sink, rows)
	r, err := dsio.NewEntryReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	for i, want := range rows {
		got, err := r.ReadEntry()
		v.Assert(err == nil && got.Index == i, "each row is read back")
		v.Assert(u.EqVal(got.Value, want), "the row read equals the row written")
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
	v.Reach("wide")
}

// H_C21_nulls: missing values in columns of every type are read back as empty text or null, next to any character.
func H_C21_nulls() {
	typ := append(types, "null")[v.Case(len(types)+1)]
	s := cell(1)
	sink := &u.Sink{}
	st := structure("", typ, "string", typ)
	write(st, sink, [][]interface{}{{nil, s, nil}, {nil, nil, nil}, {nil, s, nil}})
	r, err := dsio.NewEntryReader(st, &u.Src{Data: sink.B})
	v.Assert(err == nil, "reader opens")
	for i := 0; i < 3; i++ {
		e, err := r.ReadEntry()
		v.Assert(err == nil && e.Index == i, "each row is read back")
		row, ok := e.Value.([]interface{})
		v.Assert(ok && len(row) == 3, "a row has a value per column")
		for _, j := range []int{0, 2} {
			if typ == "null" {
				v.Assert(row[j] == nil, "null columns hold null")
			} else {
				v.Assert(u.EqVal(row[j], ""), "a missing value is read as empty text")
			}
		}
		if i != 1 {
			v.Assert(u.EqVal(row[1], s), "missing values leave others alone")
		} else {
			v.Assert(u.EqVal(row[1], ""), "a missing value is read as empty text")
		}
	}
	_, err = r.ReadEntry()
	v.Assert(err == io.EOF, "end-of-file after the last row")
	v.Reach("nulls")
}

// H_C21_reject: what is no row or holds an unsupported value is an error and leaves no trace; compression, schemas that describe no table, sheets that do not exist and data of 0..4 bytes that is no workbook are errors; every shape of column schema opens without a panic.
func H_C21_reject() {
	switch v.Case(6) {
	case 0:
		st := structure("", "string", "string")
		sink := &u.Sink{}
		w, err := dsio.NewEntryWriter(st, sink)
		v.Assert(err == nil, "writer opens")
		var bad interface{}
		switch v.Pick(5) {
		case 0:
			bad = map[string]interface{}{"a": 1}
		case 1:
			bad = "text"
		case 2:
			bad = []interface{}{int8(1)}
		case 3:
			bad = []interface{}{"x", struct{}{}}
		case 4:
			bad = []interface{}{"x", uint8(200)}
		}
		s := cell(1)
		first := v.Bool()
		if first {
			v.Assert(w.WriteEntry(dsio.Entry{Value: []interface{}{s, "1"}}) == nil, "row is accepted")
		}
		v.Assert(w.WriteEntry(dsio.Entry{Value: bad}) != nil, "what is no row is an error")
		v.Assert(w.WriteEntry(dsio.Entry{Value: []interface{}{s, "2"}}) == nil, "row is accepted")
		v.Assert(w.Close() == nil, "writer closes")
		rows := [][]interface{}{{s, "2"}}
		if first {
			rows = [][]interface{}{{s, "1"}, {s, "2"}}
		}
		read(st, sink.B, rows)
		v.Reach("rows")
	case 1:
		st := structure("", "string")
		st.Compression = []string{"gzip", "zst", cell(2)}[v.Pick(3)]
		_, err := dsio.NewEntryWriter(st, &u.Sink{})
		v.Assert(err != nil, "compression is not supported")
		_, err = dsio.NewEntryReader(st, &u.Src{})
		v.Assert(err != nil, "compression is not supported")
		v.Reach("compression")
	case 2:
		st := structure("", "string")
		st.Schema = []map[string]interface{}{nil, {}, {"type": "array"}, {"type": "object"}}[v.Pick(4)]
		_, err := dsio.NewEntryWriter(st, &u.Sink{})
		v.Assert(err != nil, "a table needs a schema")
		_, err = dsio.NewEntryReader(st, &u.Src{})
		v.Assert(err != nil, "a table needs a schema")
		v.Reach("schema")
	case 3:
		sink := &u.Sink{}
		write(structure("one", "string"), sink, [][]interface{}{{"x"}})
		name := v.String(3)
		for i := range name {
			v.Assume(name[i] >= 'a' && name[i] <= 'z')
		}
		r, err := dsio.NewEntryReader(structure(name, "string"), &u.Src{Data: sink.B})
		if name != "one" {
			v.Assert(err != nil, "a sheet that does not exist is an error")
			return
		}
		v.Assert(err == nil, "reader opens")
		e, err := r.ReadEntry()
		v.Assert(err == nil && u.EqVal(e.Value, []interface{}{"x"}), "a sheet is found by its name")
		v.Reach("sheet")
	case 4:
		data := v.Bytes(v.Pick(5))
		r, err := dsio.NewEntryReader(structure("", "string"), &u.Src{Data: data})
		if err == nil {
			_, err = r.ReadEntry()
		}
		v.Assert(err != nil && err != io.EOF, "what is no workbook is an error")
		v.Reach("data")
	case 5:
		c := map[string]interface{}{"title": "a"}
		switch v.Pick(5) {
		case 0:
			c["type"] = []interface{}{}
		case 1:
			c["type"] = []interface{}{"string", "integer"}
		case 2:
			c["type"] = 7
		case 3:
			c["type"] = cell(2)
		}
		st := structure("", "string")
		st.Schema["items"].(map[string]interface{})["items"] = []interface{}{c}
		sink := &u.Sink{}
		write(st, sink, [][]interface{}{{"x"}})
		read(st, sink.B, [][]interface{}{{"x"}})
		v.Reach("column")
	}
}

// H_C21_faults: a sink that fails or stops short is reported by closing; a source that fails is reported by opening.
func H_C21_faults() {
	st := structure("", "string")
	rows := [][]interface{}{{cell(1)}}
	sink := &u.Sink{}
	write(st, sink, rows)
	if v.Bool() {
		w, err := dsio.NewEntryWriter(st, failing{})
		if err == nil {
			err = w.WriteEntry(dsio.Entry{Value: rows[0]})
		}
		if err == nil {
			err = w.Close()
		}
		v.Assert(err != nil, "a failed write of the sink is reported")
		v.Reach("sink")
		return
	}
	src := u.Chunked(sink.B, 0)
	if n := v.Pick(3); n > 0 {
		src.Data = src.Data[:len(src.Data)*n/3]
	}
	src.Err = u.ErrSource
	r, err := dsio.NewEntryReader(st, src)
	if err == nil {
		_, err = r.ReadEntry()
	}
	v.Assert(err != nil && err != io.EOF, "a failed read of the source is reported")
	v.Reach("source")
}

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, u.ErrSource }

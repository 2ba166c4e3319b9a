// Package c20 checks structure detection.
package c20

import (
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

// body is a file that delivers data at once (0), one byte per read (1), with two arbitrary splits (2), with end-of-file together
// with the last bytes (3), or n bytes per read.
func body(name string, data []byte, n int) *qfs.Memfile {
	if n == 0 {
		return qfs.NewMemfileBytes(name, data)
	}
	s := &u.Src{Data: data}
	switch n {
	case 1:
		s = u.OneByte(data)
	case 2:
		s = u.Chunked(data, 2)
	case 3:
		s.ErrOK = true
	default:
		for i := n; i < len(data); i += n {
			s.Split = append(s.Split, i)
		}
	}
	return qfs.NewMemfileReaderSize(name, s, int64(len(data)))
}

// readBody reads what is left of the dataset's body.
func readBody(ds *dataset.Dataset, max int) ([]byte, error) {
	f := ds.BodyFile()
	v.Assert(f != nil, "the body file is kept")
	var out []byte
	p := make([]byte, 16)
	for i := 0; i < max+20; i++ {
		n, err := f.Read(p)
		out = append(out, p[:n]...)
		if err != nil {
			if err == io.EOF {
				return out, nil
			}
			return out, err
		}
	}
	v.Assert(false, "the body ends")
	return out, nil
}

func schemaType(st *dataset.Structure) string {
	s, _ := st.Schema["type"].(string)
	return s
}

// detected runs detection over a body and checks that the body is left whole.
func detected(name string, data []byte, chunk int) (*dataset.Structure, error) {
	ds := &dataset.Dataset{}
	ds.SetBodyFile(body(name, data, chunk))
	err := detect.Structure(ds)
	got, rerr := readBody(ds, len(data))
	v.Assert(rerr == nil, "the body stays readable")
	v.Assert(u.EqBytes(got, data), "the body is left whole")
	v.Assert(ds.BodyFile().FileName() == name, "the body keeps its name")
	return ds.Structure, err
}

// H_C20_json: arbitrary bodies of up to 4 bytes, arbitrary splits.
func H_C20_json() {
	n := v.Case(v.Bound(5, 7))
	chunk := v.Pick(4)
	data := v.Bytes(n)
	st, err := detected("body.json", data, chunk)
	want := ""
	for i, c := range data {
		_ = i
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			continue
		}
		if c == '[' {
			want = "array"
		} else if c == '{' {
			want = "object"
		}
		break
	}
	if want == "" {
		v.Assert(err != nil, "a body that is no JSON array or object is rejected")
		v.Reach("rejected")
		return
	}
	v.Assert(err == nil, "a JSON array or object is accepted")
	v.Assert(st.Format == "json" && st.Compression == "", "the format follows the name")
	v.Assert(schemaType(st) == want, "the top-level type follows the first character")
	v.Reach(want)
}

// H_C20_json_space: leading white space around the size of the detection buffer.
func H_C20_json_space() {
	n := 98 + v.Case(5)
	chunk := []int{0, 50, 99, 100, 101}[v.Pick(5)]
	sp := []byte(strings.Repeat(" ", n))
	sp[v.Pick(2)*(n-1)] = []byte("\t\n\r")[v.Pick(3)]
	obj := v.Bool()
	c := byte('[')
	if obj {
		c = '{'
	}
	data := append(sp, c, v.Byte())
	st, err := detected("body.json", data, chunk)
	v.Assert(err == nil, "leading white space is skipped")
	v.Assert((schemaType(st) == "object") == obj, "the top-level type follows the first character")
	v.Reach("space")
}

// H_C20_cbor: arbitrary bodies of up to 3 bytes, arbitrary splits.
func H_C20_cbor() {
	n := v.Case(4)
	chunk := v.Pick(4)
	data := v.Bytes(n)
	st, err := detected("body.cbor", data, chunk)
	switch {
	case n > 0 && data[0] >= 0x80 && data[0] <= 0x9f:
		v.Assert(err == nil && st.Format == "cbor" && schemaType(st) == "array", "CBOR arrays are detected")
		v.Reach("array")
	case n > 0 && data[0] >= 0xa0 && data[0] <= 0xbf:
		v.Assert(err == nil && st.Format == "cbor" && schemaType(st) == "object", "CBOR maps are detected")
		v.Reach("object")
	default:
		v.Assert(err != nil, "CBOR that is no array or map is rejected")
		v.Reach("rejected")
	}
}

// H_C20_ndjson: newline delimited bodies are arrays.
func H_C20_ndjson() {
	name := []string{"b.ndjson", "b.jsonl"}[v.Pick(2)]
	data := v.Bytes(v.Pick(4))
	st, err := detected(name, data, v.Pick(3))
	v.Assert(err == nil && st.Format == "ndjson" && schemaType(st) == "array", "NDJSON bodies are arrays")
	v.Reach("ndjson")
}

var cells = []struct{ text, typ string }{
	{"12", "integer"}, {"1.5", "number"}, {"x", "string"}, {"true", "boolean"}, {"", "string"},
}

func column(st *dataset.Structure, i int) (title, typ string) {
	items := st.Schema["items"].(map[string]interface{})["items"].([]interface{})
	c := items[i].(map[string]interface{})
	title, _ = c["title"].(string)
	typ, _ = c["type"].(string)
	return
}

func columns(st *dataset.Structure) int {
	return len(st.Schema["items"].(map[string]interface{})["items"].([]interface{}))
}

// H_C20_csv: rows of cells of every type, with a header row or not, ends of lines of every kind, arbitrary splits.
func H_C20_csv() {
	header := v.Case(2) == 1
	nl := []string{"\n", "\r\n", "\r"}[v.Case(3)]
	rows := 1 + v.Case(v.Bound(3, 4))
	chunk := []int{0, 1, 3, 4}[v.Pick(4)]
	text := ""
	if header {
		text = "one,two" + nl
	}
	tally := [2]map[string]int{{}, {}}
	for r := 0; r < rows; r++ {
		k := [2]int{v.Pick(len(cells)), 0}
		if r == 0 {
			k[1] = v.Pick(2) * 3
		}
		text += cells[k[0]].text + "," + cells[k[1]].text
		if r < rows-1 || v.Bool() {
			text += nl
		}
		for i := range k {
			tally[i][cells[k[i]].typ]++
		}
	}
	st, err := detected("body.csv", []byte(text), chunk)
	v.Assert(err == nil && st.Format == "csv" && schemaType(st) == "array", "CSV bodies are arrays")
	v.Assert(columns(st) == 2, "every column is detected")
	opt := st.FormatConfig
	h, _ := opt["headerRow"].(bool)
	v.Assert(h == header, "the header row is detected")
	vf, _ := opt["variadicFields"].(bool)
	v.Assert(!vf, "rows of one length are not variadic")
	for i := 0; i < 2; i++ {
		title, typ := column(st, i)
		if header {
			v.Assert(title == []string{"one", "two"}[i], "columns are named by the header")
		} else {
			v.Assert(title == []string{"field_1", "field_2"}[i], "columns without a header are numbered")
		}
		for _, n := range tally[i] {
			v.Assert(n <= tally[i][typ], "a column's type is one that occurs most often")
		}
	}
	v.Reach("csv")
}

// H_C20_csv_cells: an arbitrary byte in a cell: the same structure whatever the splits, and the body is left whole.
func H_C20_csv_cells() {
	c := v.Bytes(v.Bound(2, 3))
	data := []byte("1,2\n" + string(c) + ",4")
	a, err1 := detected("body.csv", data, 0)
	b, err2 := detected("body.csv", data, 1)
	v.Assert((err1 == nil) == (err2 == nil), "acceptance does not depend on read sizes")
	if err1 != nil {
		return
	}
	v.Assert(columns(a) == columns(b), "columns do not depend on read sizes")
	for i := 0; i < columns(a); i++ {
		t1, y1 := column(a, i)
		t2, y2 := column(b, i)
		v.Assert(t1 == t2 && y1 == y2, "the schema does not depend on read sizes")
	}
	v.Assert(len(a.FormatConfig) == len(b.FormatConfig), "the format configuration does not depend on read sizes")
	for k, x := range a.FormatConfig {
		v.Assert(b.FormatConfig[k] == x, "the format configuration does not depend on read sizes")
	}
	v.Reach("cells")
}

// H_C20_csv_variadic: rows of different lengths are reported.
func H_C20_csv_variadic() {
	n := [3]int{1 + v.Pick(3), 1 + v.Pick(3), 1 + v.Pick(3)}
	text := ""
	for _, k := range n {
		text += strings.Repeat("1,", k-1) + "1\n"
	}
	st, err := detected("body.csv", []byte(text), v.Pick(2))
	v.Assert(err == nil && columns(st) == n[0], "the first row gives the columns")
	vf, _ := st.FormatConfig["variadicFields"].(bool)
	v.Assert(vf == (n[1] != n[0] || n[2] != n[0]), "rows of different lengths are reported")
	v.Reach("variadic")
}

// H_C20_filename: arbitrary names of up to 8 bytes.
func H_C20_filename() {
	n := v.Case(v.Bound(7, 9))
	var s string
	switch v.Case(3) {
	case 0:
		s = v.String(n)
	case 1:
		s = "a" + []string{".csv", ".cbor", ".json", ".xlsx", ".ndjson", ".jsonl", ".xml", ""}[v.Pick(8)] + v.String(n%4) + []string{"", ".gz", ".zst", ".gzip", ".zstd", ".bz2"}[v.Pick(6)]
	case 2:
		s = "a.csv." + v.String(n%5)
	}
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '\'' && s[i] != '"' && s[i] != '\\')
	}
	f, c, err := detect.FormatFromFilename(s)
	ext := func(s string) string {
		for i := len(s) - 1; i >= 0 && s[i] != '/'; i-- {
			if s[i] == '.' {
				return s[i:]
			}
		}
		return ""
	}
	e := ext(s)
	wc := compression.FmtNone
	switch e {
	case ".gz", ".gzip":
		wc = compression.FmtGZip
	case ".zst", ".zstd":
		wc = compression.FmtZStandard
	}
	if wc != compression.FmtNone {
		e = ext(s[:len(s)-len(e)])
	}
	wf := dataset.UnknownDataFormat
	switch e {
	case ".cbor":
		wf = dataset.CBORDataFormat
	case ".json":
		wf = dataset.JSONDataFormat
	case ".csv":
		wf = dataset.CSVDataFormat
	case ".xml":
		wf = dataset.XMLDataFormat
	case ".xlsx":
		wf = dataset.XLSXDataFormat
	case ".jsonl", ".ndjson":
		wf = dataset.NDJSONDataFormat
	}
	v.Assert((err == nil) == (wf != dataset.UnknownDataFormat), "exactly the known extensions are accepted")
	v.Assert(f == wf, "the format follows the extension")
	v.Assert(c == wc, "the compression follows the extension")
	v.Reach("name")
}

// H_C20_keep: fields that are already set are kept, and a complete structure is left alone and needs no body; the body's size stays known (or unknown).
func H_C20_keep() {
	st := &dataset.Structure{}
	name := []string{"b.csv", "b.json"}[v.Pick(2)]
	data := []byte("1,2\n")
	if name == "b.json" {
		data = []byte("[1]")
	}
	format, schema, config, depth := "", map[string]interface{}(nil), map[string]interface{}(nil), 0
	if k := v.Pick(3); k > 0 {
		format = []string{"csv", "json"}[k-1]
		st.Format = format
	}
	if v.Bool() {
		schema = map[string]interface{}{"type": "object"}
		st.Schema = schema
	}
	if v.Bool() {
		config = map[string]interface{}{"x": "y"}
		st.FormatConfig = config
	}
	if v.Bool() {
		depth = 3
		st.Depth = depth
	}
	ds := &dataset.Dataset{Structure: st}
	size := int64(len(data))
	if v.Bool() {
		size = -1
		ds.SetBodyFile(qfs.NewMemfileReader(name, &u.Src{Data: data}))
	} else {
		ds.SetBodyFile(qfs.NewMemfileBytes(name, data))
	}
	v.Assert(detect.Structure(ds) == nil, "the structure is detected")
	v.Assert(ds.Structure == st && st.Depth == depth, "the structure is kept")
	guess := name[2:]
	if format != "" {
		v.Assert(st.Format == format, "a set format is kept")
	} else {
		v.Assert(st.Format == guess, "a missing format is detected")
	}
	if schema != nil {
		v.Assert(len(st.Schema) == 1 && st.Schema["type"] == "object", "a set schema is kept")
	} else {
		v.Assert(schemaType(st) == "array", "a missing schema is detected")
	}
	if config != nil {
		v.Assert(len(st.FormatConfig) == 1 && st.FormatConfig["x"] == "y", "a set format configuration is kept")
	} else if st.Format == guess && guess == "csv" {
		v.Assert(st.FormatConfig["lazyQuotes"] == true, "a missing format configuration is detected")
	} else {
		v.Assert(st.FormatConfig == nil, "no configuration is made up")
	}
	sf, ok := ds.BodyFile().(qfs.SizeFile)
	v.Assert(ok && sf.Size() == size, "the size of the body, if known, is kept")
	got, err := readBody(ds, len(data))
	v.Assert(err == nil && u.EqBytes(got, data), "the body is left whole")
	full := &dataset.Structure{Format: []string{"json", "cbor", "ndjson", "csv", "xlsx"}[v.Pick(5)], Schema: map[string]interface{}{"type": "array"}}
	configured := v.Bool()
	if configured {
		full.FormatConfig = map[string]interface{}{"x": "y"}
	}
	err = detect.Structure(&dataset.Dataset{Structure: full})
	v.Assert((err == nil) == (configured || full.Format != "csv" && full.Format != "xlsx"), "a complete structure needs no body, an incomplete one does")
	v.Assert(len(full.Schema) == 1 && (full.FormatConfig != nil) == configured, "a complete structure is left alone")
	none := &dataset.Dataset{Structure: &dataset.Structure{Format: "csv"}}
	v.Assert(detect.Structure(none) != nil && detect.Structure(nil) != nil, "a body is needed")
	v.Reach("keep")
}

// H_C20_header: a first row of two cells is a header unless a cell is blank, a number or a boolean.
func H_C20_header() {
	words := []string{"ab", "", " ", "7", "-1.5", "true", "false", "null", "1e3", "x1", "True", " 7 "}
	no := map[string]bool{"": true, " ": true, "7": true, "-1.5": true, "true": true, "false": true, "1e3": true, " 7 ": true}
	a, b := words[v.Pick(len(words))], words[v.Pick(len(words))]
	st, err := detected("body.csv", []byte(a+","+b+"\nx,y\n"), v.Pick(2))
	v.Assert(err == nil && columns(st) == 2, "every column is detected")
	h, _ := st.FormatConfig["headerRow"].(bool)
	v.Assert(h == !(no[a] || no[b]), "a first row without blank, numeric or boolean cells is a header")
	v.Reach("header")
}

// H_C20_tabular: the schema of rows held in memory.
func H_C20_tabular() {
	n := v.Pick(4)
	row := make([]interface{}, n)
	types := make([]string, n)
	for i := range row {
		k := v.Pick(6)
		row[i] = []interface{}{"s", int64(1), 1, 1.5, true, nil}[k]
		types[i] = []string{"string", "number", "number", "number", "boolean", "null"}[k]
	}
	sch, err := detect.TabularSchemaFromTabularData([]interface{}{row, []interface{}{}})
	v.Assert(err == nil, "rows have a schema")
	st := &dataset.Structure{Schema: sch}
	v.Assert(schemaType(st) == "array" && columns(st) == n, "every column is listed")
	seen := map[string]bool{}
	for i := range row {
		title, typ := column(st, i)
		v.Assert(typ == types[i], "a column has the type of its first value")
		v.Assert(title != "" && !seen[title], "column titles are distinct")
		seen[title] = true
	}
	for _, bad := range []interface{}{[]interface{}{}, []interface{}{"x"}, map[string]interface{}{}} {
		_, err := detect.TabularSchemaFromTabularData(bad)
		v.Assert(err != nil, "other data has no tabular schema")
	}
	v.Reach("tabular")
}

// H_C20_long: bodies of every streaming format longer than the buffers used to examine them (100 and 4096 bytes) are left whole.
func H_C20_long() {
	name := []string{"b.json", "b.csv", "b.cbor", "b.ndjson"}[v.Case(4)]
	n := []int{90, 99, 100, 101, 200, 4095, 4096, 4097, 8200}[v.Case(9)]
	chunk := []int{0, 3, 1000, 4096}[v.Pick(4)]
	data := make([]byte, n)
	for i := range data {
		data[i] = "12,34\n"[i%6]
	}
	at := []int{n - 1, n / 2, n - 30}[v.Pick(3)]
	data[at] = v.Byte()
	v.Assume(data[at] > ' ' && data[at] != '"')
	want := "array"
	switch name {
	case "b.json":
		data[0] = '['
	case "b.cbor":
		data[0] = 0xbf
		want = "object"
	}
	st, err := detected(name, data, chunk)
	v.Assert(err == nil && schemaType(st) == want, "the structure of a long body is detected")
	v.Reach(name)
}

// H_C20_majority: the type of a column is the one most of its cells have, also when the deciding cell is the last of
// hundreds of rows.
func H_C20_majority() {
	v.Steps(20000000)
	k := []int{3, 30, 700, 990}[v.Case(4)]
	chunk := []int{0, 5, 1000, 4096}[v.Case(4)]
	text := []byte("one,two\n")
	for i := 0; i < k; i++ {
		text = append(text, "x,1\n"...)
	}
	for i := 0; i < k; i++ {
		text = append(text, "1,x\n"...)
	}
	b := v.Byte()
	digit := b >= '0' && b <= '9'
	v.Assume(digit || b >= 'u' && b <= 'z')
	text = append(text, b, ',', 'y')
	st, err := detected("body.csv", text, chunk)
	v.Assert(err == nil && schemaType(st) == "array" && columns(st) == 2, "a long table is detected")
	_, typ := column(st, 0)
	if digit {
		v.Assert(typ == "integer", "the last cell decides for integers")
		v.Reach("integer")
	} else {
		v.Assert(typ == "string", "the last cell decides for text")
		v.Reach("string")
	}
	_, typ = column(st, 1)
	v.Assert(typ == "string", "the majority of cells are text")
}

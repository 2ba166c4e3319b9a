OBJ='''
func obj(f string) *dataset.Structure {
	return &dataset.Structure{Format: f, Schema: map[string]interface{}{"type": "object"}}
}
'''
def col(t): return 'map[string]interface{}{"title": "a", "type": "%s"}'%t
def csvst(*types): return '&dataset.Structure{Format: "csv", FormatConfig: map[string]interface{}{"headerRow": false}, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{%s}}}}'%', '.join(col(t) for t in types)

seed('cbor-prealloc','C02','dsio',[('dsio/cbor.go','''	buff := bytes.NewBuffer([]byte{})
	if _, err := io.CopyN(buff, r.rdr, int64(num)); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	return buff.Bytes(), nil
''','''	buff := make([]byte, num)
	if _, err := io.ReadFull(r.rdr, buff); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	return buff, nil
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), strings.NewReader("\\x81\\x5b\\x7f\\xff\\xff\\xff\\xff\\xff\\xff\\x00"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.ReadEntry(); err == nil {
		t.Fatal("expected an error")
	}
}
''','a byte string whose declared length is huge','the length is trusted for an allocation, which panics')

seed('cbor-half-sub','C04','dsio',[('dsio/cbor.go','num = math.Ldexp(frac, -24)','num = math.Ldexp(frac, -25)')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), strings.NewReader("\\x81\\xf9\\x00\\x01"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value != 1.0/(1<<24) {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a half-precision float with exponent zero','subnormal half floats decode to half their value')

seed('json-int-digits','C01','dsio',[('dsio/json.go','''		num, err := strconv.ParseInt(text, 10, 64)
''','''		if len(text) > 18 {
			// may not fit an int64
			return strconv.ParseFloat(text, 64)
		}
		num, err := strconv.ParseInt(text, 10, 64)
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewJSONReader(arr("json"), strings.NewReader(`[1234567890123456789]`))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value != int64(1234567890123456789) {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','an integer of nineteen digits that fits an int64','it is read as a float')

seed('csv-trim-lead','C06','dsio',[('dsio/csv.go','''			csvr.LazyQuotes = opts.LazyQuotes
''','''			csvr.LazyQuotes = opts.LazyQuotes
			csvr.TrimLeadingSpace = opts.HeaderRow
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := '''+csvst('string')+'''
	st.FormatConfig["headerRow"] = true
	r, err := NewCSVReader(st, strings.NewReader("a\\n b\\n"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != " b" {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a header row and a cell that starts with a space','the leading space is lost')

seed('csv-null-zero','C06','dsio',[('dsio/csv.go','''			if num, err := vals.ParseInteger([]byte(str)); err == nil {
''','''			if num, err := vals.ParseInteger([]byte(str)); err == nil || str == "" {
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := '''+csvst('string','integer')+'''
	r, err := NewCSVReader(st, strings.NewReader("a,\\n"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[1] != "" {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','an empty cell in an integer column','the missing value becomes the number 0')

seed('ndjson-blank','C07','dsio',[('dsio/ndjson.go','''	if err != nil && !(err == io.EOF && len(bytes.TrimSpace(line)) > 0) {
''','''	if err != nil && !(err == io.EOF && len(bytes.TrimSpace(line)) > 1) {
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewNDJSONReader(arr("ndjson"), strings.NewReader("12\\n3"))
	if err != nil {
		t.Fatal(err)
	}
	r.ReadEntry()
	e, err := r.ReadEntry()
	if err != nil || e.Value != 3.0 {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a last line of a single character without a newline','the last line is dropped')

seed('page-short','C09','dsio',[('dsio/streams.go','''	for r.Offset > 0 {
		_, err := r.Reader.ReadEntry()
		if err != nil {
			return Entry{}, err
		}
		r.Offset--
	}
''','''	for ; r.Offset > 0; r.Offset-- {
		if _, err := r.Reader.ReadEntry(); err != nil {
			return Entry{}, io.EOF
		}
	}
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewJSONReader(arr("json"), strings.NewReader("[1,2,x"))
	if err != nil {
		t.Fatal(err)
	}
	p := &PagedReader{Reader: r, Offset: 5, Limit: 2}
	w, err := NewEntryBuffer(arr("json"))
	if err != nil {
		t.Fatal(err)
	}
	if err := Copy(p, w); err == nil {
		t.Fatal("expected an error")
	}
}
''','a source that fails while entries before the offset are skipped','the failure is reported as a normal end')

seed('preview-lost','C24','preview',[('preview/preview.go','''		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
		if err != nil {
			log.Debugw("Reading Readme", "err", err.Error())
			return nil, err
		}
''','''		if err != nil {
			log.Debugw("Reading Readme", "err", err.Error())
			return nil, err
		}
		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
''')],
 imp('preview','context','errors','io','io/ioutil','strings','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
type once struct{ failed bool }

func (o *once) Read(p []byte) (int, error) {
	if !o.failed {
		o.failed = true
		return 0, errors.New("later")
	}
	return 0, io.EOF
}
func TestSeedDemo(t *testing.T) {
	ds := &dataset.Dataset{Readme: &dataset.Readme{}}
	ds.Readme.SetScriptFile(qfs.NewMemfileReader("readme.md", io.MultiReader(strings.NewReader("hello"), &once{})))
	if _, err := Create(context.Background(), ds); err == nil {
		t.Fatal("expected an error")
	}
	data, _ := ioutil.ReadAll(ds.Readme.ScriptFile())
	if string(data) != "hello" {
		t.Fatalf("%q", data)
	}
}
''','a readme file whose reading fails','what was read of the readme is lost from the source dataset')

seed('preview-copy-title','C24','preview',[('preview/preview.go','''			Format: "json",
			Schema: ds.Structure.Schema,
''','''			Format: "json",
			Schema: map[string]interface{}{"type": "array"},
''')],
 imp('preview','context','encoding/json','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "object"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(`{"a":1}`)))
	p, err := Create(context.Background(), ds)
	if err != nil {
		t.Fatal(err)
	}
	if s := string(p.Body.(json.RawMessage)); s != `{"a":1}` {
		t.Fatal(s)
	}
}
''','a body that is an object','the preview of an object body loses its keys')

seed('stats-long-text','C18','dsstats',[('dsstats/stats.go','''fmt.Sprintf("%s... %d chars (%d)", k.Key[:maxKeyLen], len(key), i)''','''fmt.Sprintf("%s... %d chars", k.Key[:maxKeyLen], len(key))'''),('dsstats/stats.go','for i, k := range top {','for _, k := range top {')],
 imp('dsstats','strings','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+'''
func TestSeedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{})
	acc.WriteEntry(dsio.Entry{Value: strings.Repeat("x", 50) + "a"})
	acc.WriteEntry(dsio.Entry{Value: strings.Repeat("x", 50) + "b"})
	acc.Close()
	if n := len(ToMap(acc)[0]["frequencies"].(map[string]int)); n != 2 {
		t.Fatal(n)
	}
}
''','two long texts of the same length that differ after the fortieth byte','their frequencies overwrite one another')

seed('stats-bool-first','C18','dsstats',[('dsstats/stats.go','''			if _, ok := acc.children[key]; !ok {
				acc.children[key] = newAccumulator(val)
			}
''','''			if ch, ok := acc.children[key]; !ok || ch.Type() == "null" {
				acc.children[key] = newAccumulator(val)
			}
''')],
 imp('dsstats','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+'''
func TestSeedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{})
	for i := 0; i < 2; i++ {
		acc.WriteEntry(dsio.Entry{Value: map[string]interface{}{"a": nil}})
	}
	acc.Close()
	if m := ToMap(acc)[0]; m["count"] != 2 {
		t.Fatal(m)
	}
}
''','an object column whose first values are null','the column restarts its count')

seed('validate-third','C27','validate',[('validate/data.go','\t\t\tstart = i\n','\t\t\tif start == 0 {\n\t\t\t\tstart = i\n\t\t\t}\n')],
 imp('validate','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+'''
func TestSeedDemo(t *testing.T) {
	data := make([]interface{}, 10002)
	for i := range data {
		data[i] = "a"
	}
	data[10001] = 1.0
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "string"}}}
	r, err := dsio.NewIdentityReader(st, data)
	if err != nil {
		t.Fatal(err)
	}
	errs, err := EntryReader(r)
	if err != nil || len(errs) != 1 || errs[0].PropertyPath != "/10001" {
		t.Fatal(errs, err)
	}
}
''','a body of more than two batches of 5000 entries with an invalid entry in the third','the entry is reported under the wrong position')

seed('signing-readme','C15','.',[('dataset.go','''	if ds.Stats != nil && ds.Stats.Path != "" {
		sigComponents''','''	if ds.Stats != nil && ds.Stats.Path != "" && ds.BodyPath != "" {
		sigComponents''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	a := &Dataset{ID: "a", Stats: &Stats{Path: "/a"}}
	b := &Dataset{ID: "a", Stats: &Stats{Path: "/b"}}
	if string(a.SigningBytes()) == string(b.SigningBytes()) {
		t.Fatal("equal")
	}
}
''','a dataset with stats and no body path','datasets that differ in their stats path share signing bytes')

seed('transform-step-nil','C14','.',[('transform.go','''		reflect.DeepEqual(q.Steps, b.Steps) &&
''','''		len(q.Steps) == len(b.Steps) &&
''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	a := &Transform{Steps: []*TransformStep{{Name: "a"}}}
	b := &Transform{Steps: []*TransformStep{{Name: "b"}}}
	if a.ShallowCompare(b) {
		t.Fatal("equal")
	}
}
''','transforms with the same number of different steps','they compare as equal')

seed('body-bytes-empty','C29','.',[('dataset.go','''	if ds.BodyBytes != nil {
		bodyPath''','''	if len(ds.BodyBytes) > 0 {
		bodyPath''')],
 imp('dataset','context','io/ioutil','testing')+'''
func TestSeedDemo(t *testing.T) {
	ds := &Dataset{BodyBytes: []byte{}, BodyPath: "/x"}
	if err := ds.OpenBodyFile(context.Background(), nil); err != nil {
		t.Fatal(err)
	}
	if d, err := ioutil.ReadAll(ds.BodyFile()); err != nil || len(d) != 0 {
		t.Fatal(err)
	}
}
''','an inline body that is present and empty, together with a path','the path is resolved instead of using the inline bytes')

seed('transform-inline-keep','C29','.',[('transform.go','''	file := q.ScriptFile()
	if file == nil {
		return nil
	}
''','''	file := q.ScriptFile()
	if file == nil || q.Text != "" && q.ScriptPath == "" {
		return nil
	}
'''),('transform.go','''	q.Text = string(data)
	q.ScriptPath = ""
''','''	q.Text += string(data)
	q.ScriptPath = ""
''')],
 imp('dataset','context','testing','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	q := &Transform{Text: "abc", ScriptPath: "/x"}
	if err := q.InlineScriptFile(context.Background(), qfs.NewMemFS()); err != nil {
		t.Fatal(err)
	}
	if q.Text != "abc" {
		t.Fatal(q.Text)
	}
}
''','a transform that has both inline text and a script path','the text is doubled')

seed('isbool-tf','C17','vals',[('vals/type.go','"t", "f", "T", "F", "true"','"t", "f", "T", "F", "y", "n", "true"')],
 imp('vals','testing')+'''
func TestSeedDemo(t *testing.T) {
	v := []byte("y")
	if _, err := ParseType(v).Parse(v); err != nil {
		t.Fatal(err)
	}
}
''','the cell text y or n','a type is inferred whose parser rejects the cell')

seed('number-text-prec','C17','vals',[('vals/type.go',"strconv.FormatFloat(float64(num), 'g', -1, 64)","strconv.FormatFloat(float64(num), 'g', 16, 64)")],
 imp('vals','testing')+'''
func TestSeedDemo(t *testing.T) {
	f, _ := ParseNumber([]byte("0.12345678901234568"))
	s, err := TypeNumber.ValueToString(f)
	if err != nil {
		t.Fatal(err)
	}
	if g, _ := ParseNumber([]byte(s)); g != f {
		t.Fatal(s)
	}
}
''','a number that needs seventeen significant digits','printing it loses the last digit')

seed('kind-version','C16','.',[('data_format_config.go','''o.SheetName = sheetName''','''o.SheetName = strings.TrimSpace(sheetName)'''),('data_format_config.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	o, err := NewXLSXOptions(map[string]interface{}{"sheetName": " a"})
	if err != nil {
		t.Fatal(err)
	}
	if o.Map()["sheetName"] != " a" {
		t.Fatal(o.Map())
	}
}
''','a sheet name with surrounding spaces','the option changes on decode and encode')

seed('detect-long','C20','detect',[('detect/detect.go','''	tr := io.TeeReader(body, buf)
''','''	tr := io.TeeReader(io.LimitReader(body, 1<<12), buf)
''')],
 imp('detect','strings','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.csv", []byte("a,b\\n"+strings.Repeat("x,1\\n", 1000)+strings.Repeat("x,1.5\\n", 3000))))
	if err := Structure(ds); err != nil {
		t.Fatal(err)
	}
	cols := ds.Structure.Schema["items"].(map[string]interface{})["items"].([]interface{})
	if cols[1].(map[string]interface{})["type"] != "integer" {
		t.Log("first 2000 rows decide", cols)
	}
	ds = &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.csv", []byte("a\\n"+strings.Repeat("\\n", 5000)+"1\\n")))
	if err := Structure(ds); err != nil {
		t.Fatal(err)
	}
	cols = ds.Structure.Schema["items"].(map[string]interface{})["items"].([]interface{})
	if cols[0].(map[string]interface{})["type"] != "integer" {
		t.Fatal(cols)
	}
}
''','a body whose deciding rows lie beyond 4 KB','the column types follow from part of the body only')

seed('col-titles-case','C30','tabular',[('tabular/tabular.go','''		set[t] = struct{}{}
''','''		set[strings.ToLower(t)] = struct{}{}
'''),('tabular/tabular.go','''set[t]; present''','''set[strings.ToLower(t)]; present''')],
 imp('tabular','testing')+'''
func TestSeedDemo(t *testing.T) {
	if err := (Columns{{Title: "a"}, {Title: "A"}}).ValidMachineTitles(); err != nil {
		t.Fatal(err)
	}
}
''','two titles that differ only in case','distinct titles are called duplicates')

seed('buffer-close-reuse','C32','dsio',[('dsio/entry_buffer.go','''	return b.w.Close()
''','''	if len(b.buf.Bytes()) == 0 {
		return nil
	}
	return b.w.Close()
''')],
 imp('dsio','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	b, err := NewEntryBuffer(arr("json"))
	if err != nil {
		t.Fatal(err)
	}
	if err := b.Close(); err != nil {
		t.Fatal(err)
	}
	if string(b.Bytes()) != "[]" {
		t.Fatalf("%q", b.Bytes())
	}
}
''','a buffer that is closed before anything was flushed to it','nothing is written')

seed('cr-last','C08','dsio/replacecr',[('dsio/replacecr/replace_cr.go','(err != nil && err.Error() == "EOF")','(err != nil && err.Error() == "EOF" && n > 0)')],
 imp('replacecr','io/ioutil','strings','testing')+'''
func TestSeedDemo(t *testing.T) {
	d, err := ioutil.ReadAll(Reader(strings.NewReader(strings.Repeat("a", 512) + "\\r")))
	if err != nil {
		t.Fatal(err)
	}
	if !strings.HasSuffix(string(d), "\\r\\n") {
		t.Fatalf("%q", d[500:])
	}
}
''','a final carriage return that is the first byte of a read','no line feed is added')

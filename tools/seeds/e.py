VZ='''
func page(st *dataset.Structure, body, script string) (*dataset.Dataset, string, error) {
	ds := &dataset.Dataset{Name: "n", Peername: "p", Structure: st, Viz: &dataset.Viz{Format: "html"}}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte(script)))
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(body)))
	f, err := Render(ds)
	if err != nil {
		return ds, "", err
	}
	got, err := ioutil.ReadAll(f)
	return ds, string(got), err
}
'''
VI=imp('dsviz','io/ioutil','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')
seed('viz-zero-limit','C19','dsviz',[('dsviz/render.go','	if offset >= 0 && limit >= 0 {\n','	if offset >= 0 && limit > 0 {\n')],VI+VZ+'''
func TestSeedDemo(t *testing.T) {
	_, got, err := page(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, "[1,2]", "{{ len (bodyEntries 0 0) }}")
	if err != nil || got != "0" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a template that asks for no entries','all entries are given')
seed('viz-script-lost','C19','dsviz',[('dsviz/render.go','''	// restore consumed script file
	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))

''',''),('dsviz/render.go','''	// do the render
''','''	// restore consumed script file
	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))

	// do the render
''')],VI+VZ+'''
func TestSeedDemo(t *testing.T) {
	ds, _, err := page(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, "[1,2]", "{{ nosuch }}")
	if err == nil {
		t.Fatal("no error")
	}
	data, _ := ioutil.ReadAll(ds.Viz.ScriptFile())
	if string(data) != "{{ nosuch }}" {
		t.Fatalf("%q", data)
	}
}
''','a template that does not parse','the script file stays consumed')
seed('viz-istype-int','C19','dsviz',[('dsviz/render.go','		case float64, int, int64:\n','		case float64, int:\n')],VI+VZ+'''
func TestSeedDemo(t *testing.T) {
	_, got, err := page(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, "[7]", `{{ range allBodyEntries }}{{ isType . "number" }}{{ end }}`)
	if err != nil || got != "true" {
		t.Fatalf("%q %v", got, err)
	}
}
''','an integer in the body','isType does not call it a number')
seed('viz-size-edge','C19','dsviz',[('dsviz/render.go','	case l >= gigabyte:\n','	case l > gigabyte:\n')],VI+VZ+'''
func TestSeedDemo(t *testing.T) {
	_, got, err := page(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, "[7]", `{{ filesize 1073741824 }}`)
	if err != nil || got != "1 GB" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a size of exactly one gigabyte','given as 1024 MBs')
seed('viz-object-key','C19','dsviz',[('dsviz/render.go','''		if tlt == "object" {
			obj[val.Key] = val.Value
''','''		if val.Key != "" {
			obj[val.Key] = val.Value
''')],VI+VZ+'''
func TestSeedDemo(t *testing.T) {
	_, got, err := page(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaObject}, `{"":"x"}`, `{{ range allBodyEntries }}{{ . }}{{ end }}`)
	if err != nil || got != "x" {
		t.Fatalf("%q %v", got, err)
	}
}
''','an object body with an empty key','its entry is missing')
XL='''
func rt(t *testing.T, typ string, rows ...[]interface{}) []interface{} {
	c := func(n, t string) interface{} { return map[string]interface{}{"title": n, "type": t} }
	st := &dataset.Structure{Format: "xlsx", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{c("a", typ), c("b", typ)}}}}
	buf := &bytes.Buffer{}
	w, err := NewXLSXWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i, r := range rows {
		if err := w.WriteEntry(Entry{Index: i, Value: r}); err != nil {
			t.Fatal(err)
		}
	}
	w.Close()
	r, err := NewXLSXReader(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	var out []interface{}
	for {
		e, err := r.ReadEntry()
		if err != nil {
			return out
		}
		out = append(out, e.Value)
	}
}
'''
XI=imp('dsio','bytes','reflect','testing','github.com/qri-io/dataset')
seed('xlsx-short-row','C21','dsio',[('dsio/xlsx.go','	if len(types) < len(strings) {\n','	if len(types) != len(strings) {\n')],XI+XL+'''
func TestSeedDemo(t *testing.T) {
	got := rt(t, "integer", []interface{}{int64(5)})
	if !reflect.DeepEqual(got, []interface{}{[]interface{}{int64(5)}}) {
		t.Fatalf("%#v", got)
	}
}
''','a row shorter than the columns','its cells come back as text')
seed('xlsx-float32','C21','dsio',[('dsio/xlsx.go',"			strs[i] = strconv.FormatFloat(x, 'f', -1, 64)\n		case bool:","			strs[i] = strconv.FormatFloat(x, 'f', 12, 64)\n		case bool:")],XI+XL+'''
func TestSeedDemo(t *testing.T) {
	row := []interface{}{0.1234567890123456, 1.5}
	got := rt(t, "number", row)
	if !reflect.DeepEqual(got, []interface{}{row}) {
		t.Fatalf("%#v", got)
	}
}
''','numbers with more than twelve decimals','they lose precision')
seed('xlsx-empty-obj','C21','dsio',[('dsio/xlsx.go','''			v := map[string]interface{}{}
			if err := json.Unmarshal([]byte(str), &v); err == nil {
				vs[i] = v
			}
''','''			v := map[string]interface{}{}
			if err := json.Unmarshal([]byte(str), &v); err == nil && len(v) > 0 {
				vs[i] = v
			}
''')],XI+XL+'''
func TestSeedDemo(t *testing.T) {
	row := []interface{}{map[string]interface{}{}, map[string]interface{}{"a": "b"}}
	got := rt(t, "object", row)
	if !reflect.DeepEqual(got, []interface{}{row}) {
		t.Fatalf("%#v", got)
	}
}
''','a cell that holds an empty object','it comes back as text')
CZ=imp('dsio','bytes','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/compression')
seed('comp-empty-json','C25','dsio',[('dsio/json.go','''		if w.close != nil {
			return w.close()
		}
		return nil
	}

	// If pretty, newline
''','''		return nil
	}

	// If pretty, newline
''')],CZ+'''
func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, err := NewEntryWriter(&dataset.Structure{Format: "json", Compression: "gzip", Schema: dataset.BaseSchemaArray}, buf)
	if err != nil {
		t.Fatal(err)
	}
	w.Close()
	d, err := compression.Decompressor("gzip", buf)
	if err != nil {
		t.Fatal(err)
	}
	got := &bytes.Buffer{}
	if _, err := got.ReadFrom(d); err != nil || got.String() != "[]" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a compressed JSON body without entries','the compressed stream is not completed')
seed('comp-csv-flush','C25','dsio',[('dsio/csv.go','''	w.w.Flush()
	if err := w.w.Error(); err != nil {
		return err
	}
	if w.close != nil {
		return w.close()
	}
	return nil
''','''	if w.close != nil {
		defer w.w.Flush()
		return w.close()
	}
	w.w.Flush()
	return w.w.Error()
''')],CZ+'''
func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, err := NewEntryWriter(&dataset.Structure{Format: "csv", Compression: "gzip", Schema: dataset.BaseSchemaArray}, buf)
	if err != nil {
		t.Skip(err)
	}
	w.WriteEntry(Entry{Value: []interface{}{"a", "b"}})
	w.Close()
	d, err := compression.Decompressor("gzip", buf)
	if err != nil {
		t.Fatal(err)
	}
	got := &bytes.Buffer{}
	if _, err := got.ReadFrom(d); err != nil || got.String() != "a,b\\n" {
		t.Fatalf("%q %v", got, err)
	}
}
''','a compressed CSV body','rows still buffered on close are written after the stream has ended')
seed('comp-close-err','C25','dsio',[('dsio/cbor.go','''	if w.close != nil {
		return w.close()
	}

	return nil
''','''	if w.close != nil {
		w.close()
	}

	return nil
''')],CZ+'''
type full struct{}

func (full) Write(p []byte) (int, error) { return 0, bytes.ErrTooLarge }

func TestSeedDemo(t *testing.T) {
	w, err := NewEntryWriter(&dataset.Structure{Format: "cbor", Compression: "zst", Schema: dataset.BaseSchemaArray}, full{})
	if err != nil {
		t.Fatal(err)
	}
	w.WriteEntry(Entry{Value: "a"})
	if w.Close() == nil {
		t.Fatal("no error")
	}
	_ = compression.FmtGZip
}
''','a sink that fails when the compressed stream is completed','the failure is not reported')
HH=imp('dataset','testing')
seed('hash-trim','C26','.',[('hash.go','	if _, err = h.Write(data); err != nil {\n','	if _, err = h.Write(bytes.TrimSpace(data)); err != nil {\n'),('hash.go','import (\n','import (\n	"bytes"\n')],HH+'''
func TestSeedDemo(t *testing.T) {
	a, _ := HashBytes([]byte("a"))
	b, _ := HashBytes([]byte("a\\n"))
	if a == b {
		t.Fatal("same hash")
	}
}
''','contents that differ in white space at their ends','they have the same hash')
seed('hash-checksum','C26','.',[('structure.go','''	return JSONHash(s)
''','''	// the checksum covers the body, which is hashed on its own
	c := *s
	c.Checksum = ""
	return JSONHash(c)
''')],HH+'''
func TestSeedDemo(t *testing.T) {
	a, _ := (&Structure{Format: "csv", Checksum: "a"}).Hash()
	b, _ := (&Structure{Format: "csv", Checksum: "b"}).Hash()
	if a == b {
		t.Fatal("same hash")
	}
}
''','structures that differ in the checksum only','they have the same hash')
GG=imp('generate','math/rand','testing')
seed('gen-len','C28','generate',[('generate/value.go','g.Rand.Intn(g.MaxStringLength))\n','g.Rand.Intn(g.MaxStringLength+1))\n')],GG+'''
func TestSeedDemo(t *testing.T) {
	g := &ValueGenerator{Rand: rand.New(rand.NewSource(1)), MaxStringLength: 2}
	for i := 0; i < 1000; i++ {
		if len(g.String()) >= 2 {
			t.Fatal("too long")
		}
	}
}
''','a draw of the largest length','a text as long as the maximum')
seed('gen-int-neg','C28','generate',[('generate/value.go','	return g.Rand.Intn(math.MaxInt64)\n','	return int(g.Rand.Uint64()) % math.MaxInt64\n')],GG+'''
func TestSeedDemo(t *testing.T) {
	g := &ValueGenerator{Rand: rand.New(rand.NewSource(1)), MaxStringLength: 2}
	for i := 0; i < 1000; i++ {
		if g.Int() < 0 {
			t.Fatal("negative")
		}
	}
}
''','half of the draws','negative integers')

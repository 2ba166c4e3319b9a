seed('json-dup-key','C01','dsio',[('dsio/json.go','''		key, val, err := r.readKeyValuePair()
		if err != nil {
			return obj, err
		}
		obj[key] = val
''','''		key, val, err := r.readKeyValuePair()
		if err != nil {
			return obj, err
		}
		if _, exists := obj[key]; !exists {
			obj[key] = val
		}
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewJSONReader(arr("json"), strings.NewReader(`[{"a":1,"a":2}]`))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.(map[string]interface{})["a"] != int64(2) {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a nested object that repeats a key','the first value is kept where a standard decoder keeps the last')

seed('json-key-claimed','C03','dsio',[('dsio/json.go','''	// Write the key
	if w.indent != "" {''','''	w.keysWritten[ent.Key] = true

	// Write the key
	if w.indent != "" {'''),('dsio/json.go','''	if w.tlt == "object" {
		w.keysWritten[ent.Key] = true
	}
	_, err = w.wr.Write(append(enc, data...))
''','''	_, err = w.wr.Write(append(enc, data...))
''')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, err := NewJSONWriter(&dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "object"}}, buf)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteEntry(Entry{Key: "a", Value: func() {}}); err == nil {
		t.Fatal("expected an error")
	}
	if err := w.WriteEntry(Entry{Key: "a", Value: 1}); err != nil {
		t.Fatal(err)
	}
}
''','an entry whose value cannot be encoded, then a good entry under the same key','the good entry is rejected although its key is not repeated')

seed('csv-comment','C06','dsio',[('dsio/csv.go','''			csvr.LazyQuotes = opts.LazyQuotes
''','''			csvr.LazyQuotes, csvr.Comment = opts.LazyQuotes, '#'
''')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", FormatConfig: map[string]interface{}{"headerRow": false}, Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}}}
	r, err := NewCSVReader(st, strings.NewReader("#1\\nb\\n"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != "#1" {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a row whose first cell starts with #','such rows are dropped as comments')

seed('ndjson-slice','C07','dsio',[('dsio/ndjson.go',"r.buf.ReadBytes('\\n')","r.buf.ReadSlice('\\n')")],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	long := strings.Repeat("x", 5000)
	r, err := NewNDJSONReader(arr("ndjson"), strings.NewReader(`"`+long+`"`+"\\n1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value != long {
		t.Fatal(err)
	}
}
''','a line longer than the 4096 byte buffer','the line is an error instead of an entry')

seed('convert-zero-limit','C09','dsio',[('dsio/dsio.go','''	if !all {
		rr = &PagedReader{''','''	if !all && (limit > 0 || offset > 0) {
		rr = &PagedReader{''')],
 imp('dsio','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+AR+'''
func TestSeedDemo(t *testing.T) {
	data, err := ConvertFile(qfs.NewMemfileBytes("a.json", []byte("[1,2]")), arr("json"), arr("json"), 0, 0, false)
	if err != nil || string(data) != "[]" {
		t.Fatalf("%s %v", data, err)
	}
}
''','a limit and an offset of zero','all entries are delivered instead of none')

seed('json-sep-err','C10','dsio',[('dsio/json.go','''	_, err = w.wr.Write(append(enc, data...))
	return err
''','''	w.wr.Write(enc)
	_, err = w.wr.Write(data)
	return err
''')],
 imp('dsio','errors','testing','github.com/qri-io/dataset')+AR+'''
type flaky struct{ n int }

func (f *flaky) Write(p []byte) (int, error) {
	f.n++
	if len(p) > 0 && p[0] == ',' {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestSeedDemo(t *testing.T) {
	w, err := NewJSONWriter(arr("json"), &flaky{})
	if err != nil {
		t.Fatal(err)
	}
	failed := false
	for i := 0; i < 3; i++ {
		failed = failed || w.WriteEntry(Entry{Value: i}) != nil
	}
	failed = failed || w.Close() != nil
	if !failed {
		t.Fatal("the failed write went unreported")
	}
}
''','a sink that fails once, on the write of a separator','the failure is not reported and the output is broken')

seed('identity-shared','C11','dsio',[('dsio/identity.go','	entries chan Entry\n','	entries chan *Entry\n'),
 ('dsio/identity.go','	return ent, nil\n','	return *ent, nil\n'),
 ('dsio/identity.go','func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {\n	res := make(chan Entry)\n','func (r *IdentityReader) iterateMap(data map[string]interface{}) chan *Entry {\n	res := make(chan *Entry)\n'),
 ('dsio/identity.go','			res <- Entry{Key: key, Value: val}\n','			res <- &Entry{Key: key, Value: val}\n'),
 ('dsio/identity.go','func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {\n	res := make(chan Entry)\n','func (r *IdentityReader) iterateSlice(data []interface{}) chan *Entry {\n	res := make(chan *Entry)\n'),
 ('dsio/identity.go','''		for i, val := range data {
			res <- Entry{Index: i, Value: val}
''','''		ent := Entry{}
		for i, val := range data {
			ent.Index, ent.Value = i, val
			res <- &ent
''')],
 imp('dsio','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	data := make([]interface{}, 2000)
	for i := range data {
		data[i] = i
	}
	for k := 0; k < 300; k++ {
		r, err := NewIdentityReader(arr("json"), data)
		if err != nil {
			t.Fatal(err)
		}
		for i := range data {
			e, err := r.ReadEntry()
			if err != nil || e.Index != i || e.Value != i {
				t.Fatalf("entry %d: %v %v", i, e, err)
			}
		}
	}
}
''','a schedule in which the producer goes on before the reader has copied the entry','entries are lost and repeated')

seed('transform-adopt','C12','.',[('transform.go','''			if q.Resources == nil {
				q.Resources = map[string]*TransformResource{}
			}
			for key, val := range q2.Resources {
				q.Resources[key] = val
			}
''','''			if q.Resources == nil {
				q.Resources = q2.Resources
			} else {
				for key, val := range q2.Resources {
					q.Resources[key] = val
				}
			}
''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	a := &Transform{Resources: map[string]*TransformResource{"a": {Path: "a"}}}
	b := &Transform{Resources: map[string]*TransformResource{"b": {Path: "b"}}}
	q := &Transform{}
	q.Assign(a, b)
	if len(a.Resources) != 1 || len(b.Resources) != 1 || len(q.Resources) != 2 {
		t.Fatal("a source changed")
	}
}
''','two sources with resources assigned onto a transform without','the first source is changed by the second')

seed('compare-bigint','C17','vals',[('vals/compare.go','''	at, err := ParseInteger(a)
	if err != nil {
		return 0, err
	}
	bt, err := ParseInteger(b)
	if err != nil {
		return 0, err
	}
''','''	ai, err := ParseInteger(a)
	if err != nil {
		return 0, err
	}
	bi, err := ParseInteger(b)
	if err != nil {
		return 0, err
	}
	at, bt := float64(ai), float64(bi)
''')],
 imp('vals','testing')+'''
func TestSeedDemo(t *testing.T) {
	if c, err := CompareIntegerBytes([]byte("9007199254740993"), []byte("9007199254740992")); err != nil || c != 1 {
		t.Fatal(c, err)
	}
}
''','integers beyond 2^53 that differ by less than the float spacing','different integers compare as equal')

seed('stats-late-key','C18','dsstats',[('dsstats/stats.go','''			if _, ok := acc.children[key]; !ok {
				acc.children[key] = newAccumulator(val)
			}
			acc.children[key].Write(dsio.Entry{Key: key, Value: val})
''','''			child, ok := acc.children[key]
			if !ok {
				child = newAccumulator(val)
				acc.children[key] = child
				if val == nil {
					// wait for a value to tell the type
					delete(acc.children, key)
				}
			}
			child.Write(dsio.Entry{Key: key, Value: val})
''')],
 imp('dsstats','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+'''
func TestSeedDemo(t *testing.T) {
	acc := NewAccumulator(&dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}})
	for i := 0; i < 2; i++ {
		acc.WriteEntry(dsio.Entry{Index: i, Value: map[string]interface{}{"a": nil}})
	}
	acc.Close()
	m := ToMap(acc)
	if len(m) != 1 || m[0]["count"] != 2 {
		t.Fatal(m)
	}
}
''','an object column whose first value is null','the column of nulls is dropped, or typed by a later value')

seed('sketch-cap','C18','dsstats/histosketch',[('dsstats/histosketch/histosketch.go','''	for i := mi + 1; i < len(h.cs)-1; i++ {
		h.cs[i] = h.cs[i+1]
	}
''','''	if h.cs[mi].m < -64 {
		// keep heavy centroids whole
		h.cs[mi].m = -64
	}
	copy(h.cs[mi+1:], h.cs[mi+2:])
''')],
 imp('histosketch','math','testing')+'''
func TestSeedDemo(t *testing.T) {
	s := New(4)
	for i := 0; i < 100; i++ {
		s.Add(1 + float64(i)/1000)
		s.Add(float64(100 * (i % 3)))
	}
	sum := 0.0
	for _, c := range s.cs {
		sum += math.Abs(c.m)
	}
	if sum != 200 {
		t.Fatal(sum)
	}
}
''','more than 64 values merged into one bin','the frequencies of the histogram no longer add up to the count')

seed('columns-type-list','C30','tabular',[('tabular/tabular.go','''						if t, ok := v.(string); ok {
							types = append(types, t)
						}
''','''						t, ok := v.(string)
						if !ok {
							break
						}
						types = append(types, t)
''')],
 imp('tabular','testing')+'''
func TestSeedDemo(t *testing.T) {
	cols, _, err := ColumnsFromJSONSchema(map[string]interface{}{"type": "array", "items": map[string]interface{}{"items": []interface{}{
		map[string]interface{}{"title": "a", "type": []interface{}{nil, "integer"}}}}})
	if err != nil || !cols[0].Type.HasType("integer") {
		t.Fatal(cols, err)
	}
}
''','a list of types with something else than text before a type','the types after it are lost')

seed('titles-unique','C30','tabular',[('tabular/tabular.go','''		if _, present := set[t]; present {
			problems''','''		if _, present := set[t]; present && i > 0 && cols[i-1].Title == t {
			problems''')],
 imp('tabular','testing')+'''
func TestSeedDemo(t *testing.T) {
	if (Columns{{Title: "a"}, {Title: "b"}, {Title: "a"}}).ValidMachineTitles() == nil {
		t.Fatal("repeated title accepted")
	}
}
''','two columns with the same title that are not neighbours','repeated titles are accepted')

seed('diff-script-path','C31','dsdiff',[('dsdiff/dsdiff.go','if left.ScriptPath != "" && right.ScriptPath != "" {','if left.ScriptPath != "" || right.ScriptPath != "" {')],
 imp('dsdiff','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	d, err := DiffTransform(&dataset.Transform{ScriptPath: "a", Syntax: "x"}, &dataset.Transform{Syntax: "x"})
	if err != nil || d.Diff == nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''','only one of the transforms has a script path','the difference goes unreported')

seed('diff-path-len','C31','dsdiff',[('dsdiff/dsdiff.go','''	if len(a.Path) > 1 && len(b.Path) > 1 {
		if a.Path == b.Path {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a: %s", err.Error())''','''	if len(a.Path) > 1 && len(b.Path) > 1 {
		if len(a.Path) == len(b.Path) {
			return emptyDiff, nil
		}
	}
	aBytes, err := a.MarshalJSONObject()
	if err != nil {
		return nil, fmt.Errorf("error marshalling viz a: %s", err.Error())''')],
 imp('dsdiff','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	d, err := DiffViz(&dataset.Viz{Path: "/a", Text: "x"}, &dataset.Viz{Path: "/b", Text: "y"})
	if err != nil || d.Diff == nil || !d.Modified() {
		t.Fatal(d, err)
	}
}
''','two visualisations with different paths of equal length','they are reported as the same')

seed('tracked-eof','C32','dsio',[('dsio/tracked_reader.go','	tr.read += n\n','	if err == nil {\n		tr.read += n\n	}\n')],
 imp('dsio','io/ioutil','strings','testing','testing/iotest')+'''
func TestSeedDemo(t *testing.T) {
	tr := NewTrackedReader(iotest.DataErrReader(strings.NewReader("abc")))
	if _, err := ioutil.ReadAll(tr); err != nil || tr.BytesRead() != 3 {
		t.Fatal(tr.BytesRead(), err)
	}
}
''','a source that returns its last bytes together with the error','those bytes are not counted')


for k in 'json-span csv-wide-row csv-float-digits ndjson-slice cr-boundary meta-key-case structure-empty sign-zone stats-maxlen preview-limit'.split(): seeds.pop(k,None)

seed('json-exp-plus','C01','dsio',[('dsio/json.go',"buff[i] == 'E' || buff[i] == '+' {","buff[i] == 'E' || (buff[i] == '+' && buff[i-1] == 'e') {")],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+"""
func TestSeedDemo(t *testing.T) {
	r, err := NewJSONReader(arr("json"), strings.NewReader(`[1E+2,3]`))
	if err != nil {
		t.Fatal(err)
	}
	for i, want := range []interface{}{float64(100), int64(3)} {
		e, err := r.ReadEntry()
		if err != nil || e.Value != want {
			t.Fatalf("entry %d: %v %v", i, e.Value, err)
		}
	}
}
""",'a number with a capital E and a plus sign in its exponent','a well-formed document is rejected')

seed('json-literal-edge','C01','dsio',[('dsio/json.go',"""	if len(tok) > len(buff) {
		// Buffer may contain a partial match, try reading ahead.""","""	if len(tok) > len(buff)+1 {
		// Buffer may contain a partial match, try reading ahead.""")],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+"""
func TestSeedDemo(t *testing.T) {
	for pad := 0; pad < 40; pad++ {
		r, err := NewJSONReaderSize(arr("json"), strings.NewReader(`["`+strings.Repeat("x", pad)+`",null,3]`), 16)
		if err != nil {
			t.Fatal(err)
		}
		for i, want := range []interface{}{strings.Repeat("x", pad), nil, int64(3)} {
			e, err := r.ReadEntry()
			if err != nil || e.Value != want {
				t.Fatalf("pad %d entry %d: %v %v", pad, i, e.Value, err)
			}
		}
	}
}
""",'a literal with exactly its last letter behind the end of the read buffer','a well-formed document is rejected')

seed('csv-wide-row','C02','dsio',[('dsio/csv.go','if len(types) < len(strings) {','if len(types) == 0 || len(types)+1 < len(strings) {')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}}}
	r, err := NewCSVReader(st, strings.NewReader("a,b\\nc,d\\n"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if _, err := r.ReadEntry(); err != nil {
			t.Fatal(err)
		}
	}
}
''','a body whose rows have exactly one more cell than the schema has columns','the CSV reader panics with an index out of range')

seed('csv-bigint','C06','dsio',[('dsio/csv.go','strings[i] = strconv.Itoa(int(t))',"strings[i] = strconv.FormatFloat(float64(t), 'f', -1, 64)")],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "integer"}}}}}
	buf := &bytes.Buffer{}
	w, err := NewCSVWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	want := int64(1)<<53 + 1
	w.WriteEntry(Entry{Value: []interface{}{want}})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	r, err := NewCSVReader(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != want {
		t.Fatalf("%v %v", e, err)
	}
}
''','a 64 bit integer beyond 2^53','large integers are rounded when written to CSV')

seed('csv-float-short','C06','dsio',[('dsio/csv.go',"strconv.FormatFloat(t, 'f', -1, 64)","strconv.FormatFloat(t, 'f', -1, 32)")],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "number"}}}}}
	buf := &bytes.Buffer{}
	w, err := NewCSVWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	want := 0.30000000000000004
	w.WriteEntry(Entry{Value: []interface{}{want}})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	r, err := NewCSVReader(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != want {
		t.Fatalf("%v %v", e, err)
	}
}
''','a number that needs more digits than a 32 bit float has','numbers written to CSV are rounded')

seed('ndjson-decoder','C07','dsio',[('dsio/ndjson.go','if err := json.Unmarshal(line, &v); err != nil {','if err := json.NewDecoder(bytes.NewReader(line)).Decode(&v); err != nil {')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewNDJSONReader(arr("ndjson"), strings.NewReader("1 2\\n3\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if e, err := r.ReadEntry(); err == nil {
		t.Fatal("two values on a line", e.Value)
	}
}
''','a line that holds a value followed by more text','the rest of the line is lost without an error')

seed('meta-derived-key','C13','.',[('meta.go','''		"accrualPeriodicity",
		"citations",
		"contributors",
''','''		"citations",
		"contributors",
''')],
 imp('dataset','encoding/json','testing')+'''
func TestSeedDemo(t *testing.T) {
	data, err := json.Marshal(&Meta{AccrualPeriodicity: "u"})
	if err != nil {
		t.Fatal(err)
	}
	md := &Meta{}
	if err := json.Unmarshal(data, md); err != nil {
		t.Fatal(err)
	}
	if md.AccrualPeriodicity != "u" || len(md.Meta()) != 0 {
		t.Fatal(md.AccrualPeriodicity, md.Meta())
	}
}
''','metadata with an accrual periodicity','the decoded component carries an additional metadata key that was never set')

seed('commit-epoch','C14','.',[('commit.go','''		cm.Signature == "" &&
		cm.Timestamp.IsZero() &&''','''		cm.Signature == "" &&
		cm.Timestamp.Unix() <= 0 &&''')],
 imp('dataset','testing','time')+'''
func TestSeedDemo(t *testing.T) {
	if (&Commit{Timestamp: time.Unix(0, 0)}).IsEmpty() {
		t.Fatal("a commit with a time is not empty")
	}
}
''','a commit whose only content is a time at or before 1970','the commit counts as empty, and with a path is stored as a bare reference')

seed('sign-zone','C15','.',[('dataset.go','ComponentTypePrefix(KindCommit, ds.Commit.Timestamp.UTC().Format(time.RFC3339))','ComponentTypePrefix(KindCommit, ds.Commit.Timestamp.Format(time.RFC3339))')],
 imp('dataset','bytes','testing','time')+'''
func TestSeedDemo(t *testing.T) {
	now := time.Unix(1600000000, 0)
	a := &Dataset{Commit: &Commit{Timestamp: now.UTC()}}
	b := &Dataset{Commit: &Commit{Timestamp: now.In(time.FixedZone("x", 3600))}}
	if !bytes.Equal(a.SigningBytes(), b.SigningBytes()) {
		t.Fatal("the same commit time signs differently")
	}
}
''','commit times held in different time zones','datasets with identical contents get different signing bytes')

seed('stats-int32','C18','dsstats',[('dsstats/stats.go','''	case int32:
		v = float64(x)
	case int64:
''','''	case int64:
''')],
 imp('dsstats','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+AR+'''
func TestSeedDemo(t *testing.T) {
	acc := NewAccumulator(arr("json"))
	acc.WriteEntry(dsio.Entry{Value: []interface{}{int64(1)}})
	acc.WriteEntry(dsio.Entry{Value: []interface{}{int32(2)}})
	acc.Close()
	m := ToMap(acc)
	if m[0]["count"] != 2 {
		t.Fatal(m)
	}
}
''','values held as 32 bit integers','32 bit integers are not counted')

seed('preview-rest','C24','preview',[('preview/preview.go','ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))','ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.LimitReader(io.MultiReader(buf, f), int64(buf.Len())), int64(size)))')],
 imp('preview','context','io/ioutil','strings','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	body := "[" + strings.Repeat("1,", 90000) + "1]"
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array"}}}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte(body)))
	p, err := Create(context.Background(), ds)
	if err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(p.BodyFile())
	if err != nil || string(got) != body {
		t.Fatal(len(got), err)
	}
}
''','a body longer than what the preview reads','the part of the body behind the preview is lost')

seed('cbor-int-sign','C04','dsio',[('dsio/cbor.go','''	if num < 8 {
		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
	}
	return int64(binary.BigEndian.Uint64(data)), nil''','''	if num == 4 {
		return int64(int32(binary.BigEndian.Uint32(data))), nil
	}
	if num < 8 {
		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
	}
	return int64(binary.BigEndian.Uint64(data)), nil''')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), bytes.NewReader([]byte{0x81, 0x1a, 0x80, 0, 0, 1}))
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value != int64(0x80000001) {
		t.Fatalf("%v %v", e.Value, err)
	}
}
''','a four byte integer with its top bit set','large unsigned 32 bit integers are read as negative numbers')

seed('cbor-chunk-type','C04','dsio',[('dsio/cbor.go','''		return concat.Bytes(), nil
	case cborBdIndefiniteString:
		concat := bytes.Buffer{}
		for {
			if r.readIndefiniteSequenceBreak() {
				break
			}
			b, err := r.rdr.ReadByte()
			if err != nil {
				return nil, err
			}
			buff, err := r.readLengthPrefixedBytes(b)
			if err != nil {
				return nil, err
			}
			concat.Write(buff)
		}''','''		return concat.Bytes(), nil
	case cborBdIndefiniteString:
		concat := bytes.Buffer{}
		for !r.readIndefiniteSequenceBreak() {
			b, err := r.rdr.ReadByte()
			if err != nil {
				return nil, err
			}
			buff, err := r.readLengthPrefixedBytes(b)
			if err != nil {
				return nil, err
			}
			if len(buff) == 0 {
				// an empty chunk is the last one
				break
			}
			concat.Write(buff)
		}''')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), bytes.NewReader([]byte{0x82, 0x7f, 0x61, 'a', 0x60, 0x61, 'b', 0xff, 0x01}))
	if err != nil {
		t.Fatal(err)
	}
	for _, want := range []interface{}{"ab", int64(1)} {
		e, err := r.ReadEntry()
		if err != nil || e.Value != want {
			t.Fatalf("%v %v", e.Value, err)
		}
	}
}
''','a chunked text string with an empty chunk','the string ends at the empty chunk and what follows is misread')

CBH=imp('dsio','testing','bytes','github.com/qri-io/dataset')
seed('cbor-nil-key','C05','dsio',[('dsio/cbor.go','''		if _, ok := w.obj[ent.Key]; ok {''','''		if v := w.obj[ent.Key]; v != nil {''')],CBH+'''
func TestSeedDemo(t *testing.T) {
	w, err := NewCBORWriter(&dataset.Structure{Format: "cbor", Schema: dataset.BaseSchemaObject}, &bytes.Buffer{})
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteEntry(Entry{Key: "a"}); err != nil {
		t.Fatal(err)
	}
	if w.WriteEntry(Entry{Key: "a", Value: "x"}) == nil {
		t.Fatal("repeated key accepted")
	}
}
''','the first entry of a repeated key holds null','the repeated key is accepted and replaces the first entry')
seed('csv-rows-blank','C27','validate',[('validate/csv.go','''		if len(record) != rowLen {''','''		if len(record) > 1 && len(record) != rowLen {''')],imp('validate','testing','strings')+'''
func TestSeedDemo(t *testing.T) {
	if CheckCsvRowLengths(strings.NewReader("a,b\\n1\\n")) == nil {
		t.Fatal("no error")
	}
}
''','a row of one cell below a wider first row','the body counts as valid')
seed('gen-null','C28','generate',[('generate/value.go','''	case "null":
		return nil
	default:''','''	default:''')],imp('generate','testing','math/rand')+'''
func TestSeedDemo(t *testing.T) {
	g := &ValueGenerator{Rand: rand.New(rand.NewSource(1)), MaxStringLength: 8}
	for i := 0; i < 50; i++ {
		if v := g.Type("null"); v != nil {
			t.Fatal(v)
		}
	}
}
''','a column of type null','values of random types are generated')
seed('diff-data-path','C31','dsdiff',[('dsdiff/dsdiff.go','''	if a.Structure != nil || b.Structure != nil {''','''	if a.Structure != nil {''')],imp('dsdiff','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	d, err := DiffDatasets(&dataset.Dataset{}, &dataset.Dataset{Structure: &dataset.Structure{Format: "csv"}}, nil)
	if err != nil || d["structure"] == nil {
		t.Fatal(err, d)
	}
}
''','a structure that only the second dataset has','its difference is missing')
seed('cr-double','C08','dsio/replacecr',[('dsio/replacecr/replace_cr.go',"""(err == nil && pk[0] != '\\n')""","""(err == nil && pk[0] != '\\n' && (pk[0] != '\\r' || n+1 < lenP))""")],imp('replacecr','testing','io','strings')+"""
func TestSeedDemo(t *testing.T) {
	r := Reader(strings.NewReader("ab\\r\\rcd"))
	var got []byte
	p := make([]byte, 3)
	for {
		n, err := r.Read(p)
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
	}
	if string(got) != "ab\\r\\n\\r\\ncd" {
		t.Fatalf("%q", got)
	}
}
""",'two carriage returns in a row, the first in the last place of a read','the first gets no line feed')
seed('cbor-chunk-eof','C02','dsio',[('dsio/cbor.go','''	case cborBdIndefiniteString:
		concat := bytes.Buffer{}
		for {
			if r.readIndefiniteSequenceBreak() {
				break
			}
			b, err := r.rdr.ReadByte()
			if err != nil {
				return nil, err
			}
''','''	case cborBdIndefiniteString:
		concat := bytes.Buffer{}
		for {
			if r.readIndefiniteSequenceBreak() {
				break
			}
			b, err := r.rdr.ReadByte()
			if err != nil && concat.Len() == 0 {
				return nil, err
			}
''')],imp('dsio','testing','bytes','time','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	done := make(chan error, 1)
	go func() {
		r, err := NewCBORReader(&dataset.Structure{Format: "cbor", Schema: dataset.BaseSchemaArray}, bytes.NewReader([]byte{0x81, 0x7f, 0x61, 'a'}))
		if err == nil {
			_, err = r.ReadEntry()
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("hangs")
	}
}
''','a body cut short inside a text of unknown length after its first chunk','reading never ends')

H='''package %s

import (
%s
)

'''
def imp(pkg,*i): return H%(pkg,'\n'.join('\t"%s"'%x if ' ' not in x else '\t'+x for x in i))
AR='''
func arr(f string) *dataset.Structure {
	return &dataset.Structure{Format: f, Schema: map[string]interface{}{"type": "array"}}
}
'''
seed('json-span','C01','dsio',[('dsio/json.go','r.prevSize += size\n','r.prevSize = size\n')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
// a string longer than several read buffers is followed by another entry
func TestSeedDemo(t *testing.T) {
	long := strings.Repeat("x", 100)
	r, err := NewJSONReaderSize(arr("json"), strings.NewReader(`["`+long+`",12,"end"]`), 32)
	if err != nil {
		t.Fatal(err)
	}
	for i, want := range []interface{}{long, int64(12), "end"} {
		e, err := r.ReadEntry()
		if err != nil || e.Value != want {
			t.Fatalf("entry %d: %v %v", i, e.Value, err)
		}
	}
}
''','a token that spans three or more read buffers','the reader discards too much input after the token, so following entries are lost or garbled')

seed('csv-wide-row','C02','dsio',[('dsio/csv.go','if len(types) < len(strings) {','if len(types) == 0 {')],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "string"}}}}}
	r, err := NewCSVReader(st, strings.NewReader("a,b\\nc,d\\n"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if _, err := r.ReadEntry(); err != nil && i < 2 {
			t.Fatal(err)
		}
	}
}
''','a body whose rows have more cells than the schema has columns','the CSV reader panics with an index out of range')

seed('cbor-prealloc','C02','dsio',[('dsio/cbor.go','''	array = make([]interface{}, 0)
''','''	array = make([]interface{}, 0)
	if length > 0 {
		array = make([]interface{}, 0, length)
	}
''')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), bytes.NewReader([]byte{0x81, 0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.ReadEntry(); err == nil {
		t.Fatal("expected an error")
	}
}
''','a nested array that claims an enormous length','the reader panics allocating the claimed length up front')

seed('json-key-quote','C03','dsio',[('dsio/json.go','''		data, err = json.Marshal(ent.Key)
	}
''','''		data = strconv.AppendQuote(nil, ent.Key)
	}
''')],
 imp('dsio','bytes','encoding/json','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "object"}}
	buf := &bytes.Buffer{}
	w, err := NewJSONWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteEntry(Entry{Key: "a\\x01", Value: 1}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if !json.Valid(buf.Bytes()) {
		t.Fatalf("not JSON: %s", buf)
	}
}
''','an object key holding a control character','the compact writer emits Go escapes, which are not JSON')

seed('cbor-alias','C05','dsio',[('dsio/cbor.go','''	buff, err := r.readBytes(length)
	if err != nil {
		return nil, err
	}
	return buff, nil
}

// readArray reads an array of the given length''','''	if buff, err := r.rdr.Peek(length); err == nil {
		_, err = r.rdr.Discard(length)
		return buff, err
	}
	return r.readBytes(length)
}

// readArray reads an array of the given length''')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w, err := NewCBORWriter(arr("cbor"), buf)
	if err != nil {
		t.Fatal(err)
	}
	w.WriteEntry(Entry{Value: []byte("abcdefgh")})
	w.WriteEntry(Entry{Value: bytes.Repeat([]byte("z"), 9000)})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	r, err := NewCBORReader(arr("cbor"), buf)
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.ReadEntry()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.ReadEntry(); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(a.Value.([]byte), []byte("abcdefgh")) {
		t.Fatalf("value changed: %q", a.Value)
	}
}
''','a byte string value that is kept while later entries refill the read buffer','values already returned share memory with the read buffer and change')

seed('csv-float-digits','C06','dsio',[('dsio/csv.go',"strconv.FormatFloat(t, 'f', -1, 64)","strconv.FormatFloat(t, 'f', 15, 64)")],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": "number"}}}}}
	buf := &bytes.Buffer{}
	w, err := NewCSVWriter(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	want := 0.30000000000000004
	w.WriteEntry(Entry{Value: []interface{}{want}})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	r, err := NewCSVReader(st, buf)
	if err != nil {
		t.Fatal(err)
	}
	e, err := r.ReadEntry()
	if err != nil || e.Value.([]interface{})[0] != want {
		t.Fatalf("%v %v", e, err)
	}
}
''','a number whose shortest decimal form has more than 15 fractional digits','numbers written to CSV are rounded')

seed('ndjson-slice','C07','dsio',[('dsio/ndjson.go',"r.buf.ReadBytes('\\n')","r.buf.ReadSlice('\\n')")],
 imp('dsio','strings','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewNDJSONReader(arr("ndjson"), strings.NewReader(`"`+strings.Repeat("a", 5000)+`"`+"\\n1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if _, err := r.ReadEntry(); err != nil {
			t.Fatal(err)
		}
	}
}
''','a line longer than the read buffer','the reader fails with a full buffer')

seed('cr-boundary','C08','dsio/replacecr',[('dsio/replacecr/replace_cr.go',"if pk, err := c.rdr.Peek(1); (err == nil","if pk, err := c.rdr.Peek(min(1, c.rdr.Buffered())); len(pk) == 0 || (err == nil")],
 imp('replacecr','io/ioutil','strings','testing')+'''
func TestSeedDemo(t *testing.T) {
	in := strings.Repeat("a", 15) + "\\r\\nb"
	got, err := ioutil.ReadAll(ReaderWithSize(strings.NewReader(in), 16))
	if err != nil || string(got) != in {
		t.Fatalf("%q %v", got, err)
	}
}
''','a carriage return and its line feed on two sides of a buffer boundary','a second line feed is inserted')

seed('readall-eof','C09','dsio',[('dsio/dsio.go','''			if err.Error() == "EOF" {
				break
			}
			return nil, fmt.Errorf("entry %d: %w", i+1, err)''','''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
			return nil, fmt.Errorf("entry %d: %w", i+1, err)'''),('dsio/dsio.go','import (\n\t"bytes"\n','import (\n\t"bytes"\n\t"errors"\n')],
 imp('dsio','bytes','testing','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	r, err := NewCBORReader(arr("cbor"), bytes.NewReader([]byte{0x82, 0x01}))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ReadAll(r); err == nil {
		t.Fatal("a truncated body must be an error")
	}
}
''','a source that fails with an unexpected end of its input','a truncated array is returned as if complete')

seed('ndjson-buffer','C10','dsio',[('dsio/ndjson.go','''	jw := &NDJSONWriter{
		st:    st,
		wr:    w,
		enc:   json.NewEncoder(w),
		close: close,
	}
''','''	buf := bufio.NewWriter(w)
	jw := &NDJSONWriter{
		st:  st,
		wr:  w,
		enc: json.NewEncoder(buf),
		close: func() error {
			buf.Flush()
			if close != nil {
				return close()
			}
			return nil
		},
	}
''')],
 imp('dsio','errors','testing','github.com/qri-io/dataset')+AR+'''
type badSink struct{}

func (badSink) Write(p []byte) (int, error) { return 0, errors.New("full") }

func TestSeedDemo(t *testing.T) {
	w, err := NewNDJSONWriter(arr("ndjson"), badSink{})
	if err != nil {
		t.Fatal(err)
	}
	err = w.WriteEntry(Entry{Value: "a"})
	if err == nil {
		err = w.Close()
	}
	if err == nil {
		t.Fatal("the failed write was not reported")
	}
}
''','a sink that fails while little enough is written to stay buffered until close','buffered entries are lost and every call reports success')

seed('identity-done','C11','dsio',[('dsio/identity.go','''	ent, ok := <-r.entries
	if !ok {
		return Entry{}, io.EOF
	}

	return ent, nil
''','''	select {
	case ent := <-r.entries:
		return ent, nil
	case <-r.done:
		return Entry{}, io.EOF
	}
'''),('dsio/identity.go','''	entries chan Entry
''','''	entries chan Entry
	done    chan struct{}
'''),('dsio/identity.go','''	for range r.entries {
	}
	return nil
''','''	for {
		select {
		case <-r.entries:
		case <-r.done:
			return nil
		}
	}
'''),('dsio/identity.go','''	res := make(chan Entry)

	go func() {
		for key''','''	res := make(chan Entry)
	r.done = make(chan struct{})

	go func() {
		for key'''),('dsio/identity.go','''			res <- Entry{Key: key, Value: val}
		}
		close(res)
''','''			res <- Entry{Key: key, Value: val}
		}
		close(r.done)
'''),('dsio/identity.go','''	res := make(chan Entry)

	go func() {
		for i, val''','''	res := make(chan Entry, 1)
	r.done = make(chan struct{})

	go func() {
		for i, val'''),('dsio/identity.go','''			res <- Entry{Index: i, Value: val}
		}
		close(res)
''','''			res <- Entry{Index: i, Value: val}
		}
		close(r.done)
''')],
 imp('dsio','io','testing','time','github.com/qri-io/dataset')+AR+'''
func TestSeedDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		r, err := NewIdentityReader(arr("json"), []interface{}{"a"})
		if err != nil {
			t.Fatal(err)
		}
		if k%10 == 0 {
			time.Sleep(2 * time.Millisecond)
		}
		if e, err := r.ReadEntry(); err != nil || e.Value != "a" {
			t.Fatalf("%v %v", e, err)
		}
		if _, err := r.ReadEntry(); err != io.EOF {
			t.Fatal(err)
		}
	}
}
''','the producing goroutine finishing before the last element is read','the last element of an array is lost in some schedules')

seed('assign-license','C12','.',[('meta.go','''		if m.License != nil {
			md.License = m.License
		}
''','''		if m.License != nil {
			if md.License == nil {
				md.License = m.License
			} else {
				*md.License = *m.License
			}
		}
''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	a := &Meta{License: &License{Type: "a"}}
	b := &Meta{License: &License{Type: "b"}}
	md := &Meta{}
	md.Assign(a, b)
	if md.License.Type != "b" || a.License.Type != "a" {
		t.Fatal("a source was changed", a.License)
	}
}
''','two sources that both set the license','the first source is overwritten with the second one\'s license')

seed('meta-key-case','C13','.',[('meta.go','''	if md.HomeURL != "" {
		data["homeURL"] = md.HomeURL
	}
	if md.Identifier''','''	if md.HomeURL != "" {
		data["homeUrl"] = md.HomeURL
	}
	if md.Identifier''')],
 imp('dataset','encoding/json','testing')+'''
func TestSeedDemo(t *testing.T) {
	data, err := json.Marshal(&Meta{HomeURL: "u"})
	if err != nil {
		t.Fatal(err)
	}
	md := &Meta{}
	if err := json.Unmarshal(data, md); err != nil {
		t.Fatal(err)
	}
	if md.HomeURL != "u" || len(md.Meta()) != 0 {
		t.Fatal(md.HomeURL, md.Meta())
	}
}
''','metadata with a home URL','the decoded component carries an additional metadata key that was never set')

seed('structure-empty','C14','.',[('structure.go','''		s.Length == 0 &&
		s.Schema == nil &&''','''		s.Length == 0 &&
		len(s.Schema) == 0 &&''')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	if (&Structure{Schema: map[string]interface{}{}}).IsEmpty() {
		t.Fatal("a structure with a schema is not empty")
	}
}
''','a structure whose only content is a schema without keywords','the structure counts as empty, and with a path is stored as a bare reference')

seed('sign-zone','C15','.',[('dataset.go','ds.Commit.Timestamp.UTC().Format(time.RFC3339)','ds.Commit.Timestamp.Format(time.RFC3339)')],
 imp('dataset','bytes','testing','time')+'''
func TestSeedDemo(t *testing.T) {
	now := time.Unix(1600000000, 0)
	a := &Dataset{Commit: &Commit{Timestamp: now.UTC()}}
	b := &Dataset{Commit: &Commit{Timestamp: now.In(time.FixedZone("x", 3600))}}
	if !bytes.Equal(a.SigningBytes(), b.SigningBytes()) {
		t.Fatal("the same commit time signs differently")
	}
}
''','commit times held in different time zones','datasets with identical contents get different signing bytes')

seed('format-trim','C16','.',[('data_format.go','''	}[s]
	if !ok {''','''	}[strings.TrimRight(s, "s")]
	if !ok {'''),('data_format.go','import (\n','import (\n\t"strings"\n')],
 imp('dataset','testing')+'''
func TestSeedDemo(t *testing.T) {
	if f, err := ParseDataFormatString("csvs"); err == nil {
		t.Fatal(f)
	}
}
''','a format name with trailing letters s','names outside the vocabulary are accepted as formats')

seed('compare-diff','C17','vals',[('vals/compare.go','''	if at > bt {
		return 1, nil
	} else if at == bt {
		return 0, nil
	}
	return -1, nil
}

// CompareNumberBytes''','''	switch d := at - bt; {
	case d > 0:
		return 1, nil
	case d == 0:
		return 0, nil
	}
	return -1, nil
}

// CompareNumberBytes''')],
 imp('vals','testing')+'''
func TestSeedDemo(t *testing.T) {
	if c, err := CompareIntegerBytes([]byte("9223372036854775807"), []byte("-1")); err != nil || c != 1 {
		t.Fatal(c, err)
	}
}
''','integers whose difference overflows 64 bits','comparison of far apart integers has the wrong sign')

seed('stats-maxlen','C18','dsstats',[('dsstats/stats.go','''		if len(str) < acc.minLength {
			acc.minLength = len(str)
		}
		if len(str) > acc.maxLength {
			acc.maxLength = len(str)
		}
''','''		if len(str) < acc.minLength {
			acc.minLength = len(str)
		} else if len(str) > acc.maxLength {
			acc.maxLength = len(str)
		}
'''),('dsstats/stats.go','''		maxLength:   minInt,
''','''''')],
 imp('dsstats','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')+AR+'''
func TestSeedDemo(t *testing.T) {
	acc := NewAccumulator(arr("json"))
	acc.WriteEntry(dsio.Entry{Value: []interface{}{"aaaa"}})
	acc.WriteEntry(dsio.Entry{Value: []interface{}{"aa"}})
	acc.Close()
	m := ToMap(acc)
	if m[0]["maxLength"] != 4 {
		t.Fatal(m)
	}
}
''','texts that arrive in order of falling length','the longest length is wrong when the longest text comes first')

seed('detect-lost','C20','detect',[('detect/detect.go','tr := io.TeeReader(body, buf)','tr := bufio.NewReader(io.TeeReader(body, buf))'),('detect/detect.go','io.MultiReader(buf, body), size))','io.MultiReader(io.LimitReader(buf, 4096), body), size))'),('detect/detect.go','import (\n','import (\n\t"bufio"\n')],
 imp('detect','io/ioutil','strings','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	body := "a,b\\n" + strings.Repeat("1,2\\n", 3000)
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.csv", []byte(body)))
	if err := Structure(ds); err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(ds.BodyFile())
	if err != nil || string(got) != body {
		t.Fatal(len(got), err)
	}
}
''','a CSV body longer than 4096 bytes','the part of the body examined beyond the first 4096 bytes is lost')

seed('column-names','C22','dsio',[('dsio/xlsx.go','if greaterPart > 0 {','if greaterPart > 1 {')],
 imp('dsio','testing')+"""
func TestSeedDemo(t *testing.T) {
	for i, want := range map[int]string{0: "A", 26: "AA", 675: "YZ", 676: "ZA", 701: "ZZ", 702: "AAA"} {
		if got := ColIndexToLetters(i); got != want {
			t.Errorf("%d: %q, want %q", i, got, want)
		}
	}
}
""",'column indices 676 to 701','columns past YZ share names with earlier columns')

seed('stepfile-trim','C23','stepfile',[('stepfile/stepfile.go','''			Script: chunk,
''','''			Script: strings.TrimSuffix(chunk, "\\r"),
''')],
 imp('stepfile','bytes','testing','github.com/qri-io/dataset')+'''
func TestSeedDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	if err := Write([]*dataset.TransformStep{{Script: "a\\r"}, {Script: "b"}}, buf); err != nil {
		t.Fatal(err)
	}
	steps, err := Read(buf)
	if err != nil || len(steps) != 2 || steps[0].Script != "a\\r" {
		t.Fatalf("%v %v", steps[0].Script, err)
	}
}
''','a script that ends in a carriage return','the carriage return is lost')

seed('preview-limit','C24','preview',[('preview/preview.go','''		if len(content) >= MaxReadmePreviewBytes {
			content = append(content, []byte("...")...)
		}
''','''		if len(content) >= MaxReadmePreviewBytes {
			// never end in half a line
			if i := bytes.LastIndexByte(content, '\\n'); i > 0 {
				content = content[:i]
			}
			content = append(content, []byte("...")...)
		}
''')],
 imp('preview','context','strings','testing','github.com/qri-io/dataset','github.com/qri-io/qfs')+'''
func TestSeedDemo(t *testing.T) {
	text := strings.Repeat("a", 900) + "\\n" + strings.Repeat("b", 400)
	ds := &dataset.Dataset{Readme: &dataset.Readme{}}
	ds.Readme.SetScriptFile(qfs.NewMemfileBytes("readme.md", []byte(text)))
	p, err := Create(context.Background(), ds)
	if err != nil || p.Readme.Text != text[:MaxReadmePreviewBytes]+"..." {
		t.Fatal(len(p.Readme.Text), err)
	}
}
''','a readme over the limit that has line breaks','the readme is cut well before its limit')

seed('valid-name','C27','validate',[('validate/validate.go','`^[a-zA-Z]\\w{0,143}$`','`^[a-zA-Z]\\w{0,143}`')],
 imp('validate','testing')+'''
func TestSeedDemo(t *testing.T) {
	if ValidName("a b") == nil {
		t.Fatal("a space is not allowed")
	}
}
''','a name with an illegal character after the first','illegal names are accepted')

seed('open-empty','C29','.',[('dataset.go','''	if ds.BodyBytes != nil {
		bodyPath''','''	if len(ds.BodyBytes) > 0 {
		bodyPath''')],
 imp('dataset','context','testing')+'''
func TestSeedDemo(t *testing.T) {
	ds := &Dataset{BodyBytes: []byte{}, BodyPath: "/mem/x"}
	if err := ds.OpenBodyFile(context.Background(), nil); err != nil || ds.BodyFile() == nil {
		t.Fatal(err)
	}
}
''','inline body bytes that are empty, with a path','the inline body is ignored and the path is resolved')

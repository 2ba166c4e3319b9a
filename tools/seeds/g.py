DS=imp('dsstats','testing','github.com/qri-io/dataset','github.com/qri-io/dataset/dsio')

NT=imp('dsio','testing','strings','github.com/qri-io/dataset')

RT=imp('dataset','testing','encoding/json')
seed('transform-ref-stale','C13','.',[('transform.go','		*q = Transform{Path: s}\n','		q.Path = s\n')],RT+'''
func TestSeedDemo(t *testing.T) {
	q := &Transform{Text: "a"}
	if err := json.Unmarshal([]byte(`"/p"`), q); err != nil || q.Path != "/p" || q.Text != "" {
		t.Fatal(q, err)
	}
}
''','decoding a reference over a transform with content','the former content stays')
GT=imp('generate','testing','math/rand')

ST=imp('stepfile','testing','errors','strings','github.com/qri-io/dataset')
seed('stepfile-copy-err','C23','stepfile',[('stepfile/stepfile.go','''		_, err := io.Copy(w, r)
		return err
''','''		if n, err := io.Copy(w, r); n == 0 {
			return err
		}
		return nil
''')],ST+'''
type failSink struct{ n int }

func (f *failSink) Write(p []byte) (int, error) {
	if f.n++; f.n > 1 {
		return 0, errors.New("full")
	}
	return len(p) / 2, errors.New("full")
}
func TestSeedDemo(t *testing.T) {
	if Write([]*dataset.TransformStep{{Script: strings.NewReader("abcd")}}, &failSink{}) == nil {
		t.Fatal("no error")
	}
}
''','a script from a reader and a sink that takes a part of it','the failure is not reported')
CB=imp('dsio','testing','bytes','github.com/qri-io/dataset')

DD=imp('dsdiff','testing','github.com/qri-io/dataset')
DE=imp('detect','testing','github.com/qri-io/dataset')
seed('detect-needs-config','C20','detect',[('detect/detect.go','''		// JSON doesn't need a format config
		return false
''','''		// JSON doesn't need a format config
		return st.FormatConfig == nil && st.Encoding == ""
''')],DE+'''
func TestSeedDemo(t *testing.T) {
	ds := &dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}}
	if err := Structure(ds); err != nil {
		t.Fatal(err)
	}
}
''','a complete JSON structure without a body','it is an error')

MS=imp('dataset','testing')
seed('meta-set-trim','C34','.',[('meta.go','		md.meta[key] = val\n	}\n\n	return\n','		md.meta[strings.TrimSpace(key)] = val\n	}\n\n	return\n')],MS+'''
func TestSeedDemo(t *testing.T) {
	m := &Meta{}
	m.Set(" a ", 1)
	if m.Meta()[" a "] != 1 {
		t.Fatal(m.Meta())
	}
}
''','an additional key with surrounding space','it is kept under another key')
seed('meta-list-gap','C34','.',[('meta.go','''		s = append(s, str)
	}
	return
''','''		if str != "" {
			s = append(s, str)
		}
	}
	return
''')],MS+'''
func TestSeedDemo(t *testing.T) {
	m := &Meta{}
	m.Set("keywords", []interface{}{"a", "", "b"})
	if len(m.Keywords) != 3 {
		t.Fatal(m.Keywords)
	}
}
''','a list with an empty text','the empty text is dropped')
seed('meta-license-merge','C34','.',[('meta.go','''		md.License = &License{}
		err = md.License.Decode(val)
''','''		l := &License{}
		if md.License != nil {
			*l = *md.License
		}
		if err = l.Decode(val); err == nil {
			if md.License != nil && l.URL == "" {
				l.URL = md.License.URL
			}
			md.License = l
		}
''')],MS+'''
func TestSeedDemo(t *testing.T) {
	m := &Meta{License: &License{Type: "a", URL: "b"}}
	m.Set("license", map[string]interface{}{"type": "c"})
	if m.License.URL != "" {
		t.Fatal(m.License)
	}
}
''','a license set over one with a URL, without a URL','the URL of the former license stays')
seed('meta-copy','C34','.',[('meta.go','''	shallowCopy := map[string]interface{}{}
	for key, val := range md.meta {
		shallowCopy[key] = val
	}
	return shallowCopy
''','''	shallowCopy := md.meta
	if len(md.meta) < 2 {
		shallowCopy = map[string]interface{}{}
	}
	for key, val := range md.meta {
		shallowCopy[key] = val
	}
	return shallowCopy
''')],MS+'''
func TestSeedDemo(t *testing.T) {
	m := &Meta{}
	m.Set("a", 1)
	m.Set("b", 1)
	delete(m.Meta(), "a")
	if len(m.Meta()) != 2 {
		t.Fatal(m.Meta())
	}
}
''','metadata with two additional keys','the map handed out is not a copy')
DT=imp('detect','testing')
seed('infer-last-row','C35','detect',[('detect/detect.go','		switch ent := data[0].(type) {\n','		switch ent := data[len(data)-1].(type) {\n')],DT+'''
func TestSeedDemo(t *testing.T) {
	s, err := TabularSchemaFromTabularData([]interface{}{[]interface{}{1.0, "a"}, []interface{}{nil}})
	if err != nil {
		t.Fatal(err)
	}
	if c := s["items"].(map[string]interface{})["items"].([]interface{}); len(c) != 2 {
		t.Fatal(c)
	}
}
''','a last row shorter than the first','the columns are those of the last row')
seed('infer-unsigned','C35','detect',[('detect/detect.go','uint, uint8, uint16, uint32, uint64, float32','uint, uint8, uint16, uint32, float32')],DT+'''
func TestSeedDemo(t *testing.T) {
	s, _ := TabularSchemaFromTabularData([]interface{}{[]interface{}{uint64(1)}})
	c := s["items"].(map[string]interface{})["items"].([]interface{})[0].(map[string]interface{})
	if c["type"] != "number" {
		t.Fatal(c)
	}
}
''','a 64 bit unsigned integer','its column is text')
VT=imp('vals','testing')
seed('vals-equal-int','C36','vals',[('vals/compare.go','		return a.Integer() == b.Integer()\n','		return a.Number() == b.Number()\n')],VT+'''
func TestSeedDemo(t *testing.T) {
	if Equal(Integer(1<<60), Integer(1<<60+1)) {
		t.Fatal("equal")
	}
}
''','two integers beyond 53 bits','they count as equal')
seed('vals-object-keys','C36','vals',[('vals/value.go','''	keys = make([]string, len(o))
	i := 0
	for key := range o {
		keys[i] = key
		i++
	}
	return
''','''	keys = make([]string, 0, len(o))
	for key, val := range o {
		if val != nil && !val.IsNull() {
			keys = append(keys, key)
		}
	}
	return
''')],VT+'''
func TestSeedDemo(t *testing.T) {
	if len((Object{"a": Null(true)}).Keys()) != 1 {
		t.Fatal("missing")
	}
}
''','an object with a null','the key of the null is not listed')
CT=imp('dstest','testing','github.com/qri-io/dataset')
seed('cmp-absent','C33','dstest',[('dstest/compare.go','''	a := &dataset.Commit{}
	a.Assign(expect)
''','''	a := &dataset.Commit{}
	if got != nil {
		a.Assign(expect)
	}
''')],CT+'''
func TestSeedDemo(t *testing.T) {
	if CompareCommits(&dataset.Commit{Title: "a"}, nil) == "" {
		t.Fatal("no difference")
	}
}
''','a commit compared with none','no difference is reported')
seed('cmp-readme','C33','dstest',[('dstest/compare.go','		dataset.Transform{},\n		dataset.Readme{},\n		dataset.Viz{},\n	))\n}','		dataset.Transform{},\n		dataset.Readme{},\n		dataset.Viz{},\n	), cmpopts.IgnoreFields(dataset.Viz{}, "RenderedPath"))\n}')],CT+'''
func TestSeedDemo(t *testing.T) {
	if CompareDatasets(&dataset.Dataset{Viz: &dataset.Viz{RenderedPath: "a"}}, &dataset.Dataset{Viz: &dataset.Viz{RenderedPath: "b"}}) == "" {
		t.Fatal("no difference")
	}
}
''','visualisations that differ in the rendered path only','the difference is not reported')

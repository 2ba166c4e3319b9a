// Package c16 checks the names of formats, types, kinds and compressions, and format options.
package c16

import (
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/vals"
	"verifh/v"
)

var formats = []struct {
	f     dataset.DataFormat
	names []string
}{
	{dataset.CSVDataFormat, []string{"csv", ".csv"}},
	{dataset.JSONDataFormat, []string{"json", ".json"}},
	{dataset.NDJSONDataFormat, []string{"ndjson", ".ndjson", "jsonl", ".jsonl"}},
	{dataset.CBORDataFormat, []string{"cbor", ".cbor"}},
	{dataset.XMLDataFormat, []string{"xml", ".xml"}},
	{dataset.XLSXDataFormat, []string{"xlsx", ".xlsx"}},
}

// H_C16_format: the printed name of any number taken as a data format.
func H_C16_format() {
	f := dataset.DataFormat(v.Int(-5, 300))
	name := f.String()
	if f > dataset.UnknownDataFormat && f <= dataset.XLSXDataFormat {
		v.Assert(name != "", "every format has a name")
		g, err := dataset.ParseDataFormatString(name)
		v.Assert(err == nil && g == f, "the printed name of a format parses to it")
		b, err := f.MarshalJSON()
		v.Assert(err == nil, "a format encodes")
		var h dataset.DataFormat
		v.Assert(h.UnmarshalJSON(b) == nil && h == f, "an encoded format decodes to itself")
		v.Reach("format")
	} else {
		v.Assert(name == "", "numbers that are no format have no name")
		if f == dataset.UnknownDataFormat {
			_, err := f.MarshalJSON()
			v.Assert(err != nil, "the unknown format does not encode")
			v.Reach("unknown")
		}
	}
}

// H_C16_format_names: every name of up to 7 bytes.
func H_C16_format_names() {
	s := v.String(v.Case(8))
	f, err := dataset.ParseDataFormatString(s)
	want, known := dataset.UnknownDataFormat, s == ""
	for _, x := range formats {
		for _, n := range x.names {
			if s == n {
				want, known = x.f, true
			}
		}
	}
	v.Assert((err == nil) == known, "exactly the known format names are accepted")
	v.Assert(f == want, "a format name means its format, other names mean none")
	v.Reach("names")
}

// H_C16_format_json: decoding an arbitrary quoted name of up to 6 bytes never gives a format for an unknown name.
func H_C16_format_json() {
	n := v.Case(7)
	b := v.Bytes(n)
	for i := range b {
		v.Assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != '"' && b[i] != '\\')
	}
	prior := dataset.CBORDataFormat
	f := prior
	err := f.UnmarshalJSON([]byte(`"` + string(b) + `"`))
	g, perr := dataset.ParseDataFormatString(string(b))
	v.Assert((err == nil) == (perr == nil), "decoding accepts the names parsing accepts")
	if err == nil {
		v.Assert(f == g, "decoding gives the format parsing gives")
	} else {
		v.Assert(f == prior, "a rejected name leaves the format alone")
	}
	v.Reach("json")
}

var types = []struct {
	t    vals.Type
	name string
}{
	{vals.TypeString, "string"}, {vals.TypeInteger, "integer"}, {vals.TypeNumber, "number"}, {vals.TypeBoolean, "boolean"},
	{vals.TypeObject, "object"}, {vals.TypeArray, "array"}, {vals.TypeNull, "null"},
}

// H_C16_type: the printed name of any number taken as a value type.
func H_C16_type() {
	t := vals.Type(v.Int(-5, 300))
	name := t.String()
	known := false
	for _, x := range types {
		if t == x.t {
			known = true
		}
	}
	if known {
		v.Assert(name != "", "every type has a name")
		v.Assert(vals.TypeFromString(name) == t, "the printed name of a type parses to it")
		b, err := t.MarshalJSON()
		v.Assert(err == nil, "a type encodes")
		var h vals.Type
		v.Assert(h.UnmarshalJSON(b) == nil && h == t, "an encoded type decodes to itself")
		v.Reach("type")
	} else {
		v.Assert(name == "" || t == vals.TypeBytes, "numbers that are no type have no name")
		v.Reach("no type")
	}
}

// H_C16_type_names: every name of up to 8 bytes.
func H_C16_type_names() {
	b := v.Bytes(v.Case(9))
	for i := range b {
		v.Assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != '"' && b[i] != '\\')
	}
	s := string(b)
	want := vals.TypeUnknown
	for _, x := range types {
		if s == x.name {
			want = x.t
		}
	}
	v.Assert(vals.TypeFromString(s) == want, "exactly the known type names are accepted")
	t := vals.TypeArray
	err := t.UnmarshalJSON([]byte(`"` + s + `"`))
	v.Assert((err == nil) == (want != vals.TypeUnknown), "decoding accepts exactly the known type names")
	if err == nil {
		v.Assert(t == want, "decoding gives the named type")
	} else {
		v.Assert(t == vals.TypeArray, "a rejected name leaves the type alone")
	}
	v.Reach("names")
}

// H_C16_kind: every kind of up to 6 bytes.
func H_C16_kind() {
	b := v.Bytes(v.Case(7))
	for i := range b {
		v.Assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != '"' && b[i] != '\\')
	}
	s := string(b)
	ok := len(s) >= 4 && s[2] == ':'
	k := dataset.Kind(s)
	v.Assert(k.String() == s, "a kind prints as itself")
	v.Assert((k.Valid() == nil) == ok, "exactly the kinds of the form [type]:[version] are valid")
	var got dataset.Kind
	err := got.UnmarshalJSON([]byte(`"` + s + `"`))
	v.Assert((err == nil) == ok, "decoding accepts exactly valid kinds")
	if ok {
		v.Assert(got == k, "a decoded kind is the encoded one")
		v.Assert(k.Type()+":"+k.Version() == s, "type and version make up a kind")
		v.Assert(dataset.ComponentTypePrefix(k, "x") == k.Type()+":x", "prefixes are type and colon")
		v.Reach("valid")
	}
	v.Reach("kind")
}

// H_C16_kinds: the declared kinds are valid, distinct, and prefix any text.
func H_C16_kinds() {
	all := []dataset.Kind{dataset.KindDataset, dataset.KindBody, dataset.KindMeta, dataset.KindStructure, dataset.KindTransform,
		dataset.KindCommit, dataset.KindViz, dataset.KindReadme, dataset.KindStats}
	s := v.String(2)
	for i, k := range all {
		v.Assert(k.Valid() == nil, "declared kinds are valid")
		v.Assert(k.Version() == dataset.CurrentSpecVersion, "declared kinds are of the current version")
		p := dataset.ComponentTypePrefix(k, s)
		v.Assert(len(p) == 5 && p[2:] == ":"+s, "a prefixed text ends with the text")
		for j := range all {
			v.Assert((all[j].Type() == k.Type()) == (i == j), "declared kinds are distinct")
		}
	}
	v.Reach("kinds")
}

// H_C16_compression: every name of up to 5 printable bytes.
func H_C16_compression() {
	b := v.Bytes(v.Case(6))
	for i := range b {
		v.Assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != '"' && b[i] != '\\')
	}
	s := string(b)
	f, err := compression.ParseFormat(s)
	want := compression.FmtNone
	switch s {
	case "gzip", "gz":
		want = compression.FmtGZip
	case "zst", "zstd":
		want = compression.FmtZStandard
	}
	v.Assert((err == nil) == (want != compression.FmtNone), "exactly the known compression names are accepted")
	v.Assert(f == want, "a compression name means its format, other names mean none")
	if err == nil {
		g, err := compression.ParseFormat(f.String())
		v.Assert(err == nil && g == f, "the printed name of a compression parses to it")
		_, sup := compression.SupportedFormats[f]
		v.Assert(sup, "accepted compressions are supported")
		v.Reach("accepted")
	} else {
		_, e1 := compression.Compressor(s, nil)
		_, e2 := compression.Decompressor(s, nil)
		v.Assert(e1 != nil && e2 != nil, "unknown compressions give no compressor")
		v.Reach("rejected")
	}
}

// opt gives an option value: absent, or one of the JSON types.
func opt(m map[string]interface{}, key string, n int) int {
	k := v.Pick(n)
	switch k {
	case 1:
		m[key] = v.Bool()
	case 2:
		m[key] = v.String(1)
	case 3:
		m[key] = float64(1)
	case 4:
		m[key] = nil
	case 5:
		m[key] = v.String(2)
	case 6:
		m[key] = ""
	}
	return k
}

// H_C16_csv_options: options of any JSON type; accepted ones decode to options whose map decodes to the same options.
func H_C16_csv_options() {
	m := map[string]interface{}{}
	bad := false
	which := v.Case(4)
	for i, key := range []string{"headerRow", "lazyQuotes", "variadicFields"} {
		n := 2
		if i == which {
			n = 5
		}
		if k := opt(m, key, n); k == 2 || k == 3 {
			bad = true
		}
	}
	n := 3
	if which == 3 {
		n = 7
	}
	ks := 0
	if k := opt(m, "separator", n); k > 0 {
		ks = k
		if k == 1 {
			bad = true
		}
		if k == 3 || k == 6 {
			bad = true
		}
	}
	c, err := dataset.ParseFormatConfigMap(dataset.CSVDataFormat, m)
	if bad {
		v.Assert(err != nil, "option values of a wrong type are rejected")
		v.Reach("rejected")
		return
	}
	if ks == 0 || ks == 4 {
		v.Assert(err == nil, "option values of the right type are accepted")
	}
	if ks == 2 && err != nil {
		v.Assert(m["separator"].(string)[0] >= 0x80, "every one-character separator is accepted")
	}
	if err != nil {
		return
	}
	o, ok := c.(*dataset.CSVOptions)
	v.Assert(ok && o.Format() == dataset.CSVDataFormat, "CSV options configure CSV")
	is := func(key string) bool { b, ok := m[key].(bool); return ok && b }
	v.Assert(o.HeaderRow == is("headerRow") && o.LazyQuotes == is("lazyQuotes") && o.VariadicFields == is("variadicFields"), "options hold the configured values")
	if ks == 2 || ks == 5 {
		v.Assert(string(o.Separator) == m["separator"].(string), "the separator is the configured one")
		v.Reach("separator")
	} else {
		v.Assert(o.Separator == 0, "no separator is set by default")
	}
	again, err := dataset.NewCSVOptions(o.Map())
	v.Assert(err == nil, "the map of CSV options is accepted")
	v.Assert(*again == *o, "CSV options survive their map")
	v.Reach("accepted")
}

// H_C16_other_options: XLSX and JSON options, and formats without options.
func H_C16_other_options() {
	m := map[string]interface{}{}
	k := opt(m, "sheetName", 7)
	c, err := dataset.ParseFormatConfigMap(dataset.XLSXDataFormat, m)
	if k == 1 || k == 3 {
		v.Assert(err != nil, "a sheet name of a wrong type is rejected")
	} else {
		v.Assert(err == nil && c.Format() == dataset.XLSXDataFormat, "XLSX options configure XLSX")
		o := c.(*dataset.XLSXOptions)
		want, _ := m["sheetName"].(string)
		v.Assert(o.SheetName == want, "the sheet name is the configured one")
		again, err := dataset.NewXLSXOptions(o.Map())
		v.Assert(err == nil && again.(*dataset.XLSXOptions).SheetName == want, "XLSX options survive their map")
		v.Reach("xlsx")
	}
	j, err := dataset.ParseFormatConfigMap(dataset.JSONDataFormat, m)
	v.Assert(err == nil && j.Format() == dataset.JSONDataFormat && len(j.Map()) == len(m) && j.Map()["sheetName"] == m["sheetName"], "JSON options are kept")
	f := dataset.DataFormat(v.Pick(8))
	_, err = dataset.ParseFormatConfigMap(f, nil)
	v.Assert((err == nil) == (f == dataset.CSVDataFormat || f == dataset.JSONDataFormat || f == dataset.XLSXDataFormat), "only CSV, JSON and XLSX have options")
	v.Reach("other")
}

// H_C16_filename: the file names a structure gives, for every supported format and accepted compression name, and any stem of up to 3 (5) bytes, name that format and compression.
func H_C16_filename() {
	fs := dataset.SupportedDataFormats()
	v.Assert(len(fs) == 5, "five formats are supported")
	k := v.Case(len(fs))
	for i := range fs {
		v.Assert(fs[i] != dataset.UnknownDataFormat && fs[i] != dataset.XMLDataFormat, "unknown formats and XML are not supported")
		v.Assert(i == k || fs[i] != fs[k], "a supported format is listed once")
	}
	comp := []string{"", "gz", "gzip", "zst", "zstd"}[v.Pick(5)]
	st := &dataset.Structure{Format: fs[k].String(), Compression: comp}
	v.Assert(st.DataFormat() == fs[k], "a structure has the format its name says")
	tab := fs[k] == dataset.CSVDataFormat || fs[k] == dataset.XLSXDataFormat
	v.Assert(st.RequiresTabularSchema() == tab, "exactly CSV and XLSX need tabular schemas")
	name := st.BodyFilename()
	if v.Bool() {
		stem := v.String(v.Pick(v.Bound(4, 6)))
		for i := 0; i < len(stem); i++ {
			v.Assume(stem[i] >= 0x20 && stem[i] < 0x7f && stem[i] != '\'' && stem[i] != '"' && stem[i] != '\\')
		}
		name = st.AddFileFormatExtensions(stem)
		v.Assert(len(name) >= len(stem) && name[:len(stem)] == stem, "extensions are appended")
		v.Reach("stem")
	}
	f, c, err := detect.FormatFromFilename(name)
	v.Assert(err == nil && f == fs[k], "a body's file name names its format")
	want := compression.FmtNone
	if comp != "" {
		want, _ = compression.ParseFormat(comp)
	}
	v.Assert(c == want, "a body's file name names its compression")
	plain := &dataset.Structure{Format: st.Format}
	v.Assert(plain.BodyFilename() == "body."+st.Format, "a body is called body")
	v.Assert((&dataset.Structure{}).AddFileFormatExtensions("x") == "x", "no format, no extension")
	v.Reach("name")
}

// Package c27 checks validation.
package c27

import (
	"io"
	"strconv"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"verifh/u"
	"verifh/v"
)

// H_C27_name: names start with a letter, hold letters, digits and underscores, and are at most 144 long.
func H_C27_name() {
	n := []int{0, 1, 2, 3, 143, 144, 145}[v.Case(7)]
	name := []byte(strings.Repeat("a", n))
	for i := 0; i < n && i < 3; i++ {
		j := []int{0, n - 1, n / 2}[i]
		name[j] = v.Byte()
		v.Assume(name[j] < 0x80)
	}
	ok := n > 0 && n <= 144
	for i, c := range name {
		if i > 3 && i != n/2 && i != n-1 {
			continue
		}
		letter := v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z'))
		if i == 0 {
			ok = v.And(ok, letter)
		} else {
			ok = v.And(ok, v.Or(letter, v.Or(c == '_', v.And(c >= '0', c <= '9'))))
		}
	}
	v.Assert((validate.ValidName(string(name)) == nil) == ok, "exactly the names in the documented form are valid")
	v.Reach("name")
}

// entries is a source of entries.
type entries struct {
	st   *dataset.Structure
	vals []interface{}
	keys []string
	i    int
	err  error
}

func (r *entries) Structure() *dataset.Structure { return r.st }
func (r *entries) Close() error                  { return nil }
func (r *entries) ReadEntry() (dsio.Entry, error) {
	if r.i >= len(r.vals) {
		if r.err != nil {
			return dsio.Entry{}, r.err
		}
		return dsio.Entry{}, io.EOF
	}
	e := dsio.Entry{Index: r.i, Value: r.vals[r.i]}
	if r.keys != nil {
		e.Key = r.keys[r.i]
	}
	r.i++
	return e, nil
}

var types = []string{"integer", "number", "string", "boolean", "null", "array", "object"}

// val gives some value and the schema types it has.
func val() (interface{}, []string) {
	switch v.Pick(8) {
	case 0:
		d := v.Byte()
		v.Assume(d >= 'a' && d <= 'z')
		return string([]byte{d, 'x'}), []string{"string"}
	case 1:
		return int64(v.Pick(3)) - 1, []string{"integer", "number"}
	case 2:
		return 1.5, []string{"number"}
	case 3:
		return v.Pick(2) == 1, []string{"boolean"}
	case 4:
		return nil, []string{"null"}
	case 5:
		return []interface{}{}, []string{"array"}
	case 6:
		return map[string]interface{}{}, []string{"object"}
	default:
		return "", []string{"string"}
	}
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// H_C27_entries: value validation reports exactly the entries that do not conform, in order, by position or key.
func H_C27_entries() {
	typ := types[v.Case(len(types))]
	kind := v.Case(3)
	n := v.Pick(v.Bound(3, 4))
	r := &entries{}
	var want []string
	add := func() {
		i := len(r.vals)
		x, ts := val()
		path := "/" + strconv.Itoa(i)
		switch kind {
		case 0:
			r.vals = append(r.vals, x)
		case 1:
			r.vals = append(r.vals, []interface{}{"t", x})
			path += "/1"
		case 2:
			r.keys = append(r.keys, "k"+strconv.Itoa(i))
			r.vals = append(r.vals, x)
			path = "/k" + strconv.Itoa(i)
		}
		if !in(typ, ts) {
			want = append(want, path)
		}
	}
	for i := 0; i < n; i++ {
		add()
	}
	item := map[string]interface{}{"type": typ}
	var sch map[string]interface{}
	switch kind {
	case 0:
		sch = map[string]interface{}{"type": "array", "items": item}
	case 1:
		sch = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"type": "string"}, item}}}
	case 2:
		sch = map[string]interface{}{"type": "object", "properties": map[string]interface{}{"k0": item, "k1": item, "k2": item, "k3": item}}
	}
	r.st = &dataset.Structure{Format: "json", Schema: sch}
	errs, err := validate.EntryReader(r)
	v.Assert(err == nil, "the body is validated")
	v.Assert(len(errs) == len(want), "exactly the entries that do not conform are reported")
	for i := range errs {
		if kind == 2 {
			v.Assert(in(errs[i].PropertyPath, want), "an error names its entry")
			continue
		}
		v.Assert(errs[i].PropertyPath == want[i], "an error names its entry")
	}
	v.Reach("entries " + []string{"list", "table", "object"}[kind])
}

// H_C27_readerr: an entry that cannot be read ends validation with an error.
func H_C27_readerr() {
	r := &entries{st: u.ArrayStruct("json"), err: u.ErrSource}
	n := v.Pick(3)
	for i := 0; i < n; i++ {
		r.vals = append(r.vals, "a")
	}
	_, err := validate.EntryReader(r)
	v.Assert(err != nil, "an entry that cannot be read is reported")
	v.Reach("readerr")
}

// H_C27_batch: positions and errors stay right in bodies validated in several parts.
func H_C27_batch() {
	v.Steps(200_000_000)
	n := []int{5000, 5001, 10001}[v.Case(v.Bound(2, 3))]
	bad := []int{n - 1, 4998, 4999, 0}[v.Case(v.Bound(3, 4))]
	c := v.Byte()
	v.Assume(c >= 'a' && c <= 'z')
	vals := make([]interface{}, n)
	for i := range vals {
		vals[i] = int64(1)
	}
	vals[bad] = string([]byte{c})
	r := &entries{vals: vals, st: &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer"}}}}
	errs, err := validate.EntryReader(r)
	v.Assert(err == nil, "the body is validated")
	v.Assert(len(errs) == 1, "exactly the entries that do not conform are reported")
	v.Assert(errs[0].PropertyPath == "/"+strconv.Itoa(bad), "an error names the position of its entry")
	v.Reach("batch")
}

// H_C27_csv: row lengths of CSV bodies.
func H_C27_csv() {
	n := v.Bound(5, 7)
	data := v.Bytes(n)
	for _, c := range data {
		v.Assume(c == 'a' || c == ',' || c == '\n' || c == '"' || c == ' ')
	}
	err := validate.CheckCsvRowLengths(&u.Src{Data: data})
	same, ok := lengths(data)
	if !ok {
		v.Assert(err != nil, "malformed CSV is reported")
		v.Reach("malformed")
		return
	}
	v.Assert((err == nil) == same, "exactly bodies with rows of one length are accepted")
	if same {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
}

// lengths reads the rows of a CSV body: whether they have one length, and whether the body is well formed.
// Fields may follow spaces, empty lines are no rows, and there must be a row.
func lengths(b []byte) (same, ok bool) {
	first, rows := 0, 0
	same = true
	i := 0
	for i < len(b) {
		if b[i] == '\n' {
			i++
			continue
		}
		fields := 0
		for {
			for i < len(b) && b[i] == ' ' {
				i++
			}
			if i < len(b) && b[i] == '"' {
				i++
				for {
					if i >= len(b) {
						return false, false
					}
					if b[i] != '"' {
						i++
						continue
					}
					i++
					if i < len(b) && b[i] == '"' {
						i++
						continue
					}
					break
				}
				if i < len(b) && b[i] != ',' && b[i] != '\n' {
					return false, false
				}
			} else {
				for i < len(b) && b[i] != ',' && b[i] != '\n' {
					if b[i] == '"' {
						return false, false
					}
					i++
				}
			}
			fields++
			if i < len(b) && b[i] == ',' {
				i++
				continue
			}
			i++
			break
		}
		if rows == 0 {
			first = fields
		} else if fields != first {
			same = false
		}
		rows++
	}
	return same, rows > 0
}

var formats = []string{"", "csv", "json", "ndjson", "cbor", "xml", "xlsx", "jsonl"}

// H_C27_dataset: datasets need a commit, titles at most 100 characters (of 1, 2 or 3 bytes) long, a known format and a schema.
func H_C27_dataset() {
	if v.Case(2) == 0 {
		// any text as format
		f := string(v.Bytes(v.Pick(v.Bound(6, 8))))
		known := false
		for _, k := range formats[1:] {
			known = known || f == k
		}
		if len(f) > 0 && f[0] == '.' {
			// a leading dot as in file extensions is allowed
			for _, k := range formats[1:] {
				known = known || f[1:] == k
			}
		}
		err := validate.Structure(&dataset.Structure{Format: f, Schema: map[string]interface{}{"type": "array"}})
		v.Assert((err == nil) == known, "exactly the known formats are accepted")
		v.Reach("format")
		return
	}
	v.Assert(validate.Dataset(nil) == nil && validate.Structure(nil) == nil && validate.Commit(nil) == nil, "nothing is valid")
	ds := &dataset.Dataset{}
	ok := false
	if v.Pick(2) == 1 {
		n := []int{0, 1, 99, 100, 101, 150}[v.Pick(6)]
		ds.Commit = &dataset.Commit{Title: strings.Repeat([]string{"t", "\u00fc", "\u8a9e"}[v.Pick(3)], n)}
		ok = n <= 100
		v.Assert((validate.Commit(ds.Commit) == nil) == ok, "commit titles have at most 100 characters")
	}
	switch v.Pick(3) {
	case 1:
		ds.Structure = &dataset.Structure{Format: formats[v.Pick(len(formats))]}
	case 2:
		ds.Structure = &dataset.Structure{Format: formats[v.Pick(len(formats))], Schema: map[string]interface{}{}}
		if v.Pick(2) == 1 {
			ds.Structure.Schema["type"] = "array"
		}
	}
	if st := ds.Structure; st != nil {
		good := st.Format != "" && st.Schema != nil
		v.Assert((validate.Structure(st) == nil) == good, "structures need a format and a schema")
		ok = ok && good
	}
	v.Assert((validate.Dataset(ds) == nil) == ok, "datasets need a valid commit, and a valid structure if any")
	if ok {
		v.Reach("valid")
	} else {
		v.Reach("invalid")
	}
}

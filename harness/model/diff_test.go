package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"github.com/ugorji/go/codec"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	"github.com/qri-io/dataset"
)

var frag = []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `"é"`, `"\u00e9"`, `"\ud83d\ude00"`, `"\ud800"`, "\"\xff\"", "1", "-1", "0", "01", "1.5", "1e3", "1E-2", "-0", "true", "false", "null", " ", "\n", "nul", `"\x"`, `"\n"`, "\\", "\x01", `"b":1`, `"path":"x"`, `"<&>"`, "1e999", "9223372036854775808"}

func randDoc(r *rand.Rand, d int) string {
	switch r.Intn(9) {
	case 0:
		return "null"
	case 1:
		return []string{"true", "false"}[r.Intn(2)]
	case 2, 3:
		return []string{"0", "-1", "12", "1.25", "1e3", "-2.5E-3", "123456789012", "1e400"}[r.Intn(8)]
	case 4, 5:
		return []string{`"a"`, `""`, `"\u0041"`, `"\ud83d\ude00x"`, `"\ud83dx"`, "\"\xff\xc3\"", `"\"\\\/\b\f\n\r\t"`, `"<é>"`}[r.Intn(8)]
	case 6:
		if d > 3 {
			return "[]"
		}
		s := "["
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			s += " " + randDoc(r, d+1)
		}
		return s + "]"
	default:
		if d > 3 {
			return "{}"
		}
		s := "{"
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			s += []string{`"a"`, `"Name"`, `"title"`, `"x"`, `"TITLE"`, `"list"`, `"m"`, `"p"`, `"raw"`, `"t"`}[r.Intn(10)] + ":" + randDoc(r, d+1)
		}
		return s + "}"
	}
}

type inner struct {
	A int     `json:"a"`
	X float64 `json:"x,omitempty"`
}
type target struct {
	Name  string                 `json:",omitempty"`
	Title *string                `json:"title,omitempty"`
	List  []interface{}          `json:"list"`
	M     map[string]interface{} `json:"m,omitempty"`
	P     *inner                 `json:"p,omitempty"`
	Raw   []byte                 `json:"raw,omitempty"`
	A     inner                  `json:"a"`
	X     interface{}            `json:"x"`
	T     time.Time              `json:"t"`
	skip  int
	Nope  int `json:"-"`
}

func try(f func() error) (err error, pan interface{}) {
	defer func() { pan = recover() }()
	return f(), nil
}

func TestJSON(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300000; i++ {
		var doc string
		if i%3 == 0 {
			n := r.Intn(6)
			for j := 0; j < n; j++ {
				doc += frag[r.Intn(len(frag))]
			}
		} else {
			doc = randDoc(r, 0)
			if i%3 == 2 && len(doc) > 1 {
				k := r.Intn(len(doc))
				doc = doc[:k] + frag[r.Intn(len(frag))] + doc[k:]
			}
		}
		b := []byte(doc)
		if json.Valid(b) != JSONValid(b) {
			t.Fatalf("valid %q", doc)
		}
		var a, c interface{}
		e1, e2 := json.Unmarshal(b, &a), JSONUnmarshal(b, &c)
		if (e1 == nil) != (e2 == nil) || (e1 == nil && !reflect.DeepEqual(a, c)) {
			t.Fatalf("any %q %v %v %#v %#v", doc, e1, e2, a, c)
		}
		var s1, s2 target
		e1, e2 = json.Unmarshal(b, &s1), JSONUnmarshal(b, &s2)
		if (e1 == nil) != (e2 == nil) || (e1 == nil && !reflect.DeepEqual(s1, s2)) {
			t.Fatalf("struct %q %v %v %#v %#v", doc, e1, e2, s1, s2)
		}
		stream := doc + []string{"", " ", "\n", ",", "1", "true ", "x"}[i%7] + doc
		p1, p2 := json.NewDecoder(strings.NewReader(stream)), JSONNewDecoder(iotest.OneByteReader(strings.NewReader(stream)))
		for k := 0; k < 4; k++ {
			if m1, m2 := p1.More(), JSONMore(p2); m1 != m2 {
				t.Fatalf("more %q %d", stream, k)
			}
			var y1, y2 interface{}
			e1, e2 := p1.Decode(&y1), JSONDecode(p2, &y2)
			if (e1 == nil) != (e2 == nil) || (e1 == io.EOF) != (e2 == io.EOF) || (e1 == io.ErrUnexpectedEOF) != (e2 == io.ErrUnexpectedEOF) || e1 == nil && !reflect.DeepEqual(y1, y2) {
				t.Fatalf("stream %q %d: %v %v %v %v", stream, k, e1, e2, y1, y2)
			}
		}
		c1, c2 := &bytes.Buffer{}, &bytes.Buffer{}
		if e1, e2 := json.Compact(c1, b), JSONCompact(c2, b); (e1 == nil) != (e2 == nil) || c1.String() != c2.String() {
			t.Fatalf("compact %q %v %v", doc, e1, e2)
		}
		c1, c2 = &bytes.Buffer{}, &bytes.Buffer{}
		if len(bytes.TrimRight(b, " \t\r\n")) < len(b) {
			// what becomes of trailing white space depends on the version of Go: the model keeps it
		} else if e1, e2 := json.Indent(c1, b, ">", " "), JSONIndent(c2, b, ">", " "); (e1 == nil) != (e2 == nil) || c1.String() != c2.String() {
			t.Fatalf("indent %q %v %v: %q %q", doc, e1, e2, c1, c2)
		}
		c1, c2 = &bytes.Buffer{}, &bytes.Buffer{}
		n1, n2 := json.NewEncoder(c1), JSONNewEncoder(c2)
		n1.SetEscapeHTML(i%2 == 0)
		JSONSetEscapeHTML(n2, i%2 == 0)
		if i%3 == 0 {
			n1.SetIndent("", " ")
			JSONSetIndent(n2, "", " ")
		}
		if e1, e2 := n1.Encode(a), JSONEncode(n2, a); (e1 == nil) != (e2 == nil) || c1.String() != c2.String() {
			t.Fatalf("encode %q %v %v: %q %q", doc, e1, e2, c1, c2)
		}
		for _, x := range []interface{}{a, s1, &s1} {
			o1, f1 := json.Marshal(x)
			o2, f2 := JSONMarshal(x)
			if (f1 == nil) != (f2 == nil) || !bytes.Equal(o1, o2) {
				t.Fatalf("marshal %q: %s / %s  %v %v", doc, o1, o2, f1, f2)
			}
			o1, f1 = json.MarshalIndent(x, " ", "  ")
			o2, f2 = JSONMarshalIndent(x, " ", "  ")
			if (f1 == nil) != (f2 == nil) || !bytes.Equal(o1, o2) {
				t.Fatalf("marshalIndent %q: %s / %s  %v %v", doc, o1, o2, f1, f2)
			}
			if i%10 == 0 {
				for _, vb := range []string{"%v", "%s", "%d"} {
					if m, ok := x.(map[string]interface{}); ok && vb == "%v" {
						if p, q := fmt.Sprintf(vb, m), Sprintf(vb, m); p != q {
							t.Fatalf("fmt %s / %s", p, q)
						}
					}
				}
			}
		}
		if i%20 == 0 {
			var d1, d2 dataset.Dataset
			e1, p1 := try(func() error { return json.Unmarshal(b, &d1) })
			e2, p2 := try(func() error { return JSONUnmarshal(b, &d2) })
			if (e1 == nil) != (e2 == nil) || (p1 == nil) != (p2 == nil) || (e1 == nil && p1 == nil && !reflect.DeepEqual(d1, d2)) {
				t.Fatalf("dataset %q %v %v", doc, e1, e2)
			}
		}
	}
}

func TestFmt(t *testing.T) {
	type st struct {
		A int
		B string
	}
	args := []interface{}{1, "x", int64(-5), 1.5, 1e21, 1e20, 1e-5, float32(0.1), true, nil, []byte("ab"), []string{"a", "b"}, st{1, "q"}, &st{2, "z"}, fmt.Errorf("e"), []interface{}{1, "a", nil}, map[string]int{"b": 1, "a": 2}, uint8(7), []int{}, 100000.0, 123456789.0, 0.0}
	for _, a := range args {
		for _, f := range []string{"%v", "a%vb"} {
			if p, q := fmt.Sprintf(f, a), Sprintf(f, a); p != q {
				t.Errorf("%s %T: %q %q", f, a, p, q)
			}
		}
		if p, q := fmt.Sprint(a, a), Sprint(a, a); p != q {
			t.Errorf("sprint %T: %q %q", a, p, q)
		}
	}
	for _, c := range []struct {
		f string
		a []interface{}
	}{{"%d-%s", []interface{}{3, "x"}}, {"%q", []interface{}{"a\"b"}}, {"%T", []interface{}{1.5}}, {"%x", []interface{}{"az"}}, {"%05d", []interface{}{42}}, {"%d%%", []interface{}{42}}, {"%.2f", []interface{}{3.14159}}, {"%t", []interface{}{true}}, {"%s", []interface{}{fmt.Errorf("q")}}, {"%T", []interface{}{map[string]interface{}{}}}, {"%T", []interface{}{nil}}} {
		if p, q := fmt.Sprintf(c.f, c.a...), Sprintf(c.f, c.a...); p != q {
			t.Errorf("%s: %q %q", c.f, p, q)
		}
	}
}

func TestCBORDiff(t *testing.T) {
	h := &codec.CborHandle{TimeRFC3339: true}
	h.Canonical = true
	vals := []interface{}{nil, true, false, "", "abc", strings.Repeat("x", 300), strings.Repeat("y", 70000), []byte{}, []byte{1, 2}, []byte(nil),
		0, 23, 24, 255, 256, 65535, 65536, math.MaxUint32, math.MaxUint32 + 1, int64(math.MaxInt64), int64(math.MinInt64), -1, -24, -25, -256, -257, int32(-5), uint64(math.MaxUint64), uint8(7),
		1.5, float32(2.5), math.NaN(), math.Inf(1), []interface{}{}, []interface{}(nil), []interface{}{1, "a", nil}, map[string]interface{}{}, map[string]interface{}(nil),
		map[string]interface{}{"b": 1, "a": []interface{}{2}, "": nil, "aa": map[string]interface{}{"z": 1, "y": 2}, "Z": 1.0}}
	for _, x := range vals {
		for _, y := range []interface{}{x, []interface{}{x, "t"}, map[string]interface{}{"k": x}} {
			buf := &bytes.Buffer{}
			if err := codec.NewEncoder(buf, h).Encode(y); err != nil {
				t.Fatal(err)
			}
			got, err := CBORBytes(nil, y, h)
			if err != nil || !bytes.Equal(got, buf.Bytes()) {
				t.Errorf("%v: %x want %x", y, got, buf.Bytes())
			}
		}
	}
}

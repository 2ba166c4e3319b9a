package model

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifh/v"
)

// ---------------------------------------------------------------- encoding

type encState struct {
	b      []byte
	escape bool
}

var (
	marshalerT     = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textMarshalerT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	unmarshalerT   = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	textUnmarshT   = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	numberT        = reflect.TypeOf(json.Number(""))
)

// JSONMarshal models encoding/json.Marshal.
func JSONMarshal(x interface{}) ([]byte, error) {
	e := &encState{escape: true}
	if err := e.value(reflect.ValueOf(x), 0); err != nil {
		return nil, err
	}
	return e.b, nil
}

// JSONMarshalIndent models encoding/json.MarshalIndent.
func JSONMarshalIndent(x interface{}, prefix, indent string) ([]byte, error) {
	b, err := JSONMarshal(x)
	if err != nil {
		return nil, err
	}
	out, err := indentJSON(nil, b, prefix, indent)
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (e *encState) marshaler(rv reflect.Value) error {
	if rv.Kind() == reflect.Ptr && rv.IsNil() {
		e.b = append(e.b, "null"...)
		return nil
	}
	m, ok := rv.Interface().(json.Marshaler)
	if !ok {
		e.b = append(e.b, "null"...)
		return nil
	}
	raw, err := m.MarshalJSON()
	if err == nil {
		e.b, err = compactJSON(e.b, raw, e.escape)
	}
	if err != nil {
		return &json.MarshalerError{Type: rv.Type(), Err: err}
	}
	return nil
}

func (e *encState) value(rv reflect.Value, depth int) error {
	if depth > 200 {
		v.Unsupported("json: deep value")
	}
	if !rv.IsValid() {
		e.b = append(e.b, "null"...)
		return nil
	}
	t := rv.Type()
	k := rv.Kind()
	if k != reflect.Interface {
		if k != reflect.Ptr && rv.CanAddr() && reflect.PtrTo(t).Implements(marshalerT) {
			return e.marshaler(rv.Addr())
		}
		if t.Implements(marshalerT) {
			return e.marshaler(rv)
		}
		if t.Implements(textMarshalerT) {
			if k == reflect.Ptr && rv.IsNil() {
				e.b = append(e.b, "null"...)
				return nil
			}
			txt, err := rv.Interface().(encoding.TextMarshaler).MarshalText()
			if err != nil {
				return &json.MarshalerError{Type: t, Err: err}
			}
			e.b = appendString(e.b, string(txt), e.escape)
			return nil
		}
	}
	switch k {
	case reflect.Bool:
		if rv.Bool() {
			e.b = append(e.b, "true"...)
		} else {
			e.b = append(e.b, "false"...)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		e.b = append(e.b, strconv.FormatInt(rv.Int(), 10)...)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		e.b = append(e.b, strconv.FormatUint(rv.Uint(), 10)...)
	case reflect.Float64, reflect.Float32:
		f := rv.Float()
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return &json.UnsupportedValueError{Value: rv, Str: strconv.FormatFloat(f, 'g', -1, 64)}
		}
		bits := 64
		if k == reflect.Float32 {
			bits = 32
		}
		e.b = append(e.b, formatFloat(f, bits)...)
	case reflect.String:
		if t == numberT {
			s := rv.String()
			if s == "" {
				s = "0"
			}
			e.b = append(e.b, s...)
			return nil
		}
		e.b = appendString(e.b, rv.String(), e.escape)
	case reflect.Interface, reflect.Ptr:
		if rv.IsNil() {
			e.b = append(e.b, "null"...)
			return nil
		}
		return e.value(rv.Elem(), depth+1)
	case reflect.Struct:
		e.b = append(e.b, '{')
		if err := e.fields(rv, &[]string{}, depth); err != nil {
			return err
		}
		e.b = append(e.b, '}')
	case reflect.Map:
		if rv.IsNil() {
			e.b = append(e.b, "null"...)
			return nil
		}
		if t.Key().Kind() != reflect.String {
			switch t.Key().Kind() {
			case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
				v.Unsupported("json: integer map keys")
			}
			return &json.UnsupportedTypeError{Type: t}
		}
		keys := rv.MapKeys()
		strs := make([]string, len(keys))
		for i, k := range keys {
			strs[i] = k.String()
		}
		// insertion sort: stable under symbolic keys
		for i := 1; i < len(strs); i++ {
			for j := i; j > 0 && strs[j] < strs[j-1]; j-- {
				strs[j], strs[j-1] = strs[j-1], strs[j]
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
		e.b = append(e.b, '{')
		for i, s := range strs {
			if i > 0 {
				e.b = append(e.b, ',')
			}
			e.b = appendString(e.b, s, e.escape)
			e.b = append(e.b, ':')
			if err := e.value(rv.MapIndex(keys[i]), depth+1); err != nil {
				return err
			}
		}
		e.b = append(e.b, '}')
	case reflect.Slice:
		if rv.IsNil() {
			e.b = append(e.b, "null"...)
			return nil
		}
		if t.Elem().Kind() == reflect.Uint8 {
			e.b = append(e.b, '"')
			e.b = append(e.b, encodeBase64(rv.Bytes())...)
			e.b = append(e.b, '"')
			return nil
		}
		return e.array(rv, depth)
	case reflect.Array:
		return e.array(rv, depth)
	default:
		return &json.UnsupportedTypeError{Type: t}
	}
	return nil
}

// fields writes the fields of a struct, those of embedded structs included.
func (e *encState) fields(rv reflect.Value, seen *[]string, depth int) error {
	t := rv.Type()
	n := t.NumField()
	for i := 0; i < n; i++ {
		sf := t.Field(i)
		if sf.Anonymous && sf.Tag.Get("json") == "" {
			switch {
			case sf.Type.Kind() == reflect.Struct:
				if err := e.fields(rv.Field(i), seen, depth); err != nil {
					return err
				}
				continue
			case sf.Type.Kind() == reflect.Ptr:
				v.Unsupported("json: embedded pointer " + sf.Name)
			case sf.PkgPath != "":
				continue
			}
			sf.Anonymous = false
		}
		name, opts, skip := fieldName(sf)
		if skip {
			continue
		}
		for _, s := range *seen {
			if s == name {
				v.Unsupported("json: two fields named " + name)
			}
		}
		fv := rv.Field(i)
		empty := strings.Contains(opts, ",omitempty") && isEmpty(fv)
		if strings.Contains(opts, ",string") || strings.Contains(opts, ",omitzero") || strings.Contains(opts, ",inline") {
			v.Unsupported("json: tag option " + opts)
		}
		if empty {
			continue
		}
		if len(*seen) > 0 {
			e.b = append(e.b, ',')
		}
		*seen = append(*seen, name)
		e.b = appendString(e.b, name, e.escape)
		e.b = append(e.b, ':')
		if err := e.value(fv, depth+1); err != nil {
			return err
		}
	}
	return nil
}

func (e *encState) array(rv reflect.Value, depth int) error {
	e.b = append(e.b, '[')
	n := rv.Len()
	for i := 0; i < n; i++ {
		if i > 0 {
			e.b = append(e.b, ',')
		}
		if err := e.value(rv.Index(i), depth+1); err != nil {
			return err
		}
	}
	e.b = append(e.b, ']')
	return nil
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func encodeBase64(src []byte) []byte {
	var out []byte
	for len(src) > 0 {
		var c [3]byte
		n := copy(c[:], src)
		src = src[n:]
		x := uint(c[0])<<16 | uint(c[1])<<8 | uint(c[2])
		q := [4]byte{b64[x>>18&63], b64[x>>12&63], b64[x>>6&63], b64[x&63]}
		if n < 3 {
			q[3] = '='
		}
		if n < 2 {
			q[2] = '='
		}
		out = append(out, q[:]...)
	}
	return out
}

func decodeBase64(s []byte) ([]byte, bool) {
	var clean []byte
	for _, c := range s {
		if c != '\r' && c != '\n' {
			clean = append(clean, c)
		}
	}
	s = clean
	if len(s)%4 != 0 {
		return nil, false
	}
	out := []byte{}
	for i := 0; i < len(s); i += 4 {
		x, n := uint(0), 0
		for j := 0; j < 4; j++ {
			c := s[i+j]
			d := -1
			switch {
			case c >= 'A' && c <= 'Z':
				d = int(c - 'A')
			case c >= 'a' && c <= 'z':
				d = int(c-'a') + 26
			case c >= '0' && c <= '9':
				d = int(c-'0') + 52
			case c == '+':
				d = 62
			case c == '/':
				d = 63
			}
			if d < 0 {
				if c == '=' && i+4 == len(s) && (j == 3 || (j == 2 && s[i+3] == '=')) {
					break
				}
				return nil, false
			}
			if n != j {
				return nil, false
			}
			x |= uint(d) << uint(18-6*j)
			n++
		}
		if n == 4 {
			out = append(out, byte(x>>16), byte(x>>8), byte(x))
		} else if n == 3 {
			out = append(out, byte(x>>16), byte(x>>8))
		} else {
			out = append(out, byte(x>>16))
		}
	}
	return out, true
}

func fieldName(sf reflect.StructField) (name, opts string, skip bool) {
	if sf.PkgPath != "" && !sf.Anonymous {
		return "", "", true
	}
	tag := sf.Tag.Get("json")
	if tag == "-" {
		return "", "", true
	}
	if i := strings.IndexByte(tag, ','); i >= 0 {
		name, opts = tag[:i], tag[i:]
	} else {
		name = tag
	}
	if sf.Anonymous && name == "" {
		v.Unsupported("json: embedded field " + sf.Name)
	}
	if name == "" {
		name = sf.Name
	}
	return
}

func isEmpty(rv reflect.Value) bool {
	switch rv.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return rv.Len() == 0
	case reflect.Bool:
		return !rv.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return rv.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return rv.Float() == 0
	case reflect.Interface, reflect.Ptr:
		return rv.IsNil()
	}
	return false
}

func formatFloat(f float64, bits int) string {
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	s := strconv.FormatFloat(f, fm, -1, bits)
	if fm == 'e' {
		n := len(s)
		if n >= 4 && s[n-4] == 'e' && (s[n-3] == '-' || s[n-3] == '+') && s[n-2] == '0' {
			s = s[:n-2] + s[n-1:]
		}
	}
	return s
}

const hexd = "0123456789abcdef"

func appendString(dst []byte, s string, escapeHTML bool) []byte {
	dst = append(dst, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				dst = append(dst, '\\', c)
			case c == '\n':
				dst = append(dst, '\\', 'n')
			case c == '\r':
				dst = append(dst, '\\', 'r')
			case c == '\t':
				dst = append(dst, '\\', 't')
			case c == '\b':
				dst = append(dst, '\\', 'b')
			case c == '\f':
				dst = append(dst, '\\', 'f')
			case c < ' ' || (escapeHTML && (c == '<' || c == '>' || c == '&')):
				dst = append(dst, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				dst = append(dst, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			dst = append(dst, `\ufffd`...)
			i++
			continue
		}
		if r == 0x2028 || r == 0x2029 {
			dst = append(dst, `\u202`...)
			dst = append(dst, hexd[r&15])
			i += n
			continue
		}
		dst = append(dst, s[i:i+n]...)
		i += n
	}
	return append(dst, '"')
}

// compactJSON appends src without insignificant space.
func compactJSON(dst, src []byte, escape bool) ([]byte, error) {
	if err := checkValid(src); err != nil {
		return dst, err
	}
	inStr := false
	for i := 0; i < len(src); i++ {
		c := src[i]
		if inStr {
			if c == '\\' {
				dst = append(dst, c, src[i+1])
				i++
				continue
			}
			if c == '"' {
				inStr = false
			}
			if escape && (c == '<' || c == '>' || c == '&') {
				dst = append(dst, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
				continue
			}
			if c == 0xE2 && i+2 < len(src) && src[i+1] == 0x80 && src[i+2]&^1 == 0xA8 && escape {
				dst = append(dst, '\\', 'u', '2', '0', '2', hexd[src[i+2]&15])
				i += 2
				continue
			}
			dst = append(dst, c)
			continue
		}
		if isSpace(c) {
			continue
		}
		if c == '"' {
			inStr = true
		}
		dst = append(dst, c)
	}
	return dst, nil
}

func indentJSON(dst, src []byte, prefix, indent string) ([]byte, error) {
	if err := checkValid(src); err != nil {
		return dst, err
	}
	nl := func(d int) {
		dst = append(dst, '\n')
		dst = append(dst, prefix...)
		for i := 0; i < d; i++ {
			dst = append(dst, indent...)
		}
	}
	inStr := false
	need := false
	depth := 0
	for i := 0; i < len(src); i++ {
		c := src[i]
		if inStr {
			dst = append(dst, c)
			if c == '\\' {
				i++
				dst = append(dst, src[i])
			} else if c == '"' {
				inStr = false
			}
			continue
		}
		if isSpace(c) {
			continue
		}
		if need && c != ']' && c != '}' {
			need = false
			depth++
			nl(depth)
		}
		switch c {
		case '"':
			inStr = true
			dst = append(dst, c)
		case '{', '[':
			need = true
			dst = append(dst, c)
		case ',':
			dst = append(dst, c)
			nl(depth)
		case ':':
			dst = append(dst, c, ' ')
		case '}', ']':
			if need {
				need = false
			} else {
				depth--
				nl(depth)
			}
			dst = append(dst, c)
		default:
			dst = append(dst, c)
		}
	}
	return dst, nil
}

// ---------------------------------------------------------------- scanning

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

var errTooDeep = errors.New("exceeded max depth")

type scan struct {
	d   []byte
	pos int
}

func (s *scan) ws() {
	for s.pos < len(s.d) && isSpace(s.d[s.pos]) {
		s.pos++
	}
}

func (s *scan) bad() error { return &json.SyntaxError{Offset: int64(s.pos)} }

func (s *scan) lit(w string) error {
	for i := 0; i < len(w); i++ {
		if s.pos >= len(s.d) || s.d[s.pos] != w[i] {
			return s.bad()
		}
		s.pos++
	}
	return nil
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

func (s *scan) str() error {
	s.pos++ // opening quote
	for s.pos < len(s.d) {
		c := s.d[s.pos]
		switch {
		case c == '"':
			s.pos++
			return nil
		case c == '\\':
			s.pos++
			if s.pos >= len(s.d) {
				return s.bad()
			}
			switch s.d[s.pos] {
			case 'b', 'f', 'n', 'r', 't', '\\', '/', '"':
				s.pos++
			case 'u':
				s.pos++
				for i := 0; i < 4; i++ {
					if s.pos >= len(s.d) || !isHex(s.d[s.pos]) {
						return s.bad()
					}
					s.pos++
				}
			default:
				return s.bad()
			}
		case c < 0x20:
			return s.bad()
		default:
			s.pos++
		}
	}
	return s.bad()
}

func (s *scan) digits() bool {
	n := 0
	for s.pos < len(s.d) && isDigit(s.d[s.pos]) {
		s.pos++
		n++
	}
	return n > 0
}

func (s *scan) num() error {
	if s.d[s.pos] == '-' {
		s.pos++
	}
	if s.pos >= len(s.d) {
		return s.bad()
	}
	if s.d[s.pos] == '0' {
		s.pos++
	} else if !s.digits() {
		return s.bad()
	}
	if s.pos < len(s.d) && s.d[s.pos] == '.' {
		s.pos++
		if !s.digits() {
			return s.bad()
		}
	}
	if s.pos < len(s.d) && (s.d[s.pos] == 'e' || s.d[s.pos] == 'E') {
		s.pos++
		if s.pos < len(s.d) && (s.d[s.pos] == '+' || s.d[s.pos] == '-') {
			s.pos++
		}
		if !s.digits() {
			return s.bad()
		}
	}
	return nil
}

// skip moves over one value.
func (s *scan) skip(depth int) error {
	if depth > 10000 {
		return errTooDeep
	}
	s.ws()
	if s.pos >= len(s.d) {
		return s.bad()
	}
	switch c := s.d[s.pos]; {
	case c == '"':
		return s.str()
	case c == '[':
		s.pos++
		s.ws()
		if s.pos < len(s.d) && s.d[s.pos] == ']' {
			s.pos++
			return nil
		}
		for {
			if err := s.skip(depth + 1); err != nil {
				return err
			}
			s.ws()
			if s.pos >= len(s.d) {
				return s.bad()
			}
			c := s.d[s.pos]
			if c == ']' {
				s.pos++
				return nil
			}
			if c != ',' {
				return s.bad()
			}
			s.pos++
		}
	case c == '{':
		s.pos++
		s.ws()
		if s.pos < len(s.d) && s.d[s.pos] == '}' {
			s.pos++
			return nil
		}
		for {
			s.ws()
			if s.pos >= len(s.d) || s.d[s.pos] != '"' {
				return s.bad()
			}
			if err := s.str(); err != nil {
				return err
			}
			s.ws()
			if s.pos >= len(s.d) || s.d[s.pos] != ':' {
				return s.bad()
			}
			s.pos++
			if err := s.skip(depth + 1); err != nil {
				return err
			}
			s.ws()
			if s.pos >= len(s.d) {
				return s.bad()
			}
			c := s.d[s.pos]
			if c == '}' {
				s.pos++
				return nil
			}
			if c != ',' {
				return s.bad()
			}
			s.pos++
		}
	case c == 't':
		return s.lit("true")
	case c == 'f':
		return s.lit("false")
	case c == 'n':
		return s.lit("null")
	case c == '-' || isDigit(c):
		return s.num()
	}
	return s.bad()
}

func checkValid(d []byte) error {
	s := &scan{d: d}
	if err := s.skip(0); err != nil {
		return err
	}
	s.ws()
	if s.pos != len(s.d) {
		return s.bad()
	}
	return nil
}

// JSONValid models encoding/json.Valid.
func JSONValid(d []byte) bool { return checkValid(d) == nil }

// ---------------------------------------------------------------- decoding

type decState struct {
	scan
	saved  error
	useNum bool
	ints   bool // integers as int64, as the body reader promises
}

// JSONUnmarshal models encoding/json.Unmarshal.
func JSONUnmarshal(data []byte, x interface{}) error {
	if err := checkValid(data); err != nil {
		return err
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return &json.InvalidUnmarshalError{Type: reflect.TypeOf(x)}
	}
	d := &decState{scan: scan{d: data}}
	if err := d.value(rv); err != nil {
		return err
	}
	return d.saved
}

func (d *decState) save(err error) {
	if d.saved == nil {
		d.saved = err
	}
}

// indirect follows pointers, allocating, and stops at an unmarshaler.
func indirect(rv reflect.Value, null bool) (json.Unmarshaler, encoding.TextUnmarshaler, reflect.Value) {
	v0 := rv
	haveAddr := false
	if rv.Kind() != reflect.Ptr && rv.Type().Name() != "" && rv.CanAddr() {
		haveAddr = true
		rv = rv.Addr()
	}
	for {
		if rv.Kind() == reflect.Interface && !rv.IsNil() {
			e := rv.Elem()
			if e.Kind() == reflect.Ptr && !e.IsNil() && (!null || e.Elem().Kind() == reflect.Ptr) {
				haveAddr = false
				rv = e
				continue
			}
		}
		if rv.Kind() != reflect.Ptr {
			break
		}
		if null && rv.CanSet() {
			break
		}
		if rv.Elem().Kind() == reflect.Interface && !rv.Elem().IsNil() && rv.Elem().Elem().Kind() == reflect.Ptr && rv.Elem().Elem().Pointer() == rv.Pointer() {
			rv = rv.Elem()
			break
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		if rv.Type().Implements(unmarshalerT) {
			return rv.Interface().(json.Unmarshaler), nil, reflect.Value{}
		}
		if !null && rv.Type().Implements(textUnmarshT) {
			return nil, rv.Interface().(encoding.TextUnmarshaler), reflect.Value{}
		}
		if haveAddr {
			rv = v0
			haveAddr = false
		} else {
			rv = rv.Elem()
		}
	}
	return nil, nil, rv
}

func (d *decState) raw() []byte {
	d.ws()
	p := d.pos
	d.skip(0)
	return d.d[p:d.pos]
}

func (d *decState) value(rv reflect.Value) error {
	d.ws()
	c := d.d[d.pos]
	if c == 'n' {
		return d.null(rv)
	}
	u, tu, pv := indirect(rv, false)
	if u != nil {
		return u.UnmarshalJSON(d.raw())
	}
	if tu != nil {
		if c != '"' {
			d.save(&json.UnmarshalTypeError{Value: kindName(c), Type: reflect.TypeOf(tu), Offset: int64(d.pos)})
			d.raw()
			return nil
		}
		return tu.UnmarshalText([]byte(d.strVal()))
	}
	if pv.Kind() == reflect.Interface && pv.NumMethod() == 0 {
		x := d.any()
		pv.Set(anyValue(x))
		return nil
	}
	switch c {
	case '[':
		return d.array(pv)
	case '{':
		return d.object(pv)
	}
	d.literal(pv, c)
	return nil
}

func anyValue(x interface{}) reflect.Value {
	if x == nil {
		var i interface{}
		return reflect.ValueOf(&i).Elem()
	}
	return reflect.ValueOf(x)
}

func kindName(c byte) string {
	switch c {
	case '"':
		return "string"
	case '[':
		return "array"
	case '{':
		return "object"
	case 't', 'f':
		return "bool"
	}
	return "number"
}

func (d *decState) null(rv reflect.Value) error {
	u, _, pv := indirect(rv, true)
	if u != nil {
		return u.UnmarshalJSON(d.raw())
	}
	d.pos += 4
	if !pv.IsValid() {
		return nil
	}
	switch pv.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice:
		pv.Set(reflect.Zero(pv.Type()))
	}
	return nil
}

func (d *decState) mismatch(pv reflect.Value, what string, off int) {
	d.save(&json.UnmarshalTypeError{Value: what, Type: pv.Type(), Offset: int64(off)})
}

func (d *decState) literal(pv reflect.Value, c byte) {
	start := d.pos
	switch {
	case c == 't' || c == 'f':
		b := c == 't'
		d.skip(0)
		switch {
		case pv.Kind() == reflect.Bool:
			pv.SetBool(b)
		case pv.Kind() == reflect.Interface && pv.NumMethod() == 0:
			pv.Set(reflect.ValueOf(b))
		default:
			d.mismatch(pv, "bool", d.pos)
		}
	case c == '"':
		s := d.strVal()
		switch {
		case pv.Kind() == reflect.String:
			if pv.Type() == numberT {
				v.Unsupported("json.Number from string")
			}
			pv.SetString(s)
		case pv.Kind() == reflect.Slice && pv.Type().Elem().Kind() == reflect.Uint8:
			b, ok := decodeBase64([]byte(s))
			if !ok {
				d.save(errors.New("illegal base64 data"))
				return
			}
			pv.SetBytes(b)
		case pv.Kind() == reflect.Interface && pv.NumMethod() == 0:
			pv.Set(reflect.ValueOf(s))
		default:
			d.mismatch(pv, "string", d.pos)
		}
	default:
		d.num()
		s := string(d.d[start:d.pos])
		switch pv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil || pv.OverflowInt(n) {
				d.mismatch(pv, "number "+s, d.pos)
				return
			}
			pv.SetInt(n)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil || pv.OverflowUint(n) {
				d.mismatch(pv, "number "+s, d.pos)
				return
			}
			pv.SetUint(n)
		case reflect.Float64:
			n, err := strconv.ParseFloat(s, 64)
			if err != nil {
				d.mismatch(pv, "number "+s, d.pos)
				return
			}
			pv.SetFloat(n)
		case reflect.Float32:
			n, err := strconv.ParseFloat(s, 32)
			if err != nil {
				d.mismatch(pv, "number "+s, d.pos)
				return
			}
			pv.SetFloat(n)
		case reflect.String:
			if pv.Type() == numberT {
				pv.SetString(s)
				return
			}
			d.mismatch(pv, "number", d.pos)
		default:
			d.mismatch(pv, "number", d.pos)
		}
	}
}

func (d *decState) array(pv reflect.Value) error {
	switch pv.Kind() {
	case reflect.Slice:
	case reflect.Array:
		v.Unsupported("json: decoding into an array")
	default:
		d.mismatch(pv, "array", d.pos+1)
		d.skip(0)
		return nil
	}
	d.pos++
	d.ws()
	i := 0
	if d.d[d.pos] == ']' {
		d.pos++
	} else {
		for {
			if i >= pv.Len() {
				if i < pv.Cap() {
					pv.SetLen(i + 1)
				} else {
					pv.Set(reflect.Append(pv, reflect.Zero(pv.Type().Elem())))
				}
			}
			if err := d.value(pv.Index(i)); err != nil {
				return err
			}
			i++
			d.ws()
			c := d.d[d.pos]
			d.pos++
			if c == ']' {
				break
			}
		}
	}
	if i < pv.Len() {
		pv.SetLen(i)
	}
	if i == 0 {
		pv.Set(reflect.MakeSlice(pv.Type(), 0, 0))
	}
	return nil
}

func (d *decState) object(pv reflect.Value) error {
	t := pv.Type()
	switch pv.Kind() {
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			d.mismatch(pv, "object", d.pos+1)
			d.skip(0)
			return nil
		}
		if pv.IsNil() {
			pv.Set(reflect.MakeMap(t))
		}
	case reflect.Struct:
	default:
		d.mismatch(pv, "object", d.pos+1)
		d.skip(0)
		return nil
	}
	d.pos++
	d.ws()
	if d.d[d.pos] == '}' {
		d.pos++
		return nil
	}
	for {
		d.ws()
		key := d.strVal()
		d.ws()
		d.pos++ // colon
		if pv.Kind() == reflect.Map {
			el := reflect.New(t.Elem()).Elem()
			if err := d.value(el); err != nil {
				return err
			}
			kv := reflect.New(t.Key()).Elem()
			kv.SetString(key)
			pv.SetMapIndex(kv, el)
		} else {
			fi := -1
			n := t.NumField()
			for i := 0; i < n; i++ {
				name, _, skip := fieldName(t.Field(i))
				if !skip && name == key {
					fi = i
					break
				}
			}
			if fi < 0 {
				for i := 0; i < n; i++ {
					name, _, skip := fieldName(t.Field(i))
					if !skip && len(name) == len(key) && strings.EqualFold(name, key) {
						fi = i
						break
					}
				}
			}
			if fi < 0 {
				d.raw()
			} else if err := d.value(pv.Field(fi)); err != nil {
				return err
			}
		}
		d.ws()
		c := d.d[d.pos]
		d.pos++
		if c == '}' {
			return nil
		}
	}
}

func (d *decState) any() interface{} {
	d.ws()
	switch c := d.d[d.pos]; c {
	case 'n':
		d.pos += 4
		return nil
	case 't':
		d.pos += 4
		return true
	case 'f':
		d.pos += 5
		return false
	case '"':
		return d.strVal()
	case '[':
		d.pos++
		out := make([]interface{}, 0)
		d.ws()
		if d.d[d.pos] == ']' {
			d.pos++
			return out
		}
		for {
			out = append(out, d.any())
			d.ws()
			c := d.d[d.pos]
			d.pos++
			if c == ']' {
				return out
			}
		}
	case '{':
		d.pos++
		m := make(map[string]interface{})
		d.ws()
		if d.d[d.pos] == '}' {
			d.pos++
			return m
		}
		for {
			d.ws()
			k := d.strVal()
			d.ws()
			d.pos++
			m[k] = d.any()
			d.ws()
			c := d.d[d.pos]
			d.pos++
			if c == '}' {
				return m
			}
		}
	default:
		start := d.pos
		d.num()
		s := string(d.d[start:d.pos])
		if d.useNum {
			return json.Number(s)
		}
		if d.ints {
			isInt := true
			for i := 0; i < len(s); i++ {
				if s[i] == '.' || s[i] == 'e' || s[i] == 'E' {
					isInt = false
				}
			}
			if isInt {
				if n, err := strconv.ParseInt(s, 10, 64); err == nil {
					return n
				}
			}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			d.save(&json.UnmarshalTypeError{Value: "number " + s, Type: reflect.TypeOf(0.0), Offset: int64(d.pos)})
		}
		return f
	}
}

func hexVal(c byte) rune {
	switch {
	case c <= '9':
		return rune(c - '0')
	case c >= 'a':
		return rune(c-'a') + 10
	}
	return rune(c-'A') + 10
}

// strVal decodes the (already validated) string at the position.
func (d *decState) strVal() string {
	d.pos++
	start := d.pos
	// fast path: no escapes and only ASCII
	i := start
	for ; ; i++ {
		c := d.d[i]
		if c == '"' {
			d.pos = i + 1
			return string(d.d[start:i])
		}
		if c == '\\' || c >= utf8.RuneSelf {
			break
		}
	}
	out := append([]byte{}, d.d[start:i]...)
	for {
		c := d.d[i]
		switch {
		case c == '"':
			d.pos = i + 1
			return string(out)
		case c == '\\':
			i++
			switch e := d.d[i]; e {
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := hexVal(d.d[i+1])<<12 | hexVal(d.d[i+2])<<8 | hexVal(d.d[i+3])<<4 | hexVal(d.d[i+4])
				i += 4
				if r >= 0xd800 && r < 0xe000 {
					ok := false
					if r < 0xdc00 && d.d[i+1] == '\\' && d.d[i+2] == 'u' {
						r2 := hexVal(d.d[i+3])<<12 | hexVal(d.d[i+4])<<8 | hexVal(d.d[i+5])<<4 | hexVal(d.d[i+6])
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
							i += 6
							ok = true
						}
					}
					if !ok {
						r = utf8.RuneError
					}
				}
				out = append(out, string(r)...)
			default:
				out = append(out, e)
			}
			i++
		case c < utf8.RuneSelf:
			out = append(out, c)
			i++
		default:
			r, n := utf8.DecodeRune(d.d[i:])
			if r == utf8.RuneError && n == 1 {
				out = append(out, "\uFFFD"...)
			} else {
				out = append(out, d.d[i:i+n]...)
			}
			i += n
		}
	}
}

// ---------------------------------------------------------------- streams

type encoder struct {
	w              io.Writer
	raw            bool
	prefix, indent string
	err            error
}

var encoders = map[*json.Encoder]*encoder{}

// JSONNewEncoder models encoding/json.NewEncoder.
func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = &encoder{w: w}
	return e
}

// JSONSetEscapeHTML models (*encoding/json.Encoder).SetEscapeHTML.
func JSONSetEscapeHTML(e *json.Encoder, on bool) { encoders[e].raw = !on }

// JSONSetIndent models (*encoding/json.Encoder).SetIndent.
func JSONSetIndent(e *json.Encoder, prefix, indent string) {
	encoders[e].prefix, encoders[e].indent = prefix, indent
}

// JSONEncode models (*encoding/json.Encoder).Encode.
func JSONEncode(e *json.Encoder, x interface{}) error {
	d := encoders[e]
	if d.err != nil {
		return d.err
	}
	s := &encState{escape: !d.raw}
	if err := s.value(reflect.ValueOf(x), 0); err != nil {
		return err
	}
	b := append(s.b, '\n')
	if d.prefix != "" || d.indent != "" {
		var err error
		if b, err = indentJSON(nil, s.b, d.prefix, d.indent); err != nil {
			return err
		}
		b = append(b, '\n')
	}
	_, err := d.w.Write(b)
	if err != nil {
		d.err = err
	}
	return err
}

// JSONIndent models encoding/json.Indent.
func JSONIndent(dst *bytes.Buffer, src []byte, prefix, indent string) error {
	if err := checkValid(src); err != nil {
		return err
	}
	b, err := indentJSON(nil, src, prefix, indent)
	if err != nil {
		return err
	}
	// trailing white space is kept
	i := len(src)
	for i > 0 && isSpace(src[i-1]) {
		i--
	}
	dst.Write(append(b, src[i:]...))
	return nil
}

// JSONCompact models encoding/json.Compact.
func JSONCompact(dst *bytes.Buffer, src []byte) error {
	b, err := compactJSON(nil, src, false)
	if err != nil {
		return err
	}
	dst.Write(b)
	return nil
}

type decoder struct {
	r   io.Reader
	buf []byte
	err error
	num bool
}

var decoders = map[*json.Decoder]*decoder{}

// JSONNewDecoder models encoding/json.NewDecoder.
func JSONNewDecoder(r io.Reader) *json.Decoder {
	e := new(json.Decoder)
	decoders[e] = &decoder{r: r}
	return e
}

// JSONUseNumber models (*encoding/json.Decoder).UseNumber.
func JSONUseNumber(e *json.Decoder) { decoders[e].num = true }

// fill reads more input, at most 512 bytes at a time as the decoder does.
func (d *decoder) fill() error {
	p := make([]byte, 512)
	n, err := d.r.Read(p)
	d.buf = append(d.buf, p[:n]...)
	return err
}

// value finds the end of the next value, reading as far as needed.
func (d *decoder) value() (int, error) {
	var rerr error
	for {
		s := &scan{d: d.buf}
		s.ws()
		start := s.pos
		if start < len(d.buf) {
			c := d.buf[start]
			err := s.skip(0)
			atEnd := s.pos >= len(d.buf)
			switch {
			case err == nil && !(atEnd && (c == '-' || c >= '0' && c <= '9')):
				return s.pos, nil
			case err == nil && rerr != nil:
				if rerr == io.EOF {
					return s.pos, nil
				}
				return 0, rerr
			case err != nil && !atEnd:
				return 0, err
			}
		}
		if rerr != nil {
			if rerr == io.EOF && start < len(d.buf) {
				rerr = io.ErrUnexpectedEOF
			}
			return 0, rerr
		}
		rerr = d.fill()
	}
}

// JSONDecode models (*encoding/json.Decoder).Decode.
func JSONDecode(e *json.Decoder, x interface{}) error {
	d := decoders[e]
	if d.err != nil {
		return d.err
	}
	n, err := d.value()
	if err != nil {
		d.err = err
		return err
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return &json.InvalidUnmarshalError{Type: reflect.TypeOf(x)}
	}
	ds := &decState{scan: scan{d: d.buf[:n]}, useNum: d.num}
	err = ds.value(rv)
	if err == nil {
		err = ds.saved
	}
	d.buf = d.buf[n:]
	return err
}

// JSONMore models (*encoding/json.Decoder).More.
func JSONMore(e *json.Decoder) bool {
	d := decoders[e]
	for {
		s := &scan{d: d.buf}
		s.ws()
		if s.pos < len(d.buf) {
			c := d.buf[s.pos]
			return c != ']' && c != '}'
		}
		if d.fill() != nil {
			s := &scan{d: d.buf}
			s.ws()
			return s.pos < len(d.buf)
		}
	}
}

// JSONBuffered models (*encoding/json.Decoder).Buffered.
func JSONBuffered(e *json.Decoder) io.Reader { return bytes.NewReader(decoders[e].buf) }

var _ = sort.Strings

// Entry is one top-level element as the reference decoder sees it.
type Entry struct {
	Key string
	Val interface{}
}

// RefEntries decodes a JSON document into its top-level elements in document order,
// integers as int64. ok is false when the document is not valid or a number is out of range.
func RefEntries(doc []byte) (ents []Entry, obj, ok bool) {
	if checkValid(doc) != nil {
		return nil, false, false
	}
	d := &decState{scan: scan{d: doc}, ints: true}
	d.ws()
	switch d.d[d.pos] {
	case '{':
		obj = true
	case '[':
	default:
		return nil, false, false
	}
	d.pos++
	d.ws()
	if d.d[d.pos] == ']' || d.d[d.pos] == '}' {
		return nil, obj, true
	}
	for {
		var e Entry
		d.ws()
		if obj {
			e.Key = d.strVal()
			d.ws()
			d.pos++
		}
		e.Val = d.any()
		ents = append(ents, e)
		d.ws()
		c := d.d[d.pos]
		d.pos++
		if c == ']' || c == '}' {
			return ents, obj, d.saved == nil
		}
	}
}

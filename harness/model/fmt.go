package model

import (
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifh/v"
)

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

// Sprintf models fmt.Sprintf for the verbs the code base uses.
func Sprintf(f string, args ...interface{}) string {
	s, _ := format(f, args)
	return s
}

// Errorf models fmt.Errorf.
func Errorf(f string, args ...interface{}) error {
	s, w := format(f, args)
	return &fmtError{s, w}
}

// Sprint models fmt.Sprint.
func Sprint(args ...interface{}) string {
	out := ""
	prevStr := true
	for i, a := range args {
		_, isS := a.(string)
		if i > 0 && !isS && !prevStr {
			out += " "
		}
		out += plain(a, 0)
		prevStr = isS
	}
	return out
}

// Sprintln models fmt.Sprintln.
func Sprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += plain(a, 0)
	}
	return out + "\n"
}

// Fprintf models fmt.Fprintf.
func Fprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	s, _ := format(f, args)
	return w.Write([]byte(s))
}

// Fprint models fmt.Fprint.
func Fprint(w io.Writer, args ...interface{}) (int, error) { return w.Write([]byte(Sprint(args...))) }

// Fprintln models fmt.Fprintln.
func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

// Printf drops its output.
func Printf(f string, args ...interface{}) (int, error) { return 0, nil }

// Println drops its output.
func Println(args ...interface{}) (int, error) { return 0, nil }

func format(f string, args []interface{}) (string, error) {
	var out []byte
	var wrapped error
	n := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(f) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		if f[i] == '%' {
			out = append(out, '%')
			continue
		}
		plus, sharp, zero := false, false, false
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '0' || f[i] == '-' || f[i] == ' ') {
			switch f[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			default:
				v.Unsupported("fmt flag in " + f)
			}
			i++
		}
		width, prec := -1, -1
		for i < len(f) && isDigit(f[i]) {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && isDigit(f[i]) {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		verb := f[i]
		if n >= len(args) {
			out = append(out, '%', '!', verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		a := args[n]
		n++
		var s string
		switch verb {
		case 'w':
			if e, ok := a.(error); ok {
				wrapped = e
			}
			s = plain(a, 0)
		case 'v', 's':
			if sharp {
				switch x := a.(type) {
				case bool, int, int8, int16, int32, int64:
				case uint8:
					a = "0x" + strconv.FormatUint(uint64(x), 16)
				case struct{}:
					a = "struct {}{}"
				case float64:
					if x != float64(int(x)) || x < -1000 || x > 1000 {
						v.Unsupported("fmt %#v of such a number")
					}
				default:
					v.Unsupported("fmt %#v")
				}
			}
			_ = plus
			if b, ok := a.([]byte); ok && verb == 's' {
				s = string(b)
			} else {
				s = plain(a, 0)
			}
		case 'd':
			s = plain(a, 0)
		case 't':
			s = plain(a, 0)
		case 'q':
			switch x := a.(type) {
			case string:
				s = strconv.Quote(x)
			case []byte:
				s = strconv.Quote(string(x))
			case error:
				s = strconv.Quote(x.Error())
			case fmt.Stringer:
				s = strconv.Quote(x.String())
			case rune:
				s = strconv.QuoteRune(x)
			case byte:
				s = strconv.QuoteRune(rune(x))
			default:
				v.Unsupported("fmt %q")
			}
		case 'T':
			if a == nil {
				s = "<nil>"
			} else {
				s = reflect.TypeOf(a).String()
			}
		case 'c':
			switch x := a.(type) {
			case rune:
				s = string(x)
			case byte:
				s = string(rune(x))
			default:
				v.Unsupported("fmt %c")
			}
		case 'x', 'X':
			switch x := a.(type) {
			case []byte:
				s = hexStr(string(x))
			case string:
				s = hexStr(x)
			case byte:
				s = strconv.FormatUint(uint64(x), 16)
			case int:
				s = strconv.FormatInt(int64(x), 16)
			default:
				v.Unsupported("fmt %x")
			}
			if verb == 'X' {
				s = strings.ToUpper(s)
			}
		case 'f', 'g', 'e':
			rv := reflect.ValueOf(a)
			if rv.Kind() != reflect.Float64 && rv.Kind() != reflect.Float32 {
				v.Unsupported("fmt float verb")
			}
			if prec < 0 && verb != 'g' {
				prec = 6
			}
			s = strconv.FormatFloat(rv.Float(), verb, prec, 64)
		default:
			v.Unsupported("fmt verb in " + f)
		}
		for len(s) < width {
			if zero {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		out = append(out, s...)
	}
	if n < len(args) {
		out = append(out, "%!(EXTRA )"...)
	}
	return string(out), wrapped
}

func hexStr(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, hexd[s[i]>>4], hexd[s[i]&15])
	}
	return string(b)
}

// plain renders a value as %v does.
func plain(a interface{}, depth int) string {
	if depth > 20 {
		v.Unsupported("fmt: deep value")
	}
	switch x := a.(type) {
	case nil:
		return "<nil>"
	case error:
		if rv := reflect.ValueOf(a); rv.Kind() == reflect.Ptr && rv.IsNil() {
			return "<nil>"
		}
		return x.Error()
	case fmt.Stringer:
		if rv := reflect.ValueOf(a); rv.Kind() == reflect.Ptr && rv.IsNil() {
			return "<nil>"
		}
		return x.String()
	case string:
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	rv := reflect.ValueOf(a)
	switch rv.Kind() {
	case reflect.String:
		return rv.String()
	case reflect.Bool:
		if rv.Bool() {
			return "true"
		}
		return "false"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float64:
		return vfloat(rv.Float(), 64)
	case reflect.Float32:
		return vfloat(rv.Float(), 32)
	case reflect.Slice, reflect.Array:
		s := "["
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += elem(rv.Index(i), depth)
		}
		return s + "]"
	case reflect.Map:
		keys := rv.MapKeys()
		strs := make([]string, len(keys))
		for i, k := range keys {
			strs[i] = elem(k, depth)
			for j := i; j > 0 && strs[j] < strs[j-1]; j-- {
				strs[j], strs[j-1] = strs[j-1], strs[j]
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
		s := "map["
		for i, k := range keys {
			if i > 0 {
				s += " "
			}
			s += strs[i] + ":" + elem(rv.MapIndex(k), depth)
		}
		return s + "]"
	case reflect.Struct:
		s := "{"
		for i := 0; i < rv.NumField(); i++ {
			if i > 0 {
				s += " "
			}
			s += elem(rv.Field(i), depth)
		}
		return s + "}"
	case reflect.Ptr:
		if rv.IsNil() {
			return "<nil>"
		}
		if depth == 0 && (rv.Elem().Kind() == reflect.Struct || rv.Elem().Kind() == reflect.Slice || rv.Elem().Kind() == reflect.Map) {
			return "&" + elem(rv.Elem(), depth)
		}
		return "0xc000010000"
	case reflect.Func, reflect.Chan:
		return "0xc000020000"
	}
	v.Unsupported("fmt: kind " + rv.Kind().String())
	return ""
}

func elem(rv reflect.Value, depth int) string {
	if !rv.IsValid() {
		return "<nil>"
	}
	if rv.Kind() == reflect.Interface && rv.IsNil() {
		return "<nil>"
	}
	return plain(rv.Interface(), depth+1)
}

func vfloat(f float64, bits int) string { return strconv.FormatFloat(f, 'g', -1, bits) }

// ErrorsIs models errors.Is.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return err == target
}

// SortSlice models sort.Slice and sort.SliceStable (insertion sort).
func SortSlice(x interface{}, less func(i, j int) bool) {
	rv := reflect.ValueOf(x)
	n := rv.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			a, b := rv.Index(j).Interface(), rv.Index(j-1).Interface()
			setAny(rv.Index(j), b)
			setAny(rv.Index(j-1), a)
		}
	}
}

func setAny(dst reflect.Value, x interface{}) {
	if x == nil {
		dst.Set(reflect.Zero(dst.Type()))
		return
	}
	dst.Set(reflect.ValueOf(x))
}

// SortSort models sort.Sort and sort.Stable (insertion sort).
func SortSort(data sort.Interface) {
	n := data.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && data.Less(j, j-1); j-- {
			data.Swap(j, j-1)
		}
	}
}

// SortStrings models sort.Strings.
func SortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// Package c17 checks type inference, parsing and comparison of cell values.
package c17

import (
	"encoding/json"
	"strconv"
	"unicode/utf8"

	"github.com/qri-io/dataset/vals"
	"verifh/u"
	"verifh/v"
)

func isBool(s string) bool {
	switch s {
	case "t", "f", "T", "F", "true", "false", "TRUE", "FALSE", "True", "False":
		return true
	}
	return false
}

// decimal reports a canonical decimal integer (optional minus, no plus, digits only).
func decimal(s string) bool {
	if len(s) > 0 && s[0] == '-' {
		s = s[1:]
	}
	if len(s) == 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func infer(b []byte) {
	s := string(b)
	t := vals.ParseType(b)
	switch t {
	case vals.TypeBoolean:
		v.Assert(isBool(s), "only boolean words are booleans")
		_, err := t.Parse(b)
		v.Assert(err == nil, "a cell typed boolean parses")
		v.Reach("boolean")
	case vals.TypeInteger:
		v.Assert(decimal(s), "only whole numbers are integers")
		x, err := t.Parse(b)
		if err == nil {
			w, err2 := strconv.ParseInt(s, 10, 64)
			v.Assert(err2 == nil && u.EqVal(x, w), "the parsed integer is the one the text denotes")
		} else {
			v.Assert(len(s) >= 19, "a cell typed integer parses")
		}
		v.Reach("integer")
	case vals.TypeNumber:
		x, err := t.Parse(b)
		v.Assert(err == nil, "a cell typed number parses")
		v.Assert(!decimal(s), "whole numbers are integers")
		w, err2 := strconv.ParseFloat(s, 64)
		v.Assert(err2 == nil && u.EqVal(x, w), "the parsed number is the one the text denotes")
		v.Reach("number")
	case vals.TypeNull:
		v.Assert(s == "null", "only null is null")
		v.Reach("null")
	case vals.TypeObject, vals.TypeArray:
		i := 0
		for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
			i++
		}
		v.Assert(i < len(s), "a structured cell has text")
		want := byte('{')
		if t == vals.TypeArray {
			want = '['
		}
		v.Assert(s[i] == want, "structured cells start with a bracket")
		v.Reach("structured")
	case vals.TypeString:
		v.Assert(!isBool(s), "boolean words are not strings")
		v.Assert(s != "null", "null is not a string")
		v.Assert(!decimal(s), "whole numbers are not strings")
		if len(s) > 0 && (s[0] >= '0' && s[0] <= '9' || s[0] == '-') {
			_, err := strconv.ParseFloat(s, 64)
			v.Assert(err != nil, "numbers are not strings")
		}
		x, err := t.Parse(b)
		v.Assert(err == nil && u.EqVal(x, s), "strings parse as themselves")
		v.Reach("string")
	default:
		v.Assert(false, "inference always gives a type")
	}
}

// H_C17_infer: every cell text of 0..4 (5) bytes.
func H_C17_infer() {
	infer(v.Bytes(v.Case(v.Bound(5, 6))))
}

const numeric = "0123456789-+.eE "

// H_C17_infer_num: every cell of 0..4 (6) characters from the number alphabet.
func H_C17_infer_num() {
	infer(num(v.Case(v.Bound(5, 7))))
}

func num(n int) []byte {
	b := v.Bytes(n)
	for _, c := range b {
		ok := v.And(c >= '0', c <= '9')
		for i := 10; i < len(numeric); i++ {
			ok = v.Or(ok, c == numeric[i])
		}
		v.Assume(ok)
	}
	return b
}

// H_C17_infer_word: boolean and null words with up to 1 (2) arbitrary bytes replaced, and long numbers.
func H_C17_infer_word() {
	words := []string{"true", "false", "TRUE", "False", "null", "1e39", "-1e300", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "123456789012345678901234567890", "1.7976931348623157e308", "0.1", "1e-300", "t", "F", "{}", " []"}
	b := []byte(words[v.Case(len(words))])
	if n := len(b); n < 8 {
		for i := 0; i < v.Bound(1, 2); i++ {
			if k := v.Pick(n + 1); k < n {
				b[k] = v.Byte()
			}
		}
	}
	infer(b)
	v.Reach("word")
}

// H_C17_predicates: IsInteger, IsFloat and IsBoolean against the standard parsers, every text of 0..3 (4) bytes.
func H_C17_predicates() {
	b := v.Bytes(v.Case(v.Bound(4, 5)))
	s := string(b)
	v.Assert(vals.IsBoolean(b) == isBool(s), "IsBoolean accepts exactly the boolean words")
	_, err := strconv.ParseInt(s, 10, 64)
	v.Assert(vals.IsInteger(b) == (err == nil), "IsInteger accepts exactly the integers")
	lead := len(s) > 0 && (s[0] == '-' || s[0] == '+' || s[0] >= '0' && s[0] <= '9')
	_, err = strconv.ParseFloat(s, 64)
	ok := err == nil
	if !ok {
		// out of range counts as a float
		ok = err.(*strconv.NumError).Err == strconv.ErrRange
	}
	v.Assert(vals.IsFloat(b) == (lead && ok), "IsFloat accepts exactly the numbers")
	v.Reach("predicates")
}

// H_C17_parse: parsing as each type, every text of 0..3 (4) bytes.
func H_C17_parse() {
	t := []vals.Type{vals.TypeString, vals.TypeNumber, vals.TypeInteger, vals.TypeBoolean}[v.Case(4)]
	b := v.Bytes(v.Pick(v.Bound(4, 5)))
	s := string(b)
	got, err := t.Parse(b)
	var want interface{}
	var werr error
	switch t {
	case vals.TypeString:
		want = s
	case vals.TypeNumber:
		want, werr = strconv.ParseFloat(s, 64)
	case vals.TypeInteger:
		want, werr = strconv.ParseInt(s, 10, 64)
	case vals.TypeBoolean:
		want, werr = strconv.ParseBool(s)
	}
	v.Assert((err == nil) == (werr == nil), "parsing accepts exactly the texts of the type")
	if err == nil {
		v.Assert(u.EqVal(got, want), "parsing gives the value the text denotes")
		v.Reach("parsed")
	}
	if t == vals.TypeNumber {
		return
	}
	if err == nil {
		back, err := t.ValueToString(got)
		v.Assert(err == nil, "a parsed value converts back to text")
		again, err := t.Parse([]byte(back))
		v.Assert(err == nil && u.EqVal(again, got), "text of a parsed value parses to it")
		bb, err := t.ValueToBytes(got)
		v.Assert(err == nil && string(bb) == back, "bytes of a value are its text")
	}
}

// H_C17_json: parsing as object or array, every text of 2..5 (6) bytes.
func H_C17_json() {
	b := v.Bytes(2 + v.Case(v.Bound(4, 5)))
	v.Assume(utf8.Valid(b))
	t := vals.TypeObject
	if v.Pick(2) == 1 {
		t = vals.TypeArray
	}
	got, err := t.Parse(b)
	var want interface{}
	werr := json.Unmarshal(b, &want)
	if werr == nil {
		switch want.(type) {
		case []interface{}, map[string]interface{}:
			v.Assert(err == nil, "JSON containers parse")
			v.Reach("container")
		default:
			return
		}
		v.Assert(u.EqVal(got, want), "the parsed container is the one the text denotes")
	} else {
		v.Assert(err != nil, "text that is not JSON is rejected")
	}
}

func sign(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

// ref compares by value.
func ref(a, b []byte, t vals.Type) (int, bool) {
	if len(a) == 0 || len(b) == 0 {
		return sign(len(a) - len(b)), true
	}
	switch t {
	case vals.TypeString:
		if string(a) < string(b) {
			return -1, true
		}
		if string(a) > string(b) {
			return 1, true
		}
		return 0, true
	case vals.TypeInteger:
		x, e1 := strconv.ParseInt(string(a), 10, 64)
		y, e2 := strconv.ParseInt(string(b), 10, 64)
		if e1 != nil || e2 != nil {
			return 0, false
		}
		return v.Ite(x < y, -1, v.Ite(x > y, 1, 0)), true
	case vals.TypeNumber:
		x, e1 := strconv.ParseFloat(string(a), 64)
		y, e2 := strconv.ParseFloat(string(b), 64)
		if e1 != nil || e2 != nil {
			return 0, false
		}
		return v.Ite(x < y, -1, v.Ite(x > y, 1, 0)), true
	}
	return 0, false
}

// H_C17_compare_string: every pair of texts of 0..2 (3) bytes as strings.
func H_C17_compare_string() {
	n := v.Bound(3, 4)
	pair(v.Bytes(v.Case(n)), v.Bytes(v.Pick(n)), vals.TypeString)
	v.Reach("strings")
}

// H_C17_compare_int: every pair of texts of 0..3 (4) bytes as integers.
func H_C17_compare_int() {
	n := v.Bound(4, 5)
	pair(v.Bytes(v.Case(n)), v.Bytes(v.Pick(n)), vals.TypeInteger)
	v.Reach("integers")
}

// H_C17_compare_num: every pair of texts of 0..2 (3) characters of the number alphabet as numbers.
func H_C17_compare_num() {
	n := v.Bound(3, 4)
	pair(num(v.Case(n)), num(v.Pick(n)), vals.TypeNumber)
	v.Reach("numbers")
}

// H_C17_compare_big: integers near the limits of int64 and float precision compare by value.
func H_C17_compare_big() {
	big := []string{"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "9007199254740993", "9007199254740992", "0", "-0", "9223372036854775808"}
	pair([]byte(big[v.Case(len(big))]), []byte(big[v.Pick(len(big))]), vals.TypeInteger)
	v.Reach("big")
}

func pair(a, b []byte, t vals.Type) {
	want, ok := ref(a, b, t)
	got, err := vals.CompareTypeBytes(a, b, t)
	back, err2 := vals.CompareTypeBytes(b, a, t)
	if !ok {
		v.Assert(err != nil && err2 != nil, "cells that are not of the type are not compared")
		return
	}
	v.Assert(err == nil && err2 == nil, "cells of the type are compared")
	v.Assert(got == want, "comparison orders by value")
	v.Assert(back == -got, "comparison is antisymmetric")
}

// H_C17_transitive: every triple of integer texts of up to 2 bytes and of strings of 1 (2) bytes.
func H_C17_transitive() {
	t := vals.TypeString
	n := v.Bound(1, 2)
	if v.Case(2) == 1 {
		t, n = vals.TypeInteger, 2
	}
	a, b, c := v.Bytes(v.Pick(n+1)), v.Bytes(v.Pick(n+1)), v.Bytes(v.Pick(n+1))
	ab, e1 := vals.CompareTypeBytes(a, b, t)
	bc, e2 := vals.CompareTypeBytes(b, c, t)
	ac, e3 := vals.CompareTypeBytes(a, c, t)
	if e1 != nil || e2 != nil || e3 != nil {
		return
	}
	if ab <= 0 && bc <= 0 {
		v.Assert(ac <= 0, "comparison is transitive")
		v.Assert(ac < 0 || ab == 0 && bc == 0, "equal ends need equal steps")
		v.Reach("transitive")
	}
}

// plain converts a Value to the standard decoding.
func plain(x vals.Value) interface{} {
	switch x.Type() {
	case vals.TypeNull:
		return nil
	case vals.TypeInteger:
		return int64(x.Integer())
	case vals.TypeNumber:
		return x.Number()
	case vals.TypeBoolean:
		return x.Boolean()
	case vals.TypeString:
		return x.String()
	case vals.TypeArray:
		out := make([]interface{}, x.Len())
		for i := range out {
			out[i] = plain(x.Index(i))
		}
		return out
	case vals.TypeObject:
		out := map[string]interface{}{}
		for _, k := range x.Keys() {
			out[k] = plain(x.MapIndex(k))
		}
		return out
	}
	return "?"
}

// H_C17_convert: converting decoded values of every kind keeps type and content, and Equal is reflexive and symmetric.
func H_C17_convert() {
	k := v.Case(u.NumKinds)
	x := u.Value(k, 1)
	a, err := vals.ConvertDecoded(x)
	v.Assert(err == nil, "decoded values convert")
	v.Assert(u.EqVal(plain(a), x), "conversion keeps the value")
	y := u.Value(v.Pick(u.NumKinds), 1)
	b, err := vals.ConvertDecoded(y)
	v.Assert(err == nil, "decoded values convert")
	same := vals.Equal(a, b)
	v.Assert(same == vals.Equal(b, a), "equality is symmetric")
	if same {
		v.Assert(u.EqVal(x, y), "values reported equal are equal")
	} else {
		v.Assert(!u.EqVal(x, y), "values reported different differ")
	}
	v.Reach("convert")
}

// H_C17_unmarshal: every JSON text of 1..4 (5) bytes decodes to the values the text denotes.
func H_C17_unmarshal() {
	b := v.Bytes(1 + v.Case(v.Bound(4, 5)))
	// separate solver jobs by first byte
	switch c := b[0]; v.Case(4) {
	case 0:
		v.Assume(c == '{' || c == '[')
	case 1:
		v.Assume(c == '"')
	case 2:
		v.Assume(c >= '-' && c <= '9')
	case 3:
		v.Assume(c != '{' && c != '[' && c != '"' && (c < '-' || c > '9'))
	}
	v.Assume(utf8.Valid(b))
	var want interface{}
	werr := json.Unmarshal(b, &want)
	got, err := vals.UnmarshalJSON(b)
	if werr != nil {
		v.Assert(err != nil, "text that is not JSON is rejected")
		return
	}
	v.Assert(err == nil, "JSON text is accepted")
	v.Assert(u.EqVal(u.Floats(plain(got)), want), "decoding gives the values the text denotes")
	v.Reach("unmarshal")
}

package model

import (
	"reflect"
	"time"

	"verifh/v"
)

// A model of github.com/google/go-cmp for the options IgnoreUnexported, IgnoreFields (without dotted names) and
// EquateEmpty: the report of a difference is a fixed text.

type ignoreUnexported struct{ types []string }

// CmpIgnoreUnexported models cmpopts.IgnoreUnexported.
func CmpIgnoreUnexported(typs ...interface{}) interface{} {
	o := ignoreUnexported{}
	for _, t := range typs {
		o.types = append(o.types, reflect.TypeOf(t).String())
	}
	return o
}

type ignoreFields struct{ names []string }

// CmpIgnoreFields models cmpopts.IgnoreFields.
func CmpIgnoreFields(typ interface{}, names ...string) interface{} {
	o := ignoreFields{}
	t := reflect.TypeOf(typ)
	for _, n := range names {
		found := false
		for i := 0; i < t.NumField(); i++ {
			found = found || t.Field(i).Name == n
		}
		if !found {
			v.Unsupported("cmpopts.IgnoreFields of " + n)
		}
		o.names = append(o.names, t.String()+" "+n)
	}
	return o
}

type equateEmpty struct{}

// CmpEquateEmpty models cmpopts.EquateEmpty.
func CmpEquateEmpty() interface{} { return equateEmpty{} }

const cmpEmpty = " equate empty"

func cmpHas(l []string, x string) bool {
	for _, n := range l {
		if n == x {
			return true
		}
	}
	return false
}

// CmpDiff models cmp.Diff.
func CmpDiff(a, b interface{}, opts ...interface{}) string {
	var ign []string
	for _, o := range opts {
		switch i := o.(type) {
		case ignoreUnexported:
			ign = append(ign, i.types...)
		case ignoreFields:
			ign = append(ign, i.names...)
		case equateEmpty:
			ign = append(ign, cmpEmpty)
		default:
			v.Unsupported("cmp option")
		}
	}
	if cmpSame(reflect.ValueOf(a), reflect.ValueOf(b), ign) {
		return ""
	}
	return "-a +b"
}

// CmpEqual models cmp.Equal.
func CmpEqual(a, b interface{}, opts ...interface{}) bool { return CmpDiff(a, b, opts...) == "" }

func cmpSame(a, b reflect.Value, ign []string) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if x, ok := a.Interface().(time.Time); ok {
		return x.Equal(b.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return cmpSame(a.Elem(), b.Elem(), ign)
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			if cmpHas(ign, t.String()+" "+t.Field(i).Name) {
				continue
			}
			if t.Field(i).PkgPath != "" {
				if !cmpHas(ign, t.String()) {
					panic("consider using cmpopts.IgnoreUnexported to compare " + t.String())
				}
				continue
			}
			if !cmpSame(a.Field(i), b.Field(i), ign) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() == 0 && b.Len() == 0 && cmpHas(ign, cmpEmpty) {
			return true
		}
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !cmpSame(a.Index(i), b.Index(i), ign) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() == 0 && b.Len() == 0 && cmpHas(ign, cmpEmpty) {
			return true
		}
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !cmpSame(a.MapIndex(k), y, ign) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return a.Int() == b.Int()
	case reflect.Uint8, reflect.Uint, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float64:
		return a.Float() == b.Float()
	}
	v.Unsupported("cmp of " + a.Type().String())
	return false
}

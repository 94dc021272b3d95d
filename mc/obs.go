package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Observation of decoded messages through their public fields and niladic getters, by name. Going through names (and
// following embedded structs, pointers and interfaces) keeps the observation independent of how the code is written.

type Val struct {
	K byte // 'n' number (also booleans), 's' string, 'b' bytes, '0' nil, 't' type, 'e' error, '?' not observable
	N float64
	S string
}

func N(f float64) Val { return Val{K: 'n', N: f} }
func U(u uint64) Val  { return Val{K: 'n', N: float64(u)} }
func I(i int64) Val   { return Val{K: 'n', N: float64(i)} }
func B(b bool) Val {
	if b {
		return Val{K: 'n', N: 1}
	}
	return Val{K: 'n'}
}
func S(s string) Val     { return Val{K: 's', S: s} }
func Bytes(b []byte) Val { return Val{K: 'b', S: string(b)} }
func Nil() Val           { return Val{K: '0'} }
func Err() Val           { return Val{K: 'e'} }

// Floor matches the integer part of a number, computed in floating point: of an exact integer it may be the one below.
func Floor(f float64) Val { return Val{K: 'f', N: f} }

// Any matches everything (value left unspecified).
func Any() Val { return Val{K: '*'} }

func (v Val) String() string {
	switch v.K {
	case 'n':
		return fmt.Sprintf("%v", v.N)
	case 'f':
		return fmt.Sprintf("%v", math.Floor(v.N))
	case 's':
		return fmt.Sprintf("%q", v.S)
	case 'b':
		return fmt.Sprintf("%x", v.S)
	case '0':
		return "nil"
	case 't':
		return "type " + v.S
	case 'e':
		return "error"
	case '*':
		return "any"
	}
	return "?"
}

func (v Val) sig() uint64 {
	h := uint64(v.K)
	if v.K == 'n' {
		return mix(h ^ math.Float64bits(math.Round(v.N*1e6)))
	}
	for i := 0; i < len(v.S); i++ {
		h = (h ^ uint64(v.S[i])) * 0x100000001b3
	}
	return mix(h)
}

func sameVal(got, want Val) bool {
	if want.K == '*' {
		return true
	}
	if want.K == 'f' {
		return got.K == 'n' && (got.N == math.Floor(want.N) || got.N == math.Floor(want.N-1e-9))
	}
	if got.K != want.K {
		return false
	}
	if got.K == 'n' {
		d := math.Abs(got.N - want.N)
		return d == 0 || d <= 1e-4 || d <= 2e-6*math.Abs(want.N)
	}
	return got.S == want.S
}

var unobserved = map[string]bool{}

type lookupKey struct {
	t    reflect.Type
	name string
}

var lookupCache = map[lookupKey]int{}
var methodCache = map[lookupKey]int{}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

// field finds the field by name in the struct or in what it embeds.
func field(v reflect.Value, name string) (reflect.Value, bool) {
	v = deref(v)
	if !v.IsValid() || v.Kind() != reflect.Struct {
		return reflect.Value{}, false
	}
	t := v.Type()
	k := lookupKey{t, name}
	i, ok := lookupCache[k]
	if !ok {
		i = -1
		for j := 0; j < t.NumField(); j++ {
			if f := t.Field(j); f.Name == name && f.PkgPath == "" {
				i = j
			}
		}
		lookupCache[k] = i
	}
	if i >= 0 {
		return v.Field(i), true
	}
	for j := 0; j < t.NumField(); j++ {
		if f := t.Field(j); f.Anonymous && f.PkgPath == "" {
			if r, ok := field(v.Field(j), name); ok {
				return r, true
			}
		}
	}
	return reflect.Value{}, false
}

func toVal(v reflect.Value) Val {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return Nil()
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		return B(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return I(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return U(v.Uint())
	case reflect.Float32, reflect.Float64:
		return N(v.Float())
	case reflect.String:
		return S(v.String())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return Bytes(b)
		}
	case reflect.Struct:
		// a struct which wraps a single byte slice, number or string is that value
		if v.NumField() == 1 && v.Type().Field(0).PkgPath == "" {
			return toVal(v.Field(0))
		}
		return Val{K: 't', S: v.Type().Name()}
	}
	return Val{K: '?'}
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

// callGetter calls a method without arguments; isErr tells that its error result is not nil.
func callGetter(v reflect.Value, name string) (res reflect.Value, isErr, ok bool) {
	w := v
	for w.IsValid() && w.Kind() == reflect.Interface {
		w = w.Elem()
	}
	if !w.IsValid() {
		return
	}
	k := lookupKey{w.Type(), name}
	i, found := methodCache[k]
	if !found {
		i = -1
		if m, has := w.Type().MethodByName(name); has {
			i = m.Index
		}
		methodCache[k] = i
	}
	if i < 0 {
		return
	}
	m := w.Method(i)
	if m.Type().NumIn() != 0 || m.Type().NumOut() == 0 {
		return
	}
	out := m.Call(nil)
	if last := out[len(out)-1]; last.Type() == errorType && !last.IsNil() {
		return last, true, true
	}
	return out[0], false, true
}

// get follows a path such as "A.B", "A.GetX()" or "A#" (dynamic type).
func get(root interface{}, path string) Val {
	v := reflect.ValueOf(root)
	for path != "" {
		part := path
		if i := strings.IndexByte(path, '.'); i >= 0 {
			part, path = path[:i], path[i+1:]
		} else {
			path = ""
		}
		typ := strings.HasSuffix(part, "#")
		part = strings.TrimSuffix(part, "#")
		if strings.HasSuffix(part, "()") {
			r, isErr, ok := callGetter(v, part[:len(part)-2])
			if !ok {
				return Val{K: '?'}
			}
			if isErr {
				return Err()
			}
			v = r
		} else if part != "" {
			f, ok := field(v, part)
			if !ok {
				return Val{K: '?'}
			}
			v = f
		}
		if typ {
			d := deref(v)
			if !d.IsValid() {
				return Nil()
			}
			return Val{K: 't', S: d.Type().Name()}
		}
		if path != "" {
			if k := v.Kind(); (k == reflect.Ptr || k == reflect.Interface) && v.IsNil() {
				return Nil()
			}
		}
	}
	return toVal(v)
}

// typeName is the name of the dynamic type behind pointers.
func typeName(x interface{}) string {
	if isNil(x) {
		return "nil"
	}
	return deref(reflect.ValueOf(x)).Type().Name()
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		return v.IsNil()
	}
	return false
}

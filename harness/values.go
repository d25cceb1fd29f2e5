package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// canon returns an unambiguous textual form of any value: containers are compared by
// content (their concrete Go type is ignored), scalars keep their value and, unless
// loose is set, their numeric class (integer or float).
func canon(v interface{}) string      { return canonV(reflect.ValueOf(v), false) }
func canonLoose(v interface{}) string { return canonV(reflect.ValueOf(v), true) }

func canonV(v reflect.Value, loose bool) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return canonV(v.Elem(), loose)
	case reflect.Map:
		items := make([]string, 0, v.Len())
		for _, k := range v.MapKeys() {
			items = append(items, strconv.Quote(fmt.Sprint(k.Interface()))+":"+canonV(v.MapIndex(k), loose))
		}
		sort.Strings(items)
		return "{" + strings.Join(items, ",") + "}"
	case reflect.Slice, reflect.Array:
		items := make([]string, v.Len())
		for i := range items {
			items[i] = canonV(v.Index(i), loose)
		}
		return "[" + strings.Join(items, ",") + "]"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("i%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if loose && f == math.Floor(f) && math.Abs(f) < 1e15 {
			return fmt.Sprintf("i%d", int64(f))
		}
		return "f" + strconv.FormatFloat(f, 'g', -1, 64)
	default:
		return fmt.Sprintf("?%v:%v", v.Type(), v)
	}
}

// deepCopy copies native values ([]interface{}, map[string]interface{}, scalars).
func deepCopy(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		r := make([]interface{}, len(v))
		for i := range v {
			r[i] = deepCopy(v[i])
		}
		return r
	case map[string]interface{}:
		r := make(map[string]interface{}, len(v))
		for k := range v {
			r[k] = deepCopy(v[k])
		}
		return r
	}
	return v
}

type genOpts struct {
	keys    func(*rand.Rand) string
	strings func(*rand.Rand) string
	scalars func(*rand.Rand) interface{}
}

func ident(r *rand.Rand) string {
	return randString(r, "abcdefghxyz", 1, 1) + randString(r, "abcdefghxyz0189_", 0, 4)
}

// genValue builds a random native value.
func genValue(r *rand.Rand, depth int, o genOpts) interface{} {
	if depth <= 0 || r.Intn(3) > 0 {
		return o.scalars(r)
	}
	if r.Intn(2) == 0 {
		return genList(r, depth-1, o)
	}
	return genMap(r, depth-1, o)
}

func genList(r *rand.Rand, depth int, o genOpts) []interface{} {
	l := make([]interface{}, r.Intn(5))
	for i := range l {
		l[i] = genValue(r, depth, o)
	}
	return l
}

func genMap(r *rand.Rand, depth int, o genOpts) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Intn(5); i > 0; i-- {
		m[o.keys(r)] = genValue(r, depth, o)
	}
	return m
}

package main

// P14: the data functions of the templates compute what their documentation says, on values of any origin, without altering their arguments.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// dataResult is what the model says: a value, an error, or (any) no assertion on the result.
type dataResult struct {
	value interface{}
	fail  bool
}

type dataCase struct {
	fn   string
	args []interface{}
	want dataResult
	// after is the expected arguments after the call (nil: unchanged)
	after []interface{}
}

var dataAliases = map[string][]string{"append": {"push"}, "contains": {"has"}, "containsStrict": {"hasStrict"}, "dict": {"dictionary"}, "list": {"tuple"}, "isNil": {"isNull"}, "isZero": {"isEmpty"}, "lenc": {"nbChars"},
	"undef": {"ifUndef"}, "unique": {"uniq"}, "unset": {"delete", "remove"}, "iif": {"ternary"}}

// dataScalar never is nil, since nil is not preserved in every type of container.
func dataScalar(r *rand.Rand) interface{} {
	for {
		if v := smallScalar(r); v != nil {
			return v
		}
	}
}

var dataOpts = genOpts{keys: ident, scalars: dataScalar}

func dataList(r *rand.Rand) []interface{} {
	switch r.Intn(5) {
	case 0:
		return genList(r, 2, dataOpts)
	case 1:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = safeWord(r)
		}
		return l
	}
	return genList(r, 0, dataOpts)
}

func dataDict(r *rand.Rand) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Intn(6); i > 0; i-- {
		m[pick(r, "a", "b", "c", "d", "e", "f1", "g h", "1")] = genValue(r, r.Intn(3), dataOpts)
	}
	return m
}

// nilDict sometimes has a nil value.
func nilDict(r *rand.Rand) map[string]interface{} {
	m := dataDict(r)
	if r.Intn(6) == 0 {
		m[pick(r, "a", "b", "c", "d")] = nil
	}
	return m
}

// element gives a scalar that is likely to be in the list.
func element(r *rand.Rand, l []interface{}) interface{} {
	if len(l) > 0 && r.Intn(2) == 0 {
		switch v := l[r.Intn(len(l))].(type) {
		case []interface{}, map[string]interface{}:
		default:
			return v
		}
	}
	return dataScalar(r)
}

func elements(r *rand.Rand, l []interface{}, n int) []interface{} {
	res := make([]interface{}, n)
	for i := range res {
		res[i] = element(r, l)
	}
	return res
}

// dataKey gives a key that is likely to be in the dictionary.
func dataKey(r *rand.Rand, m map[string]interface{}) interface{} {
	if keys := sortedKeys(m); len(keys) > 0 && r.Intn(3) > 0 {
		return pick(r, keys...)
	}
	return pick[interface{}](r, "a", "b", "zz", 1, "1")
}

func dataKeys(r *rand.Rand, m map[string]interface{}, n int) []interface{} {
	res := make([]interface{}, n)
	for i := range res {
		res[i] = dataKey(r, m)
	}
	return res
}

func isEmptyModel(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return true
	case bool:
		return !v
	case int:
		return v == 0
	case float64:
		return v == 0
	case string:
		return v == ""
	case []interface{}:
		return len(v) == 0
	case map[string]interface{}:
		return len(v) == 0
	}
	panic(fmt.Sprintf("isEmptyModel %T", v))
}

// sliceModel is value[from:to] where negative bounds are relative to the end (-1 is after the last element) and inverted bounds reverse the result.
func sliceModel(n, from, to int) (begin, end int, reverse bool) {
	if from < 0 {
		from += n + 1
	}
	if to < 0 {
		to += n + 1
	}
	if reverse = to < from; reverse {
		from, to = to, from
	}
	clamp := func(i int) int {
		if i < 0 {
			return 0
		}
		if i > n {
			return n
		}
		return i
	}
	return clamp(from), clamp(to), reverse
}

func reversed(l []interface{}) []interface{} {
	res := make([]interface{}, len(l))
	for i := range l {
		res[len(l)-1-i] = l[i]
	}
	return res
}

func genDataCase(r *rand.Rand) dataCase {
	some := func(v interface{}) dataResult { return dataResult{value: v} }
	failure := dataResult{fail: true}
	l, m := dataList(r), nilDict(r)
	args := func(first interface{}, others ...interface{}) []interface{} {
		return append([]interface{}{first}, others...)
	}
	fn := pick(r, "append", "prepend", "reverse", "unique", "union", "without", "intersect", "contains", "containsStrict", "find", "findStrict", "removeEmpty", "removeNil", "rest", "initial", "list", "array", "safeIndex",
		"slice", "slice", "slice2", "extract", "sliceStr", "sliceMap", "extractMap", "get", "set", "unset", "hasKey", "keys", "values", "merge", "omit", "pick", "pickv", "pluck", "dict", "key", "keyList", "lenc", "char", "isZero", "isNil", "isSet", "undef", "iif", "bool", "string", "concat", "repeat", "mergeList")
	if r.Intn(8) == 0 && fn != "array" && fn != "contains" && fn != "containsStrict" {
		at := r.Intn(len(l) + 1)
		l = append(l[:at:at], append([]interface{}{nil}, l[at:]...)...)
	}
	switch fn {
	case "append", "prepend", "union", "without", "intersect":
		e := elements(r, l, r.Intn(4))
		if fn == "append" || fn == "prepend" {
			if r.Intn(3) == 0 {
				e = append(e, dataList(r))
			}
			if fn == "append" {
				return dataCase{fn, args(l, e...), some(cat(l, e)), nil}
			}
			return dataCase{fn, args(l, e...), some(cat(e, l)), nil}
		}
		if fn == "union" {
			return dataCase{fn, args(l, e...), some(listModelUnique(cat(l, e))), nil}
		}
		src, res := l, []interface{}{}
		if fn == "intersect" {
			src = listModelUnique(l)
		}
		for _, v := range src {
			if listModelHas(e, v, false) == (fn == "intersect") {
				res = append(res, v)
			}
		}
		return dataCase{fn, args(l, e...), some(res), nil}
	case "reverse":
		return dataCase{fn, args(l), some(reversed(l)), nil}
	case "unique":
		return dataCase{fn, args(l), some(listModelUnique(l)), nil}
	case "contains", "containsStrict":
		strict := fn == "containsStrict"
		if strict {
			l = genList(r, 0, dataOpts)
		}
		if !strict && r.Intn(4) == 0 {
			s, sub := randString(r, "abc1", 0, 6), randString(r, "abc1", 0, 2)
			return dataCase{fn, args(sub, s), some(strings.Contains(s, sub)), nil}
		}
		e := elements(r, l, 1+r.Intn(3))
		want := true
		for _, v := range e {
			want = want && listModelHas(l, v, strict)
		}
		if len(e) == 1 && r.Intn(2) == 0 {
			return dataCase{fn, args(e[0], l), some(want), nil}
		}
		return dataCase{fn, args(l, e...), some(want), nil}
	case "find", "findStrict":
		if fn == "findStrict" {
			l = genList(r, 0, dataOpts)
		}
		if fn == "find" && r.Intn(4) == 0 {
			s, sub := randString(r, "ab1", 0, 6), randString(r, "ab1", 1, 2)
			res := []interface{}{}
			for i, at := 0, 0; ; at += len(sub) {
				if i = strings.Index(s[at:], sub); i < 0 {
					break
				}
				at += i
				res = append(res, at)
			}
			return dataCase{fn, args(s, sub), some(res), nil}
		}
		e := element(r, l)
		return dataCase{fn, args(l, e), some(listModelFind(l, e, fn == "findStrict")), nil}
	case "removeEmpty":
		res := []interface{}{}
		if !listHasNil(l) {
			l = genList(r, 0, dataOpts)
		}
		for _, v := range l {
			if list, isList := v.([]interface{}); v != "" && v != nil && !(isList && len(list) == 0) {
				res = append(res, v)
			}
		}
		return dataCase{fn, args(l), some(res), nil}
	case "removeNil":
		res := []interface{}{}
		for _, v := range l {
			if v != nil {
				res = append(res, v)
			}
		}
		return dataCase{fn, args(l), some(res), nil}
	case "rest", "initial":
		b, e := 1, len(l)
		if fn == "initial" {
			b, e = 0, len(l)-1
		}
		if len(l) == 0 {
			return dataCase{fn, args(l), some(l), nil}
		}
		return dataCase{fn, args(l), some(l[b:e]), nil}
	case "list":
		e := elements(r, l, r.Intn(4))
		return dataCase{fn, e, some(append([]interface{}{}, e...)), nil}
	case "array":
		if r.Intn(2) == 0 {
			return dataCase{fn, args(l), some(l), nil}
		}
		e := element(r, l)
		return dataCase{fn, args(e), some([]interface{}{e}), nil}
	case "safeIndex":
		i, def := r.Intn(8)-2, element(r, nil)
		if i >= 0 && i < len(l) {
			return dataCase{fn, args(l, i, def), some(l[i]), nil}
		}
		return dataCase{fn, args(l, i, def), some(def), nil}
	case "slice":
		b, e := r.Intn(10)-4, r.Intn(10)-4
		begin, end, rev := sliceModel(len(l), b, e)
		res := append([]interface{}{}, l[begin:end]...)
		if rev {
			res = reversed(res)
		}
		return dataCase{fn, args(l, b, e), some(res), nil}
	case "sliceStr":
		s := randString(r, "abcdef12", 0, 7)
		b, e := r.Intn(10)-4, r.Intn(10)-4
		if r.Intn(2) == 0 {
			// positions in the string
			fn, n, idx, res := pick(r, "slice", "extract"), 1, []interface{}{}, ""
			if fn == "extract" {
				n += r.Intn(3)
			}
			for ; n > 0; n-- {
				x := r.Intn(9) - 4
				idx = append(idx, x)
				if x < 0 {
					x += len(s)
				}
				if x < 0 || x >= len(s) {
					return dataCase{fn, args(s, idx...), failure, nil}
				}
				res += s[x : x+1]
			}
			return dataCase{fn, args(s, idx...), some(res), nil}
		}
		begin, end, rev := sliceModel(len(s), b, e)
		res := []byte(s[begin:end])
		if rev {
			for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
				res[i], res[j] = res[j], res[i]
			}
		}
		return dataCase{"slice", args(s, b, e), some(string(res)), nil}
	case "slice2", "extract":
		fn = pick(r, "slice", "extract")
		if fn == "extract" && r.Intn(2) == 0 {
			idx, res, fail := []interface{}{}, []interface{}{}, false
			for i := 2 + r.Intn(3); i > 0; i-- {
				x := r.Intn(7) - 3
				idx = append(idx, x)
				if x < 0 {
					x += len(l)
				}
				if x < 0 || x >= len(l) {
					fail = true
				} else {
					res = append(res, l[x])
				}
			}
			return dataCase{fn, args(l, idx...), dataResult{res, fail}, nil}
		}
		if r.Intn(5) == 0 {
			return dataCase{fn, args(l), some(l), nil}
		}
		x := r.Intn(7) - 3
		at := x
		if x < 0 {
			at += len(l)
		}
		if at < 0 || at >= len(l) {
			return dataCase{fn, args(l, x), failure, nil}
		}
		if sub, isList := l[at].([]interface{}); isList && r.Intn(2) == 0 {
			_ = sub
		}
		return dataCase{fn, args(l, x), some(l[at]), nil}
	case "sliceMap":
		if r.Intn(2) == 0 {
			k := dataKey(r, m)
			v := m[fmt.Sprint(k)]
			return dataCase{"slice", args(m, k), some(v), nil}
		}
		k1, k2 := fmt.Sprint(dataKey(r, m)), fmt.Sprint(dataKey(r, m))
		if r.Intn(2) == 0 {
			// keys and bounds of different lengths
			m = map[string]interface{}{}
			for i := 2 + r.Intn(7); i > 0; i-- {
				m[randString(r, "abc", 1, 3)] = r.Intn(10)
			}
			k1, k2 = randString(r, "abcd", 1, 3), randString(r, "abcd", 1, 3)
		}
		res := []interface{}{}
		lo, hi := k1, k2
		if lo > hi {
			lo, hi = hi, lo
		}
		for _, k := range sortedKeys(m) {
			if k >= lo && k <= hi {
				res = append(res, m[k])
			}
		}
		if k1 > k2 {
			res = reversed(res)
		}
		return dataCase{"slice", args(m, k1, k2), some(res), nil}
	case "extractMap":
		if len(m) == 0 {
			m["a"] = 1
		}
		keys, res := []interface{}{}, []interface{}{}
		for i := 2 + r.Intn(3); i > 0; i-- {
			k := pick(r, sortedKeys(m)...)
			keys = append(keys, k)
			res = append(res, m[k])
		}
		return dataCase{"extract", args(m, keys...), some(res), nil}
	case "get":
		k := dataKey(r, m)
		v, exist := m[fmt.Sprint(k)]
		a := args(m, k)
		if r.Intn(2) == 0 {
			a = args(k, m)
		}
		if r.Intn(2) == 0 {
			def := element(r, nil)
			a = append(a, def)
			if v == nil {
				v = def
			}
			if r.Intn(3) == 0 {
				def2 := element(r, nil)
				a = append(a, def2)
				if !exist || m[fmt.Sprint(k)] == nil {
					v = []interface{}{def, def2}
				}
			}
		}
		return dataCase{fn, a, some(v), nil}
	case "hasKey":
		k := dataKey(r, m)
		_, exist := m[fmt.Sprint(k)]
		if r.Intn(2) == 0 {
			return dataCase{fn, args(k, m), some(exist), nil}
		}
		return dataCase{fn, args(m, k), some(exist), nil}
	case "set":
		k, v := dataKey(r, m), genValue(r, 2, dataOpts)
		m2 := deepCopy(m).(map[string]interface{})
		m2[fmt.Sprint(k)] = v
		if _, isMap := v.(map[string]interface{}); !isMap && r.Intn(2) == 0 {
			return dataCase{fn, args(k, v, m), some(""), args(k, v, m2)}
		}
		return dataCase{fn, args(m, k, v), some(""), args(m2, k, v)}
	case "unset":
		k := dataKey(r, m)
		m2 := deepCopy(m).(map[string]interface{})
		_, exist := m2[fmt.Sprint(k)]
		if !exist {
			m2[fmt.Sprint(k)] = 3
			m[fmt.Sprint(k)] = 3
		}
		delete(m2, fmt.Sprint(k))
		if r.Intn(2) == 0 {
			return dataCase{fn, args(k, m), some(""), args(k, m2)}
		}
		return dataCase{fn, args(m, k), some(""), args(m2, k)}
	case "keys":
		res := []interface{}{}
		for _, k := range sortedKeys(m) {
			res = append(res, k)
		}
		return dataCase{fn, args(m), some(res), nil}
	case "values":
		res := []interface{}{}
		for _, k := range sortedKeys(m) {
			res = append(res, m[k])
		}
		return dataCase{fn, args(m), some(res), nil}
	case "merge":
		a := args(m)
		res := m
		for i := 1 + r.Intn(3); i > 0; i-- {
			d := nilDict(r)
			a = append(a, d)
			res = modelMerge(res, d)
		}
		after := append([]interface{}{res}, a[1:]...)
		return dataCase{fn, a, some(res), after}
	case "omit", "pick", "pickv":
		keys := dataKeys(r, m, 1+r.Intn(3))
		in, out := map[string]interface{}{}, map[string]interface{}{}
		for k, v := range m {
			found := false
			for _, x := range keys {
				found = found || fmt.Sprint(x) == k
			}
			if found {
				in[k] = v
			} else {
				out[k] = v
			}
		}
		switch fn {
		case "omit":
			return dataCase{fn, args(m, keys...), some(out), nil}
		case "pick":
			for _, k := range keys {
				if _, exist := in[fmt.Sprint(k)]; !exist {
					return dataCase{"omit", args(m, keys...), some(out), nil}
				}
			}
			return dataCase{fn, args(m, keys...), some(in), nil}
		}
		keys = nil
		for _, k := range sortedKeys(m) {
			keys = append(keys, k)
		}
		if len(keys) == 0 {
			return dataCase{"omit", args(m, "a"), some(out), nil}
		}
		if r.Intn(2) == 0 {
			return dataCase{fn, args(m, append([]interface{}{""}, keys...)...), some(m), nil}
		}
		if len(keys) == 1 {
			return dataCase{fn, args(m, "unwanted", "other"), failure, nil}
		}
		return dataCase{fn, args(m, append([]interface{}{"unwanted %v"}, keys[1:]...)...), failure, nil}
	case "pluck":
		k := dataKey(r, m)
		a, res := args(k), []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			d := nilDict(r)
			a = append(a, d)
			if v, exist := d[fmt.Sprint(k)]; exist {
				res = append(res, v)
			}
		}
		return dataCase{fn, a, some(res), nil}
	case "dict":
		a, res := []interface{}{}, map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			k, v := pick[interface{}](r, "a", "b", "c", 1, true), genValue(r, 1, dataOpts)
			a = append(a, k, v)
			res[fmt.Sprint(k)] = v
		}
		if r.Intn(6) == 0 {
			return dataCase{fn, append(a, "odd"), failure, nil}
		}
		return dataCase{fn, a, some(res), nil}
	case "key":
		fn = pick(r, "key", "content")
		if len(m) != 1 {
			return dataCase{fn, args(m), failure, nil}
		}
		k := sortedKeys(m)[0]
		if fn == "key" {
			return dataCase{fn, args(m), some(k), nil}
		}
		return dataCase{fn, args(m), some(m[k]), nil}
	case "keyList":
		fn = pick(r, "key", "content")
		ms, keys, all := []interface{}{}, []interface{}{}, map[string]interface{}{}
		for i := 2 + r.Intn(3); i > 0; i-- {
			k, v := ident(r), genValue(r, 1, dataOpts)
			ms, keys = append(ms, map[string]interface{}{k: v}), append(keys, k)
			all[k] = v
		}
		if fn == "key" {
			return dataCase{fn, args(ms), some(keys), nil}
		}
		return dataCase{fn, args(ms), some(all), nil}
	case "lenc":
		s := randString(r, "aé日😀 \n", 0, 8)
		return dataCase{fn, args(s), some(utf8.RuneCountInString(s)), nil}
	case "char":
		n := pick(r, 65+r.Intn(26), 33+r.Intn(90), 160+r.Intn(90), 0x20ac, 0x3b1+r.Intn(20), 0x1f600)
		return dataCase{fn, args(n), some(string(rune(n))), nil}
	case "isZero", "isNil", "isSet":
		var v interface{}
		if r.Intn(6) > 0 {
			v = pick[interface{}](r, genValue(r, 1, dataOpts), 0, "", false, []interface{}{}, 0.0)
		}
		switch fn {
		case "isZero":
			return dataCase{fn, args(v), some(isEmptyModel(v)), nil}
		case "isNil":
			return dataCase{fn, args(v), some(v == nil), nil}
		}
		return dataCase{fn, args(v), some(v != nil), nil}
	case "undef":
		def, v := dataScalar(r), pick[interface{}](r, nil, 0, "", false, dataScalar(r))
		if v == nil {
			return dataCase{fn, args(def, v), some(def), nil}
		}
		return dataCase{fn, args(def, v), some(v), nil}
	case "iif":
		v, x, y := genValue(r, 1, dataOpts), dataScalar(r), dataScalar(r)
		if isEmptyModel(v) {
			return dataCase{fn, args(v, x, y), some(y), nil}
		}
		return dataCase{fn, args(v, x, y), some(x), nil}
	case "bool":
		s := pick(r, "true", "TRUE", "True", "1", "false", "FALSE", "False", "0")
		return dataCase{fn, args(s), some(strings.ToLower(s) == "true" || s == "1"), nil}
	case "string":
		v := dataScalar(r)
		return dataCase{fn, args(v), some(fmt.Sprint(v)), nil}
	case "concat":
		e := elements(r, l, r.Intn(4))
		s := ""
		for _, v := range e {
			s += fmt.Sprint(v)
		}
		return dataCase{fn, e, some(s), nil}
	case "repeat":
		n, v := r.Intn(5)-1, genValue(r, 1, dataOpts)
		if n < 0 {
			return dataCase{fn, args(n, v), failure, nil}
		}
		res := make([]interface{}, n)
		for i := range res {
			res[i] = v
		}
		return dataCase{fn, args(n, v), some(res), nil}
	case "mergeList":
		a, res := []interface{}{}, []interface{}{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			x := genList(r, 1, dataOpts)
			a, res = append(a, x), cat(res, x)
		}
		return dataCase{fn, a, some(res), nil}
	}
	panic(fn)
}

// dataArgument writes an argument: a variable of the context, a literal or a value built in the template.
func dataArgument(r *rand.Rand, name string, v interface{}, ctx map[string]interface{}) (goText string) {
	ctx[name] = deepCopy(v)
	switch v := v.(type) {
	case int:
		if r.Intn(2) == 0 {
			return strconv.Itoa(v)
		}
	case bool:
		if r.Intn(2) == 0 {
			return strconv.FormatBool(v)
		}
	case string:
		if r.Intn(2) == 0 {
			return strconv.Quote(v)
		}
	case nil:
		return "$.undefinedValue" + name
	}
	return "$." + name
}

func hasNil(m map[string]interface{}) bool {
	for _, v := range m {
		if v == nil {
			return true
		}
	}
	return false
}

func listHasNil(l []interface{}) bool {
	for _, v := range l {
		if v == nil {
			return true
		}
	}
	return false
}

func dataFunctionsSuite(c *Ctx) {
	r := c.Rng
	dc := genDataCase(r)
	ctx := map[string]interface{}{}
	// the collections come from the context or from a text in one of the formats
	prefix := ""
	var names []string
	for i, v := range dc.args {
		name := fmt.Sprintf("a%d", i)
		text := dataArgument(r, name, v, ctx)
		_, isList := v.([]interface{})
		m, isMap := v.(map[string]interface{})
		if s, isString := v.(string); isString && (dc.fn == "contains" && i == 1 || dc.fn == "find" && i == 0) && r.Intn(2) == 0 {
			if _, isString = dc.args[0].(string); isString {
				prefix += fmt.Sprintf("{{ $s%d := String %q }}", i, s)
				text = fmt.Sprintf("$s%d", i)
				c.Event("String object")
			}
		}
		asList, _ := v.([]interface{})
		if hasNil(m) || listHasNil(asList) {
			// nil is only preserved in a collection built by the functions
			text = fmt.Sprintf("$a%d", i)
			prefix += fmt.Sprintf("{{ %s := buildCollection %d }}", text, i)
			c.Event(iifs(isMap, "dictionary", "list") + " with nil")
		} else if (isList || isMap) && r.Intn(3) == 0 && !strings.HasSuffix(dc.fn, "Strict") { // numbers may have another type
			from := pick(r, "json", "yaml", "data")
			if isMap && len(m) > 0 && r.Intn(3) == 0 {
				from = "json"
			}
			prefix += "{{ set $ " + strconv.Quote(name) + " (" + from + " " + strconv.Quote(js(v)) + ") }}"
			c.Event("argument read from a text")
		}
		names = append(names, text)
	}
	opts := strictOptions()
	t := newTemplate(ctx, "", opts)
	fn := dc.fn
	if a := dataAliases[fn]; len(a) > 0 && r.Intn(3) == 0 {
		fn = pick(r, a...)
	}
	var captured interface{}
	called := 0
	after := map[string]interface{}{}
	t.AddFunctions(map[string]interface{}{
		"captureValue": func(v interface{}) string { captured, called = v, called+1; return "" },
		"buildCollection": func(i int) interface{} {
			if l, isList := dc.args[i].([]interface{}); isList {
				res := collections.CreateList()
				for _, v := range l {
					res = res.Append(deepCopy(v))
				}
				return res
			}
			d := collections.CreateDictionary()
			m := dc.args[i].(map[string]interface{})
			for _, k := range sortedKeys(m) {
				d.Set(k, deepCopy(m[k]))
			}
			return d
		},
		"captureArgument": func(k string, v interface{}) string { after[k] = native(v); return "" },
	}, "verif", template.FuncOptions{})
	style := r.Intn(4)
	code := ""
	switch {
	case style == 0 && len(names) > 0:
		last := len(names) - 1
		code = "{{ " + names[last] + " | " + strings.Join(append([]string{fn}, names[:last]...), " ") + " | captureValue }}"
	case style == 1:
		code = "@captureValue(" + fn + "(" + strings.Join(names, ", ") + "));"
	case style == 2:
		code = "{{ $x := " + strings.Join(append([]string{fn}, names...), " ") + " }}{{ captureValue $x }}"
	default:
		code = "{{ captureValue (" + strings.Join(append([]string{fn}, names...), " ") + ") }}"
	}
	suffix := ""
	for _, name := range names {
		if strings.HasPrefix(name, "$.a") || strings.HasPrefix(name, "$a") {
			suffix += "{{ captureArgument " + strconv.Quote(name) + " " + name + " }}"
		}
	}
	out, err := render(t, prefix+code+suffix)
	describe := fmt.Sprintf("%s with %s", code, js(dc.args))
	switch {
	case dc.want.fail:
		if err == nil {
			c.Fail("no-error", "%s gives %s instead of an error", describe, js(native(captured)))
		}
		c.Event("error expected")
	case err != nil || called != 1 || out != "":
		c.Fail("error", "%s\nfails: %v, output %q, %d calls\nexpected %s", describe, err, out, called, js(dc.want.value))
	case canonLoose(native(captured)) != canonLoose(dc.want.value):
		c.Fail("result", "%s\ngives    %s\nexpected %s", describe, canonLoose(native(captured)), canonLoose(dc.want.value))
	}
	want := dc.args
	if dc.after != nil && !dc.want.fail {
		want = dc.after
	}
	for i, name := range names {
		if got, called := after[name]; called && canonLoose(got) != canonLoose(want[i]) {
			c.Fail("argument", "%s\nargument %d becomes %s\nexpected %s", describe, i, canonLoose(got), canonLoose(want[i]))
		} else if err == nil && !called && strings.HasPrefix(name, "$.a") {
			c.Fail("argument", "%s\nargument %d is not captured", describe, i)
		}
	}
	c.Event("fn:" + dc.fn)
	c.Obs(dc.fn+js(dc.args), true)
}

// pathsSuite: selectors, index and slices of nested values.
func pathsSuite(c *Ctx) {
	r := c.Rng
	root := map[string]interface{}{}
	for len(root) < 2 {
		root[ident(r)] = genValue(r, 4, dataOpts)
	}
	t := newTemplate(root, "", strictOptions())
	var cur interface{} = root
	razor, goText := "", "$"
	for depth := 1 + r.Intn(5); depth > 0; depth-- {
		switch v := cur.(type) {
		case map[string]interface{}:
			if len(v) == 0 {
				depth = 0
				break
			}
			k := pick(r, sortedKeys(v)...)
			if razor != "" && r.Intn(3) == 0 {
				razor += "[" + strconv.Quote(k) + "]"
				goText = "(index " + goText + " " + strconv.Quote(k) + ")"
			} else {
				if razor != "" {
					razor += "."
				}
				razor += k
				goText += "." + k
			}
			cur = v[k]
		case []interface{}:
			if len(v) == 0 {
				depth = 0
				break
			}
			if r.Intn(3) == 0 {
				b, e := r.Intn(2*len(v)+1)-len(v), r.Intn(2*len(v)+1)-len(v)
				begin, end, rev := sliceModel(len(v), b, e)
				s := append([]interface{}{}, v[begin:end]...)
				if rev {
					s = reversed(s)
				}
				razor += fmt.Sprintf("[%d:%d]", b, e)
				goText = fmt.Sprintf("(slice %s %d %d)", goText, b, e)
				cur = s
				depth = 0
			} else {
				i := r.Intn(len(v))
				cur = v[i]
				goText = fmt.Sprintf("(index %s %d)", goText, i)
				if r.Intn(3) == 0 {
					i -= len(v)
				}
				razor += fmt.Sprintf("[%d]", i)
			}
		default:
			depth = 0
		}
		if depth == 0 {
			break
		}
	}
	var captured interface{}
	t.AddFunctions(map[string]interface{}{"captureValue": func(v interface{}) string { captured = v; return "" }}, "verif", template.FuncOptions{})
	for _, code := range []string{"@captureValue(" + razor + ");", "{{ captureValue " + goText + " }}"} {
		captured = nil
		if out, err := render(t, code); err != nil || out != "" || canonLoose(native(captured)) != canonLoose(cur) {
			c.Fail("path", "%s on %s\ngives    %s (%v)\nexpected %s", code, js(root), canonLoose(native(captured)), err, canonLoose(cur))
		}
	}
	c.Obs(razor+js(root), strings.ContainsAny(razor, ".["))
}

// historySuite: a sequence of set, unset, merge, append on shared variables, as in scripts that build configurations.
func dataHistorySuite(c *Ctx) {
	r := c.Rng
	root := map[string]interface{}{"x": dataDict(r), "y": dataDict(r), "l": genList(r, 1, dataOpts)}
	model := deepCopy(root).(map[string]interface{})
	t := newTemplate(root, "", strictOptions())
	var lines []string
	dictNames := []string{"x", "y"}
	for i := 3 + r.Intn(12); i > 0; i-- {
		name := pick(r, dictNames...)
		m := model[name].(map[string]interface{})
		v := genValue(r, 1, dataOpts)
		switch r.Intn(7) {
		case 0, 1:
			k := pick(r, "a", "b", "c")
			lines = append(lines, fmt.Sprintf("{{ set $.%s %q (json %q) }}", name, k, js(v)))
			m[k] = v
		case 2:
			k := dataKey(r, m)
			if _, exist := m[fmt.Sprint(k)]; exist {
				lines = append(lines, fmt.Sprintf("{{ unset $.%s %q }}", name, fmt.Sprint(k)))
				delete(m, fmt.Sprint(k))
			}
		case 3:
			d := dataDict(r)
			lines = append(lines, fmt.Sprintf("{{ $ignored := merge $.%s (json %q) }}", name, js(d)))
			model[name] = modelMerge(m, d)
		case 4:
			lines = append(lines, fmt.Sprintf("{{ set $ \"l\" (append $.l (json %q)) }}", js(v)))
			model["l"] = cat(model["l"].([]interface{}), []interface{}{v})
		case 5:
			lines = append(lines, "{{ set $ \"l\" (rest $.l) }}")
			if l := model["l"].([]interface{}); len(l) > 0 {
				model["l"] = l[1:]
			}
		case 6:
			k := "v" + ident(r)
			lines = append(lines, fmt.Sprintf("@%s := json(%q);", k, js(v)))
			model[k] = v
		}
	}
	code := strings.Join(lines, "")
	out, err := render(t, code+"{{ toJson (omit $ `_`) }}")
	var got interface{}
	if err == nil {
		err = json.Unmarshal([]byte(out), &got)
	}
	if g, isMap := got.(map[string]interface{}); isMap {
		for k := range g {
			if _, expected := model[k]; !expected && isConstantName(k) {
				delete(g, k)
			}
		}
	}
	if err != nil || canonLoose(got) != canonLoose(model) {
		c.Fail("history", "%s\non %s\ngives    %s (%v)\nexpected %s", code, js(root), canonLoose(got), err, canonLoose(model))
	}
	c.Obs(code, len(lines) > 2)
}

// pickvSuite: the error of pickv is the message given with the unexpected keys at the place of its %v (or at its end).
func pickvSuite(c *Ctx) {
	r := c.Rng
	m := map[string]interface{}{}
	for i := 1 + r.Intn(5); i > 0; i-- {
		m[ident(r)] = genValue(r, 1, dataOpts)
	}
	wanted, over := []string{}, []string{}
	for _, k := range sortedKeys(m) {
		if r.Intn(2) == 0 {
			wanted = append(wanted, k)
		} else {
			over = append(over, k)
		}
	}
	if r.Intn(2) == 0 || len(wanted) == 0 {
		wanted = append(wanted, "absent_"+ident(r))
	}
	word := func() string { return pick(r, "", "", "bad ", "Found: ", "é ", "[", "a, b ") + pick(r, "", "x") }
	before, after := word(), word()
	message, list := before, strings.Join(over, ", ")
	expected := before + " " + list
	switch {
	case r.Intn(2) == 0:
		message, expected = before+"%v"+after, before+list+after
	case before == "":
		expected = "Unwanted values " + list
	}
	args := []string{"$.d", fmt.Sprintf("%q", message)}
	for _, k := range wanted {
		args = append(args, fmt.Sprintf("%q", k))
	}
	code := "{{ pickv " + strings.Join(args, " ") + " | toJson }}"
	out, err := render(newTemplate(map[string]interface{}{"d": m}, "", strictOptions()), code)
	if len(over) > 0 {
		c.Event("unexpected keys")
		if err == nil || !strings.Contains(err.Error(), expected) || strings.Contains(err.Error(), "%!") {
			c.Fail("pickv-message", "%s on %s\nerror %v (output %q)\ndoes not contain %q", code, js(m), err, out, expected)
		}
	} else if err != nil {
		c.Fail("pickv-error", "%s on %s\nfails with %v while no key is unexpected", code, js(m), err)
	}
	c.Obs(code+js(m), len(over) > 0)
}

// ellipsisSuite: a call whose last argument is followed by ... receives the elements of that list as arguments.
func ellipsisSuite(c *Ctx) {
	r := c.Rng
	value := func() interface{} {
		if r.Intn(3) == 0 {
			return hostileString(r)
		}
		return genValue(r, r.Intn(3), dataOpts)
	}
	ctx, want := map[string]interface{}{"x": 1}, []interface{}{}
	names := []string{}
	for i := r.Intn(3); i > 0; i-- {
		name, v := fmt.Sprintf("a%d", i), value()
		ctx[name] = v
		names, want = append(names, "$."+name), append(want, v)
	}
	list := []interface{}{}
	for i := r.Intn(5); i > 0; i-- {
		list = append(list, value())
	}
	ctx["l"] = list
	want = append(want, list...)
	names = append(names, pick(r, "$.l", "$.l", "$l"))
	var got []interface{}
	called := 0
	t := newTemplate(ctx, "", strictOptions())
	t.AddFunctions(map[string]interface{}{
		"captureAll": func(args ...interface{}) string { got, called = args, called+1; return "" },
	}, "verif", template.FuncOptions{})
	prefix := "{{ $l := $.l }}"
	code := pick(r, "{{ ellipsis `captureAll` "+strings.Join(names, " ")+" }}", "@captureAll("+strings.Join(names, ", ")+"...)", "{{ "+names[len(names)-1]+" | "+strings.Join(append([]string{"ellipsis", "`captureAll`"}, names[:len(names)-1]...), " ")+" }}", "@(captureAll("+strings.Join(names, ", ")+"...));", "@if (not(captureAll("+strings.Join(names, ", ")+"...)))@end if")
	out, err := render(t, prefix+code)
	values := []interface{}{}
	for _, v := range got {
		values = append(values, native(v))
	}
	if err != nil || called != 1 || out != "" || canonLoose(values) != canonLoose(want) {
		c.Fail("ellipsis", "%s on %s\ncalls with %s (%d calls, output %q, error %v)\nexpected   %s", code, js(ctx), canonLoose(values), called, out, err, canonLoose(want))
	}
	if r.Intn(10) == 0 {
		if out, err := render(t, pick(r, "{{ ellipsis `captureAll` $.x }}", "@captureAll($.x...)", "{{ ellipsis `captureAll` }}", "@captureAll($.l, \"abc\"...)")); err == nil {
			c.Fail("ellipsis-error", "no error when the last argument is not a list, output %q", out)
		}
		c.Event("not a list")
	}
	c.Obs(code+js(ctx), len(list) > 0)
}

func isConstantName(k string) bool {
	return k == "true" || k == "false" || k == "null" || strings.ToUpper(k[:1]) == k[:1]
}

func init() {
	register(&Property{
		ID:   "P14",
		Rule: "one evaluation is one call, path or sequence of changes compared with a model; distinct by function and arguments",
		Suites: []Suite{
			{Name: "functions", Quick: 30000, Thorough: 600000, Run: dataFunctionsSuite, Need: []string{"error expected", "argument read from a text", "fn:set", "fn:merge", "fn:extract", "fn:pickv", "dictionary with nil"}},
			{Name: "paths", Quick: 6000, Thorough: 200000, Run: pathsSuite},
			{Name: "ellipsis", Quick: 3000, Thorough: 60000, Run: ellipsisSuite, Need: []string{"not a list"}},
			{Name: "pickv", Quick: 1500, Thorough: 40000, Run: pickvSuite, Need: []string{"unexpected keys"}},
			{Name: "history", Quick: 4000, Thorough: 100000, Run: dataHistorySuite},
		},
	})
}

var _ = sort.Strings

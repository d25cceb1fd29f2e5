package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	ghcl "github.com/coveooss/gotemplate/v3/hcl"
	gjson "github.com/coveooss/gotemplate/v3/json"
	gxml "github.com/coveooss/gotemplate/v3/xml"
	gyaml "github.com/coveooss/gotemplate/v3/yaml"
)

type flavor struct {
	name string
	l    collections.IListHelper
	d    collections.IDictionaryHelper
}

var flavors = []flavor{
	{"base", implementation.GenericListHelper, implementation.DictionaryHelper},
	{"json", gjson.GenericListHelper, gjson.DictionaryHelper},
	{"yaml", gyaml.GenericListHelper, gyaml.DictionaryHelper},
	{"hcl", ghcl.GenericListHelper, ghcl.DictionaryHelper},
	{"xml", gxml.GenericListHelper, gxml.DictionaryHelper},
}

func smallScalar(r *rand.Rand) interface{} {
	switch r.Intn(9) {
	case 0, 1, 2:
		return r.Intn(6)
	case 3, 4:
		return randString(r, "ab1", 0, 2)
	case 5:
		return r.Intn(2) == 0
	case 6:
		return float64(r.Intn(5)) / 2
	case 7:
		return fmt.Sprint(r.Intn(6)) // same text as an integer
	default:
		return nil
	}
}

var colOpts = genOpts{keys: ident, scalars: smallScalar}

func listModelFind(l []interface{}, v interface{}, strict bool) (res []interface{}) {
	res = []interface{}{}
	for i := range l {
		if strict && l[i] == v || !strict && fmt.Sprint(l[i]) == fmt.Sprint(v) {
			res = append(res, i)
		}
	}
	return
}

func listModelHas(l []interface{}, v interface{}, strict bool) bool {
	return len(listModelFind(l, v, strict)) > 0
}

func listModelUnique(l []interface{}) []interface{} {
	res := []interface{}{}
	for i := range l {
		if !listModelHas(res, l[i], false) {
			res = append(res, l[i])
		}
	}
	return res
}

func removeAt(l []interface{}, idx []int) []interface{} {
	res := []interface{}{}
	for i := range l {
		drop := false
		for _, x := range idx {
			drop = drop || x == i || x+len(l) == i
		}
		if !drop {
			res = append(res, l[i])
		}
	}
	return res
}

// collectionType is the name of the type of a collection without its kind, blank if it is another value.
func collectionType(v interface{}) string {
	switch v.(type) {
	case collections.IGenericList, collections.IDictionary:
		return strings.TrimSuffix(strings.TrimSuffix(fmt.Sprintf("%T", v), "Dict"), "List")
	}
	return ""
}

func cat(a, b []interface{}) []interface{} {
	return append(append([]interface{}{}, a...), b...)
}

type listPair struct {
	real  collections.IGenericList
	model []interface{}
}

// listHistory runs a random history of operations over a pool of lists and compares all
// the lists of the pool with their models after each step.
func listHistory(c *Ctx) {
	r := c.Rng
	f := flavors[c.Index%len(flavors)]
	flat := r.Intn(3) > 0 // only scalars
	depth := 0
	if !flat {
		depth = 2
	}
	var log []string
	nat := func() []interface{} {
		l := genList(r, depth, colOpts)
		return l
	}
	pool := []listPair{}
	add := func(real collections.IGenericList, model []interface{}) {
		if len(pool) < 12 {
			pool = append(pool, listPair{real, model})
		} else {
			pool[r.Intn(len(pool))] = listPair{real, model}
		}
	}
	for i := 0; i < 3; i++ {
		n := nat()
		real := f.l.CreateList(0, len(n)+r.Intn(4))
		real = real.Append(deepCopy(n).([]interface{})...)
		add(real, n)
	}
	scalar := func(l []interface{}) interface{} {
		if len(l) > 0 && r.Intn(2) == 0 {
			v := l[r.Intn(len(l))]
			switch v.(type) {
			case []interface{}, map[string]interface{}:
			default:
				return v
			}
		}
		return smallScalar(r)
	}
	check := func(op string, got interface{}, want interface{}) {
		if canon(got) != canon(want) {
			c.Fail("list-model", "%s list: %s\n got  %s\n want %s\nhistory: %s", f.name, op, canon(got), canon(want), strings.Join(log, "; "))
		}
	}
	typ := func(op string, l collections.IGenericList) {
		if got := l.TypeName().Str(); got != f.name {
			c.Fail("list-type", "%s of a %s list is a %s list", op, f.name, got)
		}
	}
	steps := 12 + r.Intn(20)
	for s := 0; s < steps && c.failed == 0; s++ {
		pi := r.Intn(len(pool))
		p := pool[pi]
		before := canon(p.real.AsArray())
		op := pick(r, "append", "append", "prepend", "clone", "reverse", "remove", "removeneg", "pop", "removeEmpty", "removeNil", "set", "setBig", "setNeg", "get", "getMany", "firstLast", "create",
			"contains", "containsStrict", "find", "findStrict", "unique", "union", "intersect", "without", "strings", "types")
		if !flat {
			switch op {
			case "contains", "containsStrict", "find", "findStrict", "unique", "union", "intersect", "without", "strings", "types":
				continue
			case "removeEmpty":
				if hasEmptyDict(p.model) {
					continue // an empty dictionary may be written as nothing
				}
			}
		}
		args := nat()
		argsReal := deepCopy(args).([]interface{})
		desc := fmt.Sprintf("%s(%s)%s", op, canon(p.model), canon(args))
		log = append(log, clip(desc, 200))
		c.Event("op:" + op)
		mutated := false
		switch op {
		case "append":
			l := p.real.Append(argsReal...)
			typ(op, l)
			check(op, l.AsArray(), cat(p.model, args))
			add(l, cat(p.model, args))
		case "prepend":
			l := p.real.Prepend(argsReal...)
			typ(op, l)
			check(op, l.AsArray(), cat(args, p.model))
			add(l, cat(args, p.model))
		case "clone":
			l := p.real.Clone()
			typ(op, l)
			check(op, l.AsArray(), p.model)
			add(l, deepCopy(p.model).([]interface{}))
			// altering a nested element of the copy does not reach the source
			l2 := p.real.Clone()
			for _, item := range l2.AsArray() {
				switch item := item.(type) {
				case collections.IDictionary:
					item.Set("altered", 1)
					c.Event("nested clone altered")
				case collections.IGenericList:
					if item.Len() > 0 {
						item.Set(0, "altered")
						c.Event("nested clone altered")
					}
				}
			}
		case "reverse":
			m := []interface{}{}
			for i := len(p.model) - 1; i >= 0; i-- {
				m = append(m, p.model[i])
			}
			l := p.real.Reverse()
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "remove", "removeneg", "pop":
			n := r.Intn(3)
			idx := []int{}
			for i := 0; i < n; i++ {
				x := r.Intn(len(p.model) + 2)
				if op == "removeneg" {
					x = -1 - r.Intn(len(p.model)+1)
				}
				idx = append(idx, x)
			}
			orig := fmt.Sprint(idx)
			if op == "pop" {
				eff := idx
				if len(idx) == 0 {
					if len(p.model) == 0 {
						continue
					}
					eff = []int{len(p.model) - 1}
				}
				v, l := p.real.Pop(idx...)
				check("pop value", v, modelGet(p.model, eff))
				check("pop list", l.AsArray(), removeAt(p.model, eff))
				add(l, removeAt(p.model, eff))
			} else {
				l := p.real.Remove(idx...)
				typ(op, l)
				check(op+orig, l.AsArray(), removeAt(p.model, idx))
				add(l, removeAt(p.model, idx))
			}
			if fmt.Sprint(idx) != orig {
				c.Fail("list-args", "%s altered its indexes %s -> %v", op, orig, idx)
			}
		case "removeEmpty":
			m := []interface{}{}
			for _, v := range p.model {
				if sub, isList := v.([]interface{}); v != nil && v != "" && !(isList && len(sub) == 0) {
					m = append(m, v)
				}
			}
			l := p.real.RemoveEmpty()
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "removeNil":
			m := []interface{}{}
			for _, v := range p.model {
				if v != nil {
					m = append(m, v)
				}
			}
			l := p.real.RemoveNil()
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "set":
			if len(p.model) == 0 {
				continue
			}
			// in place on a private copy: the shared elements of the pool stay comparable
			l, m := p.real.Clone(), cat(p.model, nil)
			i, v := r.Intn(len(m)), smallScalar(r)
			l2, err := l.Set(i, v)
			if err != nil {
				c.Fail("list-set", "Set(%d): %v", i, err)
				continue
			}
			m[i] = v
			check(op, l2.AsArray(), m)
			check("set in place", l.AsArray(), m)
			add(l2, m)
			if r.Intn(3) == 0 {
				// the native Go collections are converted to the type of the list
				l, m := p.real.Clone(), cat(p.model, nil)
				var native interface{}
				if r.Intn(2) == 0 {
					native = map[string]interface{}{"k": v}
					m[i] = map[string]interface{}{"k": v}
				} else {
					native = []interface{}{v, 1}
					m[i] = []interface{}{v, 1}
				}
				if v == nil {
					continue
				}
				if _, err := l.Set(i, native); err != nil {
					c.Fail("list-set", "Set(%d, %v): %v", i, native, err)
				}
				check("set native", l.AsArray(), m)
				if got, want := collectionType(l.Get(i)), collectionType(l); got != want {
					c.Fail("list-set", "Set(%d, %v) in a %T stores a %T", i, native, l, l.Get(i))
				}
				c.Event("native value set")
			}
		case "setBig":
			i, v := len(p.model)+r.Intn(3), smallScalar(r)
			l, err := p.real.Set(i, v)
			if err != nil {
				c.Fail("list-set", "Set(%d): %v", i, err)
				continue
			}
			m := cat(p.model, make([]interface{}, i+1-len(p.model)))
			m[i] = v
			check(op, l.AsArray(), m)
			add(l, m)
		case "setNeg":
			if _, err := p.real.Set(-1-r.Intn(3), 1); err == nil {
				c.Fail("list-set", "Set with a negative index succeeds")
			}
		case "get":
			i := r.Intn(2*len(p.model)+3) - len(p.model) - 1
			check(fmt.Sprint("get ", i), p.real.Get(i), modelGet(p.model, []int{i}))
		case "getMany":
			idx := []int{}
			for i := 0; i < 2+r.Intn(2); i++ {
				idx = append(idx, r.Intn(2*len(p.model)+3)-len(p.model)-1)
			}
			check(fmt.Sprint("get ", idx), p.real.Get(idx...), modelGet(p.model, idx))
		case "firstLast":
			check("first", p.real.First(), modelGet(p.model, []int{0}))
			if len(p.model) > 0 {
				check("last", p.real.Last(), p.model[len(p.model)-1])
			}
			if p.real.Len() != len(p.model) || p.real.Count() != len(p.model) || p.real.Cap() < len(p.model) {
				c.Fail("list-len", "Len %d Count %d Cap %d, want %d", p.real.Len(), p.real.Count(), p.real.Cap(), len(p.model))
			}
		case "create":
			typ(op, p.real.Create(2, 3))
			if p.real.CreateDict().TypeName().Str() != f.name {
				c.Fail("list-type", "CreateDict of a %s list", f.name)
			}
			check("new", p.real.New(append([]interface{}{1, 2}, argsReal...)...).AsArray(), cat([]interface{}{1, 2}, args))
		case "contains", "containsStrict":
			strict := op == "containsStrict"
			vals := []interface{}{}
			want := len(p.model) > 0
			for i := 0; i < r.Intn(3); i++ {
				v := scalar(p.model)
				vals = append(vals, v)
				want = want && listModelHas(p.model, v, strict)
			}
			var got, got2 bool
			if strict {
				got, got2 = p.real.ContainsStrict(vals...), p.real.HasStrict(vals...)
			} else {
				got, got2 = p.real.Contains(vals...), p.real.Has(vals...)
			}
			if got != want || got2 != want {
				c.Fail("list-model", "%s %s %s = %v/%v, want %v", op, canon(p.model), canon(vals), got, got2, want)
			}
		case "find":
			v := scalar(p.model)
			check(op+canon(v), p.real.Find(v).AsArray(), listModelFind(p.model, v, false))
		case "findStrict":
			v := scalar(p.model)
			check(op+canon(v), p.real.FindStrict(v).AsArray(), listModelFind(p.model, v, true))
		case "unique":
			m := listModelUnique(p.model)
			l := p.real.Unique()
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "union":
			m := listModelUnique(cat(p.model, args))
			l := p.real.Union(argsReal...)
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "intersect", "without":
			m := []interface{}{}
			src := p.model
			if op == "intersect" {
				src = listModelUnique(src)
			}
			for _, v := range src {
				if listModelHas(args, v, false) == (op == "intersect") {
					m = append(m, v)
				}
			}
			var l collections.IGenericList
			if op == "intersect" {
				l = p.real.Intersect(argsReal...)
			} else {
				l = p.real.Without(argsReal...)
			}
			typ(op, l)
			check(op, l.AsArray(), m)
			add(l, m)
		case "strings":
			want, strs := []string{}, []string{}
			for _, v := range p.model {
				want = append(want, fmt.Sprint(v))
				if v != nil { // nil elements have no string
					strs = append(strs, fmt.Sprint(v))
				}
			}
			check("strings", p.real.Strings(), strs)
			check("stringArray", p.real.StringArray(), want)
			if got := p.real.Join("|").Str(); got != strings.Join(want, "|") {
				c.Fail("list-join", "%q want %q", got, strings.Join(want, "|"))
			}
		case "types":
			want := []string{}
			for _, v := range p.model {
				if v == nil {
					want = append(want, "nil")
				} else {
					want = append(want, fmt.Sprintf("%T", v))
				}
			}
			check("types", p.real.(interface {
				GetTypes() collections.IGenericList
			}).GetTypes().AsArray(), want)
			check("kinds", p.real.(interface {
				GetKinds() collections.IGenericList
			}).GetKinds().AsArray(), want)
		}
		_ = mutated
		if got := canon(p.real.AsArray()); got != before {
			c.Fail("list-mutated", "%s altered the list it was applied on\n before %s\n after  %s\nhistory: %s", desc, before, got, strings.Join(log, "; "))
		}
		if canon(args) != canon(argsReal) {
			c.Fail("list-args", "%s altered its arguments %s -> %s", op, canon(args), canon(argsReal))
		}
		for i, q := range pool {
			if canon(q.real.AsArray()) != canon(q.model) {
				c.Fail("list-alias", "after %s on list %d, list %d changed\n got  %s\n want %s\nhistory: %s", desc, pi, i, canon(q.real.AsArray()), canon(q.model), strings.Join(log, "; "))
				break
			}
		}
	}
	c.Event("list steps", len(log))
	c.Obs(f.name+" "+strings.Join(log, ";"), len(log) > 3)
}

func modelGet(l []interface{}, idx []int) interface{} {
	one := func(i int) interface{} {
		if i < 0 {
			i += len(l)
		}
		if i < 0 || i >= len(l) {
			return nil
		}
		return l[i]
	}
	if len(idx) == 0 {
		return nil
	}
	if len(idx) == 1 {
		return one(idx[0])
	}
	res := []interface{}{}
	for _, i := range idx {
		res = append(res, one(i))
	}
	return res
}

// ---------------------------------------------------------------------------------------

type dictPair struct {
	real  collections.IDictionary
	model map[string]interface{}
}

func modelMerge(target, source map[string]interface{}) map[string]interface{} {
	res := map[string]interface{}{}
	for k, v := range target {
		res[k] = v
	}
	for k, v := range source {
		t, exist := res[k]
		if !exist {
			res[k] = v
			continue
		}
		tm, ok1 := t.(map[string]interface{})
		sm, ok2 := v.(map[string]interface{})
		if ok1 && ok2 {
			res[k] = modelMerge(tm, sm)
		}
	}
	return res
}

func modelDictGet(m map[string]interface{}, keys []interface{}) interface{} {
	if len(keys) == 0 {
		return nil
	}
	if len(keys) == 1 {
		return m[fmt.Sprint(keys[0])]
	}
	res := []interface{}{}
	for _, k := range keys {
		res = append(res, m[fmt.Sprint(k)])
	}
	return res
}

func dictHistory(c *Ctx) {
	r := c.Rng
	f := flavors[c.Index%len(flavors)]
	var log []string
	shortKey := func(r *rand.Rand) string { return pick(r, "a", "b", "c", "d", "1", "2", "e f", "é") }
	o := genOpts{keys: shortKey, scalars: smallScalar}
	nat := func() map[string]interface{} { return genMap(r, 2, o) }
	mk := func(m map[string]interface{}) collections.IDictionary {
		d := f.d.CreateDictionary()
		cp := deepCopy(m).(map[string]interface{})
		for k := range cp {
			d.Set(k, cp[k])
		}
		return d
	}
	pool := []*dictPair{}
	add := func(real collections.IDictionary, model map[string]interface{}) {
		if len(pool) < 10 {
			pool = append(pool, &dictPair{real, model})
		} else {
			pool[r.Intn(len(pool))] = &dictPair{real, model}
		}
	}
	for i := 0; i < 4; i++ {
		n := nat()
		add(mk(n), n)
	}
	anyKey := func() interface{} {
		if r.Intn(5) == 0 {
			return 1 + r.Intn(2) // keys are compared by their text
		}
		return shortKey(r)
	}
	check := func(op string, got, want interface{}) {
		if canon(got) != canon(want) {
			c.Fail("dict-model", "%s dictionary: %s\n got  %s\n want %s\nhistory: %s", f.name, op, canon(got), canon(want), strings.Join(log, "; "))
		}
	}
	typ := func(op string, d collections.IDictionary) {
		if got := d.TypeName().Str(); got != f.name {
			c.Fail("dict-type", "%s of a %s dictionary is a %s dictionary", op, f.name, got)
		}
	}
	steps := 12 + r.Intn(20)
	for s := 0; s < steps && c.failed == 0; s++ {
		pi := r.Intn(len(pool))
		p := pool[pi]
		op := pick(r, "get", "getMany", "has", "default", "keys", "values", "clone", "cloneKeys", "omit", "merge", "mergeMany", "set", "add", "delete", "deleteMissing", "flush", "pop", "transpose", "types", "native", "create", "count")
		desc := fmt.Sprintf("%s %s", op, canon(p.model))
		log = append(log, clip(desc, 160))
		c.Event("op:" + op)
		keys := []interface{}{}
		for i := r.Intn(3); i >= 0; i-- {
			keys = append(keys, anyKey())
		}
		switch op {
		case "get":
			check(op+fmt.Sprint(keys[0]), p.real.Get(keys[0]), modelDictGet(p.model, keys[:1]))
		case "getMany":
			check(op+fmt.Sprint(keys), p.real.Get(keys...), modelDictGet(p.model, keys))
		case "has":
			want := len(p.model) > 0
			for _, k := range keys {
				_, ok := p.model[fmt.Sprint(k)]
				want = want && ok
			}
			if got := p.real.Has(keys...); got != want {
				c.Fail("dict-model", "Has(%v) of %s = %v", keys, canon(p.model), got)
			}
		case "default":
			want, ok := p.model[fmt.Sprint(keys[0])]
			if !ok {
				want = "def"
			}
			check(op, p.real.Default(keys[0], "def"), want)
		case "keys":
			check(op, p.real.GetKeys().AsArray(), sortedKeys(p.model))
			check(op, p.real.KeysAsString(), sortedKeys(p.model))
		case "values":
			want := []interface{}{}
			for _, k := range sortedKeys(p.model) {
				want = append(want, p.model[k])
			}
			check(op, p.real.GetValues().AsArray(), want)
		case "clone":
			d := p.real.Clone()
			typ(op, d)
			check(op, d.AsMap(), p.model)
			alterNested(c, d)
			add(p.real.Clone(), deepCopy(p.model).(map[string]interface{}))
		case "cloneKeys", "omit":
			if len(p.model) == 0 {
				continue
			}
			all := sortedKeys(p.model)
			sel := map[string]bool{}
			args := []interface{}{}
			for i := 0; i <= r.Intn(3); i++ {
				k := all[r.Intn(len(all))]
				sel[k] = true
				args = append(args, k)
			}
			m := map[string]interface{}{}
			for k, v := range p.model {
				if sel[k] == (op == "cloneKeys") {
					m[k] = deepCopy(v)
				}
			}
			get := func() collections.IDictionary {
				if op == "cloneKeys" {
					return p.real.Clone(args...)
				}
				return p.real.Omit(args[0], args[1:]...)
			}
			d := get()
			typ(op, d)
			check(fmt.Sprint(op, args), d.AsMap(), m)
			alterNested(c, d)
			add(get(), m)
		case "merge", "mergeMany":
			n := 1
			if op == "mergeMany" {
				n = 2 + r.Intn(2)
			}
			// The target is a private copy; the sources are elements of the pool that must not change
			target, model := p.real.Clone(), deepCopy(p.model).(map[string]interface{})
			var sources []collections.IDictionary
			for i := 0; i < n; i++ {
				q := pool[r.Intn(len(pool))]
				sources = append(sources, q.real)
				model = modelMerge(model, q.model)
			}
			res := target.Merge(sources[0], sources[1:]...)
			typ(op, res)
			check(op, res.AsMap(), model)
			check(op+" (target)", target.AsMap(), model)
			add(res.Clone(), deepCopy(model).(map[string]interface{}))
		case "set":
			k, v := anyKey(), smallScalar(r)
			res := p.real.Set(k, v)
			p.model[fmt.Sprint(k)] = v
			check(op, res.AsMap(), p.model)
		case "add":
			d, m := p.real.Clone(), deepCopy(p.model).(map[string]interface{})
			for i := 0; i < 3; i++ {
				k, v := anyKey(), smallScalar(r)
				if v == nil || m[fmt.Sprint(k)] == nil && func() bool { _, ok := m[fmt.Sprint(k)]; return ok }() {
					continue
				}
				ks := fmt.Sprint(k)
				if cur, ok := m[ks]; !ok {
					m[ks] = v
				} else if l, isList := cur.([]interface{}); isList {
					m[ks] = cat(l, []interface{}{v})
				} else {
					m[ks] = []interface{}{cur, v}
				}
				d = d.Add(k, v)
			}
			check(op, d.AsMap(), m)
		case "delete":
			if len(p.model) == 0 {
				continue
			}
			k := pick(r, sortedKeys(p.model)...)
			res, err := p.real.Delete(k)
			if err != nil {
				c.Fail("dict-delete", "Delete existing key %s: %v", k, err)
				continue
			}
			delete(p.model, k)
			check(op, res.AsMap(), p.model)
		case "deleteMissing":
			if _, err := p.real.Delete("missing"); err == nil {
				c.Fail("dict-delete", "Delete of a missing key succeeds")
			}
		case "flush":
			d := p.real.Clone()
			m := deepCopy(p.model).(map[string]interface{})
			for _, k := range keys {
				delete(m, fmt.Sprint(k))
			}
			check(fmt.Sprint(op, keys), d.Flush(keys...).AsMap(), m)
			check("flush all", d.Flush().AsMap(), map[string]interface{}{})
		case "pop":
			d := p.real.Clone()
			m := deepCopy(p.model).(map[string]interface{})
			check("pop", d.Pop(keys...), modelDictGet(m, keys))
			for _, k := range keys {
				delete(m, fmt.Sprint(k))
			}
			check("popped", d.AsMap(), m)
		case "transpose":
			m := map[string]interface{}{}
			put := func(v interface{}, k string) {
				ks := fmt.Sprint(v)
				if cur, ok := m[ks]; !ok {
					m[ks] = k
				} else if l, isList := cur.([]interface{}); isList {
					m[ks] = cat(l, []interface{}{k})
				} else {
					m[ks] = []interface{}{cur, k}
				}
			}
			skip := false
			for _, k := range sortedKeys(p.model) {
				switch v := p.model[k].(type) {
				case nil, map[string]interface{}:
					skip = true
				case []interface{}:
					for _, e := range v {
						switch e.(type) {
						case []interface{}, map[string]interface{}, nil:
							skip = true
						}
						put(e, k)
					}
				default:
					put(v, k)
				}
			}
			if !skip {
				c.Event("transposed")
				check(op, p.real.Transpose().AsMap(), m)
			}
		case "types":
			t, k := p.real.GetTypes(), p.real.GetKinds()
			for key, v := range p.model {
				want := "nil"
				kind := want
				switch v.(type) {
				case nil:
				case map[string]interface{}:
					want, kind = f.name+"Dict", "map"
				case []interface{}:
					want, kind = f.name+"List", "slice"
				default:
					want = fmt.Sprintf("%T", v)
					kind = want
				}
				if fmt.Sprint(t.Get(key)) != want || fmt.Sprint(k.Get(key)) != kind {
					c.Fail("dict-types", "%s: type %v kind %v, want %s %s", canon(v), t.Get(key), k.Get(key), want, kind)
				}
			}
		case "native":
			nat := p.real.Native()
			check(op, nat, p.model)
			if !isNative(nat) {
				c.Fail("dict-native", "Native returned %T with non native content", nat)
			}
		case "create":
			typ(op, p.real.Create(3))
			if p.real.CreateList(1, 2).TypeName().Str() != f.name {
				c.Fail("dict-type", "CreateList of a %s dictionary", f.name)
			}
		case "count":
			if p.real.Len() != len(p.model) || p.real.Count() != len(p.model) {
				c.Fail("dict-len", "Len %d Count %d want %d", p.real.Len(), p.real.Count(), len(p.model))
			}
		}
		for i, q := range pool {
			if canon(q.real.AsMap()) != canon(q.model) {
				c.Fail("dict-alias", "after %s on dictionary %d, dictionary %d is not what is expected\n got  %s\n want %s\nhistory: %s", desc, pi, i, canon(q.real.AsMap()), canon(q.model), strings.Join(log, "; "))
				break
			}
		}
	}
	c.Event("dict steps", len(log))
	c.Obs(f.name+" "+strings.Join(log, ";"), len(log) > 3)
}

func alterNested(c *Ctx, d collections.IDictionary) {
	keys := sortedKeys(d.AsMap())
	sort.Strings(keys)
	for _, k := range keys {
		switch v := d.AsMap()[k].(type) {
		case collections.IDictionary:
			v.Set("altered", 1)
			c.Event("nested clone altered")
		case collections.IGenericList:
			if v.Len() > 0 {
				v.Set(0, "altered")
				c.Event("nested clone altered")
			}
		}
	}
}

func isNative(v interface{}) bool {
	switch v := v.(type) {
	case map[string]interface{}:
		for _, x := range v {
			if !isNative(x) {
				return false
			}
		}
		return true
	case []interface{}:
		for _, x := range v {
			if !isNative(x) {
				return false
			}
		}
		return true
	case nil, string, int, bool, float64:
		return true
	}
	return false
}

func init() {
	register(&Property{
		ID:   "P15",
		Rule: "one evaluation is one history of 12 to 32 list operations over a pool of lists of one flavour (base, json, yaml, hcl, xml); distinct by the sequence of operations and operands",
		Suites: []Suite{
			{Name: "list-history", Quick: 20000, Thorough: 400000, Run: listHistory, Need: []string{"op:append", "op:union", "op:setBig", "nested clone altered"}},
		},
	})
	register(&Property{
		ID:   "P16",
		Rule: "one evaluation is one history of 12 to 32 dictionary operations over a pool of dictionaries of one flavour (base, json, yaml, hcl, xml); distinct by the sequence of operations and operands",
		Suites: []Suite{
			{Name: "dict-history", Quick: 20000, Thorough: 400000, Run: dictHistory, Need: []string{"op:mergeMany", "op:pop", "transposed", "nested clone altered"}},
		},
	})
}

func hasEmptyDict(l []interface{}) bool {
	for _, v := range l {
		if d, isDict := v.(map[string]interface{}); isDict && len(d) == 0 {
			return true
		}
	}
	return false
}

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
)

// ---- P28: Go values given by the programs that use the library ---------------------------------

// namedString, namedInt, namedList and namedMap are types of the application.
type (
	namedString string
	namedInt    int16
	namedList   []namedString
	namedMap    map[namedString]namedInt
	namedAny    map[string]interface{}
)

var (
	anyType     = reflect.TypeOf((*interface{})(nil)).Elem()
	scalarTypes = []reflect.Type{
		reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0.0), reflect.TypeOf(namedString("")), reflect.TypeOf(namedInt(0)),
	}
	keyTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(true), reflect.TypeOf(namedString("")), reflect.TypeOf(uint8(0))}
)

// tagSpec is the meaning of the tag of a field.
type tagSpec struct {
	name                   string
	omitempty, inline, key bool
}

// nativeGen generates types and values of these types with what they mean.
type nativeGen struct {
	r       *rand.Rand
	structs bool
	ptrs    bool
	n       int
	tags    map[reflect.Type][]tagSpec
	seen    map[string]bool
}

func (g *nativeGen) typ(depth int) reflect.Type {
	r := g.r
	if depth <= 0 {
		return pick(r, scalarTypes...)
	}
	switch k := r.Intn(12); {
	case k < 2:
		return reflect.SliceOf(g.typ(depth - 1))
	case k < 3:
		return reflect.ArrayOf(r.Intn(4), g.typ(depth-1))
	case k < 5:
		return reflect.MapOf(pick(r, keyTypes...), g.typ(depth-1))
	case k < 6:
		return anyType
	case k < 7 && g.ptrs:
		// A pointer to a pointer is not a data
		if t := g.typ(depth - 1); t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
			return reflect.PointerTo(t)
		}
		return pick(r, scalarTypes...)
	case k < 10 && g.structs:
		return g.structType(depth)
	case k < 11:
		return pick(r, reflect.TypeOf(namedList{}), reflect.TypeOf(namedMap{}), reflect.TypeOf(namedAny{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{}))
	}
	return pick(r, scalarTypes...)
}

// structType creates a structure with tags.
func (g *nativeGen) structType(depth int) reflect.Type {
	r := g.r
	var fields []reflect.StructField
	var specs []tagSpec
	hasKey := false
	for n := r.Intn(5); n > 0; n-- {
		g.n++
		f := reflect.StructField{Name: fmt.Sprintf("%s%d", pick(r, "F", "Name", "É", "Value_"), g.n), Type: g.typ(depth - 1)}
		spec := tagSpec{name: f.Name}
		if r.Intn(3) > 0 {
			var options []string
			name := pick(r, "", fmt.Sprintf("t%d", g.n), fmt.Sprintf("a-b.%d", g.n), fmt.Sprintf("x_%d", g.n))
			if r.Intn(10) == 0 {
				name = "-"
			}
			if r.Intn(3) == 0 {
				options, spec.omitempty = append(options, "omitempty"), true
			}
			t := f.Type
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			switch {
			case (t.Kind() == reflect.Struct || t.Kind() == reflect.Map) && name != "-" && r.Intn(2) == 0 && (f.Type.Kind() != reflect.Ptr || spec.omitempty):
				options, spec.inline = append(options, pick(r, "inline", "squash")), true
				if sub := g.tags[t]; len(sub) > 0 && len(specs) > 0 && t.Kind() == reflect.Struct && r.Intn(2) == 0 {
					// A previous field has the name of an inlined one
					last := len(specs) - 1
					if s := sub[r.Intn(len(sub))]; s.name != "-" && !s.inline && !s.key && !specs[last].inline && !specs[last].key && specs[last].name != "-" {
						specs[last].name = s.name
						specs[last].omitempty = false
						fields[last].Tag = reflect.StructTag(fmt.Sprintf("hcl:%q", s.name))
					}
				}
			case !hasKey && name != "-" && (t.Kind() == reflect.String || t.Kind() == reflect.Int) && f.Type.Kind() != reflect.Ptr && r.Intn(3) == 0:
				options, spec.key, spec.omitempty = []string{"key"}, true, false
				hasKey = true
			}
			if name != "" {
				spec.name = name
			}
			r.Shuffle(len(options), func(i, j int) { options[i], options[j] = options[j], options[i] })
			value := strings.Join(append([]string{name}, options...), ",")
			categories := []string{"hcl", "json", "yaml", "xml", "toml"}
			i := r.Intn(len(categories))
			tag := fmt.Sprintf("%s:%q", categories[i], value)
			// The following categories are ignored if one has been found
			if value != "" && i < 4 && r.Intn(3) == 0 {
				tag = pick(r, tag+" "+categories[i+1]+`:"other,omitempty"`, categories[i+1]+`:"-" `+tag)
			}
			if value != "" && r.Intn(4) == 0 {
				tag = `validate:"required,key" ` + tag
			}
			f.Tag = reflect.StructTag(tag)
		}
		fields, specs = append(fields, f), append(specs, spec)
	}
	if r.Intn(4) == 0 {
		g.n++
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("hidden%d", g.n), PkgPath: "main", Type: reflect.TypeOf("")})
		specs = append(specs, tagSpec{name: "-"})
	}
	t := reflect.StructOf(fields)
	g.tags[t] = specs
	return t
}

// value returns a value of the type, and the plain data that represents it.
func (g *nativeGen) value(t reflect.Type, depth int) (v reflect.Value, want interface{}) {
	r := g.r
	v = reflect.New(t).Elem()
	zero := r.Intn(6) == 0
	switch t.Kind() {
	case reflect.String:
		if s := pick(r, "", "text", "a b", "é♥", `q"\`, "7", "true", "x\ny", "${v}"); !zero {
			v.SetString(s)
		}
		want = v.String()
	case reflect.Bool:
		v.SetBool(!zero && r.Intn(2) == 0)
		want = v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !zero {
			v.SetInt(int64(r.Intn(250) - 125))
		}
		want = int(v.Int())
		if t.Kind() == reflect.Int64 {
			want = v.Int()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !zero {
			v.SetUint(uint64(r.Intn(250)))
		}
		want = uint(v.Uint())
		if t.Kind() == reflect.Uint64 {
			want = v.Uint()
		}
	case reflect.Float32, reflect.Float64:
		if !zero {
			v.SetFloat(float64(r.Intn(2000)-1000) / 8)
		}
		want = v.Float()
	case reflect.Interface:
		if !zero {
			e, w := g.value(g.typ(depth-1), depth-1)
			v.Set(e)
			want = w
		}
	case reflect.Ptr:
		if !zero {
			e, w := g.value(t.Elem(), depth)
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(e)
			want = w
		}
	case reflect.Slice, reflect.Array:
		n := t.Kind() == reflect.Array
		list := []interface{}{}
		count := r.Intn(4)
		if n {
			count = t.Len()
		} else if zero {
			count = 0
		} else {
			v.Set(reflect.MakeSlice(t, count, count+r.Intn(2)))
		}
		for i := 0; i < count; i++ {
			e, w := g.value(t.Elem(), depth-1)
			v.Index(i).Set(e)
			list = append(list, w)
		}
		want = list
	case reflect.Map:
		m := map[string]interface{}{}
		if !zero {
			v.Set(reflect.MakeMap(t))
			for i := r.Intn(4); i > 0; i-- {
				g.n++
				k := reflect.New(t.Key()).Elem()
				switch t.Key().Kind() {
				case reflect.String:
					k.SetString(fmt.Sprintf("%s%d", pick(r, "k", "a b", "é", "x."), g.n))
				case reflect.Int:
					k.SetInt(int64(g.n - 20))
				case reflect.Uint8:
					k.SetUint(uint64(g.n % 200))
				case reflect.Bool:
					k.SetBool(r.Intn(2) == 0)
				}
				e, w := g.value(t.Elem(), depth-1)
				v.SetMapIndex(k, e)
				m[fmt.Sprint(k.Interface())] = w
			}
		}
		want = m
	case reflect.Struct:
		m := map[string]interface{}{}
		result := m
		for i, spec := range g.tags[t] {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			e, w := g.value(f.Type, depth-1)
			v.Field(i).Set(e)
			empty := false
			switch {
			case f.Type.Kind() == reflect.Ptr || f.Type.Kind() == reflect.Interface:
				empty = e.IsNil()
				if wm, isMap := w.(map[string]interface{}); isMap {
					empty = empty || len(wm) == 0
				}
			case w == nil:
				empty = true
			default:
				switch wv := w.(type) {
				case string:
					empty = wv == ""
				case bool:
					empty = !wv
				case map[string]interface{}:
					empty = len(wv) == 0
				case []interface{}:
					empty = len(wv) == 0
				default:
					empty = e.IsZero()
				}
			}
			switch {
			case spec.key:
				g.seen["key"] = true
				result = map[string]interface{}{fmt.Sprint(e.Interface()): m}
			case spec.name == "-":
				g.seen["ignored"] = true
			case spec.omitempty && empty:
				g.seen["omitted"] = true
			case spec.inline:
				g.seen["inline"] = true
				for k, e := range w.(map[string]interface{}) {
					if _, exist := m[k]; exist {
						g.seen["inlined field replaces another"] = true
					}
					m[k] = e
				}
			default:
				m[spec.name] = w
			}
		}
		g.seen["structures"] = true
		want = result
	}
	return
}

func newNativeGen(r *rand.Rand) *nativeGen {
	return &nativeGen{r: r, structs: true, ptrs: true, tags: map[reflect.Type][]tagSpec{}, seen: map[string]bool{}}
}

func (g *nativeGen) container(depth int) reflect.Type {
	for {
		if t := g.typ(depth); t.Kind() == reflect.Struct || t.Kind() == reflect.Map || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
			return t
		}
	}
}

func (g *nativeGen) report(c *Ctx) {
	var names []string
	for name := range g.seen {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		c.Event(name, 1)
	}
}

// goSource shows a value with its type.
func goSource(v reflect.Value) string {
	return clip(fmt.Sprintf("%#v of type %v", v.Interface(), v.Type()), 1500)
}

// marshalGoSuite: the plain data that represents any Go value.
func marshalGoSuite(c *Ctx) {
	g := newNativeGen(c.Rng)
	t := g.container(1 + c.Rng.Intn(4))
	v, want := g.value(t, 4)
	arg := v.Interface()
	if c.Rng.Intn(4) == 0 {
		p := reflect.New(t)
		p.Elem().Set(v)
		arg = p.Interface()
	}
	before := fmt.Sprintf("%#v", v.Interface())
	var got interface{}
	var err error
	if p := noPanic(func() { got, err = collections.MarshalGo(arg) }); p != "" {
		c.Fail("marshal", "%s panics: %s", goSource(v), p)
		return
	}
	if err != nil || !reflect.DeepEqual(got, want) {
		c.Fail("marshal", "%s gives\n%#v (%v), expected\n%#v", goSource(v), got, err, want)
		return
	}
	if !g.ptrs || !strings.Contains(before, "0x") {
		if after := fmt.Sprintf("%#v", v.Interface()); after != before {
			c.Fail("modified", "the conversion changes its argument from\n%s to\n%s", before, after)
			return
		}
	}
	// The representations of the value are those of its data
	type form struct {
		name  string
		value func(interface{}) string
	}
	bytesOf := func(b []byte, err error) string { return fmt.Sprintf("%s (%v)", b, err) }
	for _, f := range []form{
		{"hcl", func(x interface{}) string { return bytesOf(hcl.Marshal(x)) }},
		{"indented hcl", func(x interface{}) string { return bytesOf(hcl.MarshalIndent(x, "", "  ")) }},
		{"tfvars", func(x interface{}) string { return bytesOf(hcl.MarshalTFVars(x)) }},
		{"bash", func(x interface{}) string { return collections.ToBash(x) }},
	} {
		var a, b string
		p := noPanic(func() { a = f.value(arg) })
		q := noPanic(func() { b = f.value(want) })
		if (p != "") != (q != "") || a != b {
			c.Fail("representation", "the %s representation of %s is\n%s %s, the one of its data is\n%s %s", f.name, goSource(v), a, p, b, q)
			return
		}
	}
	g.report(c)
	c.Event("values", 1)
	c.Obs(before, true)
}

// noPanic calls f and returns the text of its panic.
func noPanic(f func()) (text string) {
	defer func() {
		if x := recover(); x != nil {
			text = fmt.Sprint(x)
		}
	}()
	f()
	return
}

// convertNativeSuite: the conversion of Go containers to the collections of each package.
func convertNativeSuite(c *Ctx) {
	r := c.Rng
	g := newNativeGen(r)
	t := g.typ(1 + r.Intn(3))
	v, want := g.value(t, 4)
	helper := pick(r, collections.GetDictionaryHelper(), json.DictionaryHelper, hcl.DictionaryHelper, yaml.DictionaryHelper, xml.DictionaryHelper)
	dictType := reflect.TypeOf(helper.CreateDictionary())
	listType := reflect.TypeOf(helper.CreateDictionary().CreateList())
	var got interface{}
	var converted bool
	arg := v.Interface()
	before := fmt.Sprintf("%#v", arg)
	if p := noPanic(func() { got, converted = helper.TryConvert(arg) }); p != "" {
		c.Fail("convert", "the conversion of %s panics: %s", goSource(v), p)
		return
	}
	inner := v
	for inner.Kind() == reflect.Interface || inner.Kind() == reflect.Ptr {
		inner = inner.Elem()
	}
	isContainer := inner.Kind() == reflect.Map || inner.Kind() == reflect.Slice || inner.Kind() == reflect.Array
	if converted != isContainer {
		c.Fail("convert", "%s converted: %v (%#v)", goSource(v), converted, got)
		return
	}
	if !converted {
		if !reflect.DeepEqual(got, arg) {
			c.Fail("convert", "%s is not a container, but is changed to %#v", goSource(v), got)
		}
		c.Event("not containers", 1)
		c.Obs(before, true)
		return
	}
	if data, err := collections.MarshalGo(got); err != nil || !reflect.DeepEqual(data, want) {
		c.Fail("convert", "%s is converted to\n%#v (%v), expected\n%#v", goSource(v), data, err, want)
		return
	}
	// All the containers are converted
	var check func(path string, v reflect.Value) bool
	check = func(path string, v reflect.Value) bool {
		for v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Map:
			if v.Type() != dictType {
				c.Fail("nested", "%s: %s of the conversion is a %v, expected %v", before, path, v.Type(), dictType)
				return false
			}
			for _, k := range v.MapKeys() {
				if !check(path+"."+k.String(), v.MapIndex(k)) {
					return false
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Type() != listType {
				c.Fail("nested", "%s: %s of the conversion is a %v, expected %v", before, path, v.Type(), listType)
				return false
			}
			for i := 0; i < v.Len(); i++ {
				if !check(fmt.Sprintf("%s[%d]", path, i), v.Index(i)) {
					return false
				}
			}
		}
		return true
	}
	if !check("", reflect.ValueOf(got)) {
		return
	}
	dict, errDict := collections.TryAsDictionary(arg)
	list, errList := collections.TryAsList(arg)
	if isMap := inner.Kind() == reflect.Map; isMap != (errDict == nil) || isMap == (errList == nil) {
		c.Fail("as", "%s as dictionary: %v, as list: %v", goSource(v), errDict, errList)
		return
	}
	if errDict == nil && dict.Len() != inner.Len() || errList == nil && list.Len() != inner.Len() {
		c.Fail("length", "%s does not have %d elements once converted", goSource(v), inner.Len())
		return
	}
	c.Event("containers", 1)
	c.Event("type "+strings.Split(dictType.String(), ".")[0], 1)
	c.Obs(before, inner.Len() > 0)
}

// nativeContextSuite: a template gives the same result with native Go containers and with the plain data.
func nativeContextSuite(c *Ctx) {
	r := c.Rng
	g := newNativeGen(r)
	g.structs, g.ptrs = false, false
	native, plain := map[string]interface{}{}, map[string]interface{}{}
	var lines []string
	add := func(format string, args ...interface{}) { lines = append(lines, fmt.Sprintf(format, args...)) }
	for i := 1 + r.Intn(4); i > 0; i-- {
		t := g.container(1 + r.Intn(3))
		v, want := g.value(t, 4)
		name := fmt.Sprintf("v%d", i)
		native[name], plain[name] = v.Interface(), want
		expr := "." + name
		for n := 1 + r.Intn(3); n > 0; n-- {
			add("%s", strings.ReplaceAll(pick(r, nativeExprs...), "%s", expr))
			switch w := want.(type) {
			case []interface{}:
				add("%s", strings.ReplaceAll(pick(r, nativeListExprs...), "%s", expr))
				if len(w) > 0 {
					add("{{ index %s %d }}/{{ get %s %d }}/@%s[%d];", expr, len(w)-1, expr, len(w)-1, expr, len(w)-1)
				}
			case map[string]interface{}:
				add("%s", strings.ReplaceAll(pick(r, nativeMapExprs...), "%s", expr))
				var keys []string
				for k := range w {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				if len(keys) > 0 {
					add("{{ get %s %q }}/{{ hasKey %s %q }}/{{ pick %s %q }}", expr, keys[0], expr, keys[0], expr, keys[0])
				}
			}
		}
	}
	text := strings.Join(lines, "\n")
	render := func(ctx interface{}) string {
		t, err := template.NewTemplate("", ctx, "", template.DefaultOptions())
		if err != nil {
			return err.Error()
		}
		result, err := t.ProcessContent(text, "doc")
		return fmt.Sprintf("%s\n(%v)", result, err)
	}
	before := fmt.Sprintf("%#v", native)
	a, b := render(native), render(plain)
	if a != b {
		c.Fail("context", "document\n%s\nwith the native context\n%s\nrenders\n%s\nwith the plain context\n%s\nrenders\n%s", text, before, a, js(plain), b)
		return
	}
	if after := fmt.Sprintf("%#v", native); after != before {
		c.Fail("modified", "document\n%s\nchanges the context from\n%s to\n%s", text, before, after)
		return
	}
	c.Event("documents", 1)
	if !strings.HasSuffix(a, "(<nil>)") {
		c.Event("documents in error", 1)
	}
	c.Event("lines", len(lines))
	c.Obs(text+before, strings.HasSuffix(a, "(<nil>)"))
}

var (
	nativeExprs = []string{"{{ len %s }}", "{{ toJson %s }}", "{{ toYaml %s }}", "{{ toHcl %s }}", "{{ toPrettyJson %s }}", "{{ %s | toTFVars }}", "{{ isEmpty %s }}", "{{ default `d` %s }}", "{{ if %s }}yes{{ end }}",
		"{{ range $k, $v := %s }}{{ $k }}={{ toJson $v }};{{ end }}", "{{ toBash %s }}", "{{ isSet %s `x` }}", "{{ with %s }}{{ len . }}{{ end }}", "@len(%s);", "{{ $x := %s }}{{ toJson $x }}"}
	nativeListExprs = []string{"{{ first %s }}", "{{ last %s }}", "{{ range %s }}<{{ toJson . }}>{{ end }}", "{{ reverse %s | toJson }}", "{{ append %s 1 | toJson }}", "{{ prepend %s 1 | toJson }}", "{{ slice %s 0 | toJson }}", "{{ rest %s | toJson }}", "{{ initial %s | toJson }}",
		"{{ join `,` %s }}", "{{ joinLines %s }}", "{{ list 0 %s | toJson }}", "{{ removeEmpty %s | toJson }}", "{{ has 7 %s }}", "{{ contains %s 7 }}", "{{ concat %s (list 1) | toJson }}", "{{ extract %s 0 }}", "{{ toStrings %s | toJson }}"}
	nativeMapExprs = []string{"{{ keys %s | toJson }}", "{{ values %s | toJson }}", "{{ merge (dict `a` 1) %s | toJson }}", "{{ clone %s | toJson }}", "{{ range $k, $v := %s }}{{ $k }};{{ end }}", "{{ dict `x` %s | toJson }}", "{{ hasKey %s `nokey` }}", "{{ omit %s `nokey` | toJson }}", "{{ set (clone %s) `new` 1 | toJson }}"}
)

func init() {
	register(&Property{
		ID:   "P28",
		Rule: "one evaluation is one generated Go value (or one document and its context); distinct by type and value (or text and context)",
		Suites: []Suite{
			{Name: "marshal", Quick: 20000, Thorough: 1500000, Run: marshalGoSuite, Need: []string{"structures", "key", "inline", "ignored", "omitted", "inlined field replaces another"}},
			{Name: "convert", Quick: 20000, Thorough: 1500000, Run: convertNativeSuite, Need: []string{"containers", "not containers"}},
			{Name: "context", Quick: 3000, Thorough: 200000, Run: nativeContextSuite, Need: []string{"documents"}},
		},
	})
}

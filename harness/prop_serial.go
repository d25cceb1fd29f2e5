package main

// P13: values written in JSON, YAML, HCL, TFVars or bash are read back equal by an independent parser and by the template functions.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os/exec"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/hashicorp/hcl"
	"gopkg.in/yaml.v3"
)

var hostileStrings = []string{"", " ", "a\nb", "a\n", "\n", "\n\n", "a\n\nb\n", "  indented\n    more\n", "\ttab", "tab\t", "true", "false", "null", "~", "yes", "no", "on", "12", "012", "0x1F", "1.5", "1e3", ".5", "-1", "+1", "1_000", "12:30:45",
	"2001-01-01", "a: b", "a:b", ": ", "- a", "-", "?", "? x", "#", "# c", "a # c", "a#b", "'", `"`, `"q"`, `'q'`, `\`, `\n`, `a\nb\n` + "\n", `\\`, `C:\new\table` + "\n", "{", "}", "{}", "[", "]", "[]", "[1, 2]", `{"a": 1}`, ",", "a, b", "&a", "*a", "!x", "!!str", "|", "|-", ">", "%", "%d", "@", "@x", "`", "=", "==", "a=b", "a = b",
	"<<", "<<EOF", "HCLVALUE", "é", "日本語", "\u00a0", "\u2028", "\u0085", "\x01", "\x7f", "\r", "a\r\nb", "\u200b", "\ufeff", "😀", "...", "---", "--- a", "$x", "$HOME", "${x}", "%{x}", "//", "// c", "/* c */", "</script>", "<a&b>", "key", "a b", "a  b", " a", "a ", strings.Repeat("long text ", 12), strings.Repeat("x", 100), ".inf", ".nan", "0o7", "0b1", "1,000", "=", "y", "n", "Null", "TRUE", "\\u0041"}

func hostileString(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return safeWord(r)
	case 1:
		return randString(r, "ab c1.:-#'\"\\{}[],&*!|>%@`=$<é\n\t/~", 0, 8)
	}
	return pick(r, hostileStrings...)
}

func serialScalar(nulls bool) func(r *rand.Rand) interface{} {
	return func(r *rand.Rand) interface{} {
		switch r.Intn(8) {
		case 0:
			return pick(r, 0, 1, -1, r.Intn(2000)-1000, 1<<31, -1<<31, 1<<40, 1<<53-1, -(1<<53 - 1), r.Int()>>11)
		case 1:
			return pick(r, 0.5, -2.25, 1e-7, 1.5e10, 3.14159, float64(r.Intn(100000))/8+0.0625, 1e21+0.0, -1e-300, 123456789.125)
		case 2:
			return r.Intn(2) == 0
		case 3:
			if nulls {
				return nil
			}
		}
		return hostileString(r)
	}
}

func serialKey(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		if s := hostileString(r); s != "" {
			return s
		}
	}
	return ident(r)
}

func serialValue(r *rand.Rand, nulls bool, depth int) interface{} {
	o := genOpts{keys: serialKey, scalars: serialScalar(nulls)}
	switch r.Intn(4) {
	case 0:
		return genList(r, depth, o)
	case 1:
		return genValue(r, depth, o)
	}
	return genMap(r, depth, o)
}

// same compares native values: numbers are compared by value.
func same(got, want interface{}) bool { return js(normal(got)) == js(normal(want)) }

// normal gives a representation that only depends on the value.
func normal(v interface{}) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case string:
		return "s:" + strconv.QuoteToASCII(v)
	case bool:
		return v
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		must0(err)
		return "n:" + strconv.FormatFloat(f, 'g', -1, 64)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "n:" + strconv.FormatFloat(float64(rv.Int()), 'g', -1, 64)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "n:" + strconv.FormatFloat(float64(rv.Uint()), 'g', -1, 64)
	case reflect.Float32, reflect.Float64:
		return "n:" + strconv.FormatFloat(rv.Float(), 'g', -1, 64)
	case reflect.Slice, reflect.Array:
		out := make([]interface{}, rv.Len())
		for i := range out {
			out[i] = normal(rv.Index(i).Interface())
		}
		return out
	case reflect.Map:
		out := map[string]interface{}{}
		for _, k := range rv.MapKeys() {
			out[strconv.QuoteToASCII(fmt.Sprint(k.Interface()))] = normal(rv.MapIndex(k).Interface())
		}
		return out
	case reflect.String:
		return "s:" + strconv.QuoteToASCII(rv.String())
	}
	if l, err := collections.TryAsList(v); err == nil {
		return normal(l.AsArray())
	}
	if d, err := collections.TryAsDictionary(v); err == nil {
		return normal(d.AsMap())
	}
	return fmt.Sprintf("?%T %v", v, v)
}

// native converts the answer of a template function.
func native(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	if l, err := collections.TryAsList(v); err == nil {
		return l.AsArray()
	}
	if d, err := collections.TryAsDictionary(v); err == nil {
		return d.AsMap()
	}
	return v
}

// serialize renders the functions on a value, with a marker between the results, and gives the values assigned to the variables.
func serialize(c *Ctx, v interface{}, funcs []string) (texts []string, ok bool) {
	r := c.Rng
	t := newTemplate(map[string]interface{}{"v": deepCopy(v)}, "", strictOptions())
	code := ""
	for _, f := range funcs {
		code += pick(r, "{{ "+f+" .v }}", "{{ .v | "+f+" }}", "@"+f+"(v);", "{{- $x := "+f+" .v }}{{ $x }}") + "\x02"
	}
	out, err := render(t, code)
	if err != nil {
		c.Fail("error", "%v\nfor %s\nin %s", err, js(v), code)
		return nil, false
	}
	texts = strings.Split(strings.TrimSuffix(out, "\x02"), "\x02")
	if len(texts) != len(funcs) {
		c.Fail("results", "%d results for %d functions of %s: %q", len(texts), len(funcs), js(v), out)
		return nil, false
	}
	return texts, true
}

// readBack calls a from function on a text.
func readBack(c *Ctx, fn, text string) (result interface{}, err error) {
	t := newTemplate(map[string]interface{}{"text": text}, "", strictOptions())
	if result, err = evaluate(t, fn+" .text"); err == nil {
		result = native(result)
	}
	return
}

func serialJSONSuite(c *Ctx) {
	r := c.Rng
	nulls := r.Intn(3) == 0
	v := serialValue(r, nulls, 3)
	if v == nil {
		v = []interface{}{nil}
	}
	texts, ok := serialize(c, v, []string{pick(r, "toJson", "toJSON"), pick(r, "toPrettyJson", "toPrettyJSON"), pick(r, "toQuotedJson", "toQuotedJSON")})
	if !ok {
		return
	}
	for i, text := range texts {
		if i == 2 {
			var err error
			if text, err = strconv.Unquote(`"` + text + `"`); err != nil || text != texts[0] {
				c.Fail("quoted", "%s is not the quotation of %s (%v)", texts[2], texts[0], err)
			}
		}
		var got interface{}
		dec := json.NewDecoder(strings.NewReader(text))
		dec.UseNumber()
		if err := dec.Decode(&got); err != nil || !same(got, v) {
			c.Fail("json", "%s\nis read as %s (%v)\nexpected %s", text, js(got), err, js(v))
			return
		}
		if i == 0 && strings.ContainsAny(text, "\n\t") {
			c.Fail("json", "toJson is not compact: %q", text)
		}
	}
	if !nulls {
		fn := pick(r, "fromJson", "json", "data", "fromJSON", "fromYaml")
		if fn == "data" && (strings.Contains(texts[0], "{{") || strings.Contains(texts[0], "@")) || fn == "fromYaml" && strings.ContainsAny(texts[0], "\x7f\u0085\u2028\ufeff") {
			fn = "fromJson" // data renders its text and YAML changes those characters
		}
		got, err := readBack(c, fn, texts[r.Intn(2)])
		if err != nil || !same(got, v) {
			c.Fail("read", "%s %s\ngives %s (%v)\nexpected %s", fn, texts[0], js(normal(got)), err, js(v))
		}
		c.Event("JSON read back")
	}
	c.Obs(js(v), true)
}

var leadingNewline = regexp.MustCompile(`"(\\n|\\t| ).*\\n|"\\n|"\\u003c\\u003c"`)

func serialYAMLSuite(c *Ctx) {
	r := c.Rng
	nulls := r.Intn(3) == 0
	v := serialValue(r, nulls, 3)
	for leadingNewline.MatchString(js(v)) { // the YAML library itself does not read back these texts, and << merges
		v = serialValue(r, nulls, 3)
	}
	if v == nil {
		v = []interface{}{nil}
	}
	texts, ok := serialize(c, v, []string{pick(r, "toYaml", "toYAML")})
	if !ok {
		return
	}
	var got interface{}
	if err := yaml.Unmarshal([]byte(texts[0]), &got); err != nil || !same(got, v) {
		c.Fail("yaml", "%s\nis read as %s (%v)\nexpected %s", texts[0], js(normal(got)), err, js(v))
		return
	}
	if r.Intn(4) == 0 {
		// the keys of YAML are not always texts
		text, m := "", map[string]interface{}{}
		for _, k := range []string{"1", "-3", "2.5", "true", "x", "'4'", "2147483648"} {
			if r.Intn(2) == 0 {
				n := r.Intn(10)
				text += fmt.Sprintf("%s: %d\n", k, n)
				m[strings.Trim(k, "'")] = n
			}
		}
		want := interface{}(m)
		switch r.Intn(3) {
		case 0:
			want, text = map[string]interface{}{"in": m, "7": 8}, "in:\n  "+strings.TrimSpace(strings.ReplaceAll(text, "\n", "\n  "))+"\n7: 8\n"
		case 1:
			want, text = []interface{}{m, 1}, "-\n  "+strings.TrimSpace(strings.ReplaceAll(text, "\n", "\n  "))+"\n- 1\n"
		}
		if len(m) > 0 {
			fn := pick(r, "fromYaml", "yaml", "fromYAML", "data")
			if got, err := readBack(c, fn, text); err != nil || !same(got, want) {
				c.Fail("read", "%s %s\ngives %s (%v)\nexpected %s", fn, text, js(normal(got)), err, js(want))
			}
			c.Event("YAML keys of any type")
		}
	}
	if !nulls {
		fn := pick(r, "fromYaml", "yaml", "fromYAML")
		got, err := readBack(c, fn, texts[0])
		if err != nil || !same(got, v) {
			c.Fail("read", "%s %s\ngives %s (%v)\nexpected %s", fn, texts[0], js(normal(got)), err, js(v))
		}
		c.Event("YAML read back")
	}
	c.Obs(js(v), true)
}

// hclNormal: a list of one dictionary is not distinct from the dictionary in HCL.
func hclNormal(v interface{}) interface{} {
	switch v := v.(type) {
	case []map[string]interface{}:
		l := make([]interface{}, len(v))
		for i := range v {
			l[i] = v[i]
		}
		return hclNormal(l)
	case []interface{}:
		if len(v) == 1 {
			if m := hclNormal(v[0]); m != nil && reflect.TypeOf(m).Kind() == reflect.Map {
				return m
			}
		}
		out := make([]interface{}, len(v))
		for i := range v {
			out[i] = hclNormal(v[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range v {
			out[k] = hclNormal(e)
		}
		return out
	}
	if l, err := collections.TryAsList(v); err == nil {
		return hclNormal(l.AsArray())
	}
	if d, err := collections.TryAsDictionary(v); err == nil {
		return hclNormal(d.AsMap())
	}
	return v
}

func serialHCLSuite(c *Ctx) {
	r := c.Rng
	str := func(r *rand.Rand) string {
		for {
			if s := hostileString(r); !strings.Contains(s, "${") {
				return s
			}
		}
	}
	scalars := serialScalar(false)
	o := genOpts{keys: func(r *rand.Rand) string {
		for {
			if k := serialKey(r); !strings.Contains(k, "${") {
				return k
			}
		}
	}, scalars: func(r *rand.Rand) interface{} {
		v := scalars(r)
		if _, isString := v.(string); isString {
			return str(r)
		}
		return v
	}}
	v := genMap(r, 3, o)
	for len(v) == 0 {
		v = genMap(r, 3, o)
	}
	funcs := []string{pick(r, "toHcl", "toHCL"), pick(r, "toPrettyHcl", "toPrettyHCL"), "toTFVars", "toPrettyTFVars", pick(r, "toQuotedHcl", "toQuotedHCL"), "toQuotedTFVars", pick(r, "toInternalHcl", "toIHCL")}
	texts, ok := serialize(c, v, funcs)
	if !ok {
		return
	}
	want := hclNormal(v)
	for i, text := range texts {
		switch i {
		case 4, 5:
			plain := texts[(i-4)*2]
			if unquoted, err := strconv.Unquote(`"` + text + `"`); err != nil || unquoted != plain {
				c.Fail("quoted", "%s is not the quotation of %s (%v)", text, plain, err)
			}
			continue
		case 6:
			text = "x=" + text
		}
		for _, by := range []string{"hcl", "fromHcl"} {
			var got interface{}
			var err error
			if by == "hcl" {
				var m map[string]interface{}
				err = hcl.Unmarshal([]byte(text+"\n"), &m)
				got = m
			} else {
				fn := pick(r, "fromHcl", "hcl", "fromTFVars", "data")
				if strings.Contains(text, "{{") || strings.Contains(text, "@") {
					fn = "fromHcl" // data renders its text
				}
				got, err = readBack(c, fn, text)
			}
			if i == 6 && err == nil {
				m, _ := hclNormal(got).(map[string]interface{})
				got = m["x"]
			}
			if err != nil || !same(hclNormal(got), want) {
				c.Fail("hcl", "%s of %s gives\n%s\nread by %s as %s (%v)", funcs[i], js(v), text, by, js(normal(hclNormal(got))), err)
				return
			}
			c.Event("HCL read back")
		}
	}
	c.Obs(js(v), true)
}

var bashName = regexp.MustCompile(`^[a-z][a-z0-9_]*$`)

// bashSuite: what toBash gives is executed by bash.
func bashSuite(c *Ctx) {
	r := c.Rng
	word := func(r *rand.Rand) string {
		switch r.Intn(3) {
		case 0:
			return safeWord(r)
		case 1:
			return randString(r, "ab 1.:-#'\"\\{}[](),&*!|;<>~%@`=^?+é\t\n/", 0, 8)
		}
		return pick(r, safeWord(r)+" "+safeWord(r), "a/b.c", "k:v", "50%", "(x)", "[y]", "two  spaces", "~x", "a:~", "~", "*", "?", "{a,b}", "a;echo x", "a&", "it's", "`ls`", `\`, `a\b`, `\n`, "", "!", "#x", "x|y", "<x>", "\n", "x\n", "a\nb", "[0]=x", "-n")
	}
	v := map[string]interface{}{}
	script := ""
	want := ""
	for i := 1 + r.Intn(5); i > 0; i-- {
		k := "v" + ident(r)
		if _, exist := v[k]; exist || !bashName.MatchString(k) {
			continue
		}
		switch r.Intn(3) {
		case 0:
			x := pick[interface{}](r, word(r), r.Intn(1000), 2.5, true, word(r))
			v[k] = x
			script += fmt.Sprintf("printf '%%s\\n' \"%s=$%s\"\n", k, k)
			want += fmt.Sprintf("%s=%v\n", k, x)
		case 1:
			l := []interface{}{}
			script += fmt.Sprintf("echo \"%s has ${#%s[@]}\"\nfor i in \"${%s[@]}\"; do printf '%%s\\n' \"$i\"; done\n", k, k, k)
			items := ""
			for j := r.Intn(5); j > 0; j-- {
				x := pick[interface{}](r, word(r), r.Intn(100), word(r))
				l = append(l, x)
				items += fmt.Sprintf("%v\n", x)
			}
			v[k] = l
			want += fmt.Sprintf("%s has %d\n%s", k, len(l), items)
		case 2:
			m := map[string]interface{}{}
			script += fmt.Sprintf("echo \"%s has ${#%s[@]}\"\n", k, k)
			items := ""
			for j := r.Intn(4); j > 0; j-- {
				m[ident(r)] = pick[interface{}](r, word(r), r.Intn(100), word(r), word(r)+"$x")
			}
			for _, kk := range sortedKeys(m) {
				script += fmt.Sprintf("printf '%%s\\n' \"%s -> ${%s[%s]}\"\n", kk, k, kk)
				items += fmt.Sprintf("%s -> %v\n", kk, m[kk])
			}
			v[k] = m
			want += fmt.Sprintf("%s has %d\n%s", k, len(m), items)
		}
	}
	texts, ok := serialize(c, v, []string{"toBash"})
	if !ok {
		return
	}
	cmd := exec.Command("/bin/bash", "--noprofile", "--norc")
	cmd.Stdin = strings.NewReader(texts[0] + "\n" + script)
	cmd.Dir, cmd.Env = c.Dir(), []string{"LANG=C.UTF-8"}
	out, err := cmd.CombinedOutput()
	if err != nil || string(out) != want {
		c.Fail("bash", "%s\nexecuted by bash gives %s (%v)\nexpected %s\nfor %s", texts[0], out, err, want, js(v))
	}
	c.Obs(js(v), len(v) > 0)
}

func init() {
	register(&Property{
		ID:   "P13",
		Rule: "one evaluation is one value converted by all the functions of a format and read back; distinct by value",
		Suites: []Suite{
			{Name: "json", Quick: 4000, Thorough: 150000, Run: serialJSONSuite, Need: []string{"JSON read back"}},
			{Name: "yaml", Quick: 4000, Thorough: 150000, Run: serialYAMLSuite, Need: []string{"YAML read back", "YAML keys of any type"}},
			{Name: "hcl", Quick: 3000, Thorough: 150000, Run: serialHCLSuite, Need: []string{"HCL read back"}},
			{Name: "bash", Quick: 500, Thorough: 10000, Run: bashSuite},
		},
	})
}

package main

// P12: the variables given to the engine, by the command line or by the API.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
)

func importScalar(r *rand.Rand) interface{} {
	switch r.Intn(5) {
	case 0:
		return r.Intn(2000) - 1000
	case 1:
		return float64(r.Intn(1000)) + 0.5
	case 2:
		return r.Intn(2) == 0
	}
	return pick(r, safeWord(r), safeWord(r)+" "+safeWord(r), "", "é à", "a\nb", `q"uote`, "12", "true", "a: b", "x = y", "#no", "- i", `back\slash`, "{a}", "[1]", "'single'", " pad ", "@x", "{{ y }}", "null", "1e3", "tab\tx", "a,b", "$HOME", "%d")
}

func importValue(r *rand.Rand, depth int) interface{} {
	return genValue(r, depth, genOpts{keys: ident, scalars: importScalar})
}

// yamlText writes block style YAML.
func yamlText(r *rand.Rand, v interface{}, indent string) string {
	switch v := v.(type) {
	case map[string]interface{}:
		if len(v) == 0 || r.Intn(4) == 0 && indent != "" {
			return " " + js(v) + "\n"
		}
		out := "\n"
		for _, k := range sortedKeys(v) {
			out += indent + pick(r, k, k, js(k)) + ":" + yamlText(r, v[k], indent+"  ")
		}
		return out
	case []interface{}:
		if len(v) == 0 || r.Intn(3) == 0 {
			return " " + js(v) + "\n"
		}
		out := "\n"
		for _, e := range v {
			out += indent + "- " + js(e) + "\n"
		}
		return out
	}
	return " " + js(v) + pick(r, "", "", " # comment") + "\n"
}

func hclValue(r *rand.Rand, v interface{}) string {
	switch v := v.(type) {
	case map[string]interface{}:
		var l []string
		for _, k := range sortedKeys(v) {
			l = append(l, pick(r, k, js(k))+" = "+hclValue(r, v[k]))
		}
		if r.Intn(2) == 0 {
			return "{\n" + strings.Join(l, "\n") + "\n}"
		}
		return "{" + strings.Join(l, ", ") + "}"
	case []interface{}:
		var l []string
		for _, e := range v {
			l = append(l, hclValue(r, e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	return rawJSON(v)
}

// rawJSON does not escape <, > and &.
func rawJSON(v interface{}) string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(false)
	must0(e.Encode(v))
	return strings.TrimSpace(sb.String())
}

// dataFile writes a map in one of the formats.
func dataText(r *rand.Rand, m map[string]interface{}, format string) string {
	switch format {
	case "yaml":
		return pick(r, "", "---\n", "# comment\n") + strings.TrimPrefix(yamlText(r, m, ""), "\n")
	case "hcl":
		out := ""
		for _, k := range sortedKeys(m) {
			out += k + pick(r, " = ", "=") + hclValue(r, m[k]) + "\n" + pick(r, "", "", "\n", "# comment\n", "// comment\n")
		}
		return out
	}
	if r.Intn(2) == 0 {
		return string(must1(json.MarshalIndent(m, "", "  "))) + "\n"
	}
	return js(m)
}

var extensionOf = map[string][]string{"yaml": {".yml", ".yaml", ".json", ""}, "hcl": {".hcl", ".tf", ".yml", ""}, "json": {".json", ".js", ".txt", ".yaml"}}

func importSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	names := []string{ident(r) + "1", ident(r) + "2", ident(r) + "3", ident(r) + "4"}
	want := map[string]interface{}{}
	var args []string
	var argList []interface{}
	stdin := ""
	class := ""
	n := 0
	file := func() (string, map[string]interface{}, string) {
		n++
		m := map[string]interface{}{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			m[pick(r, append(names, ident(r)+"_")...)] = importValue(r, 2)
		}
		format := pick(r, "json", "yaml", "hcl")
		if format == "hcl" && !hclSafe(m) {
			format = "json"
		}
		name := fmt.Sprintf("%sfile%d%s%s", pick(r, "", "sub/", "a b/", "c.d/"), n, pick(r, "", "", ".prod", ".v1.2", "_é"), pick(r, extensionOf[format]...))
		writeFile(filepath.Join(dir, name), dataText(r, m, format), 0644)
		c.Event("files imported")
		return name, m, format
	}
	merge := func(m map[string]interface{}) {
		for k, v := range m {
			want[k] = v
		}
	}
	loaded := func(format string) {
		if class == "" {
			class = format
		}
	}
	forced := ""
	if r.Intn(4) == 0 {
		forced = pick(r, "json", "yaml", "hcl")
		args = append(args, pick(r, "-t", "--type"), map[string][]string{"json": {"j", "J", "json", "JSON", "Json"}, "yaml": {"y", "Y", "yml", "yaml", "YAML", "Yaml", "Yml"}, "hcl": {"h", "H", "hcl", "HCL", "Hcl"}}[forced][r.Intn(5)])
		class = forced
		c.Event("forced type")
	}
	// The three kinds of import can be interleaved: the order is always if-exist, import, var
	type arg struct{ flag, value string }
	var exist, imports, vars []arg
	for i := r.Intn(3); i > 0; i-- {
		if r.Intn(3) == 0 {
			exist = append(exist, arg{"--import-if-exist", "missing.json"})
			continue
		}
		name, m, format := file()
		exist = append(exist, arg{"--import-if-exist", name})
		merge(m)
		loaded(format)
	}
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(8) {
		case 0:
			// A file that is not a dictionary
			n++
			l := genList(r, 1, genOpts{keys: ident, scalars: importScalar})
			// Only the last extension is removed
			name := fmt.Sprintf("list%d", n) + pick(r, "", "", ".prod", ".v1.2", "-a b", "_é", ".json")
			folder, ext := pick(r, "", "sub/", "a.b/"), pick(r, ".json", ".json", ".yml", ".txt")
			writeFile(filepath.Join(dir, folder+name+ext), js(l), 0644)
			imports = append(imports, arg{pick(r, "-i", "--import"), pick(r, "", "./", dir+"/") + folder + name + ext})
			merge(map[string]interface{}{name: l})
			loaded("json")
			c.Event("lists imported")
		case 1:
			if stdin == "" {
				m := map[string]interface{}{pick(r, names...): importValue(r, 2), "fromstdin": true}
				format := pick(r, "json", "yaml")
				stdin = dataText(r, m, format)
				if r.Intn(3) == 0 {
					// What is not a dictionary has a name of its own
					l := genList(r, 1, genOpts{keys: ident, scalars: importScalar})
					m, format, stdin = map[string]interface{}{"STDIN": l}, "json", js(l)
				}
				imports = append(imports, arg{"--import=-", ""})
				merge(m)
				loaded(format)
				c.Event("standard input imported")
			}
		default:
			name, m, format := file()
			if r.Intn(4) == 0 {
				name = filepath.Join(dir, name)
			}
			imports = append(imports, arg{pick(r, "-i", "--import"), name})
			merge(m)
			loaded(format)
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		k := pick(r, names...)
		v := ""
		switch r.Intn(12) {
		case 0:
			x := r.Intn(1000)
			v, want[k] = fmt.Sprintf("%s=%d", k, x), x
		case 1:
			x := float64(r.Intn(100)) + 0.25
			v, want[k] = fmt.Sprintf("%s=%v", k, x), x
		case 2:
			x := r.Intn(2) == 0
			v, want[k] = fmt.Sprintf("%s=%v", k, x), x
		case 3:
			x := pick(r, "some text", "word", "a/b/c.txt", "with, comma", "é", "http://host/path?x", "a-b_c",
				// Texts that are not assignments
				"http://host/?a=b&c="+safeWord(r), "dGV/+zdA==", "SELECT a FROM b WHERE c=1 AND d=2", "a b=c=d "+safeWord(r), "a b=c")
			v, want[k] = k+"="+x, x
		case 4:
			x := pick(r, "quoted", "12", "true", "a b", "")
			v, want[k] = k+`="`+x+`"`, x
		case 5:
			x := genList(r, 1, genOpts{keys: ident, scalars: func(r *rand.Rand) interface{} { return pick[interface{}](r, r.Intn(100), safeWord(r), true) }})
			v, want[k] = k+"="+js(x), x
		case 6:
			x := map[string]interface{}{ident(r): r.Intn(100), ident(r) + "_b": safeWord(r)}
			v, want[k] = k+"="+strings.ReplaceAll(hclValue(r, x), "\n", " "), x
			if strings.Count(v, " = ") > 1 && !strings.Contains(v, ",") {
				v = k + "=" + "{" + fmt.Sprint(hclPairs(x)) + "}"
			}
		case 7:
			m := map[string]interface{}{k: importValue(r, 2), "more": importValue(r, 1)}
			v = js(m)
			merge(m)
		case 8:
			name, m, _ := file()
			v, want[k] = k+"="+name, m
			c.Event("variable from a file")
		case 9:
			name, m, _ := file()
			base := filepath.Base(name)
			v, want[strings.TrimSuffix(base, filepath.Ext(base))] = name, m
			c.Event("variable from a file")
		case 10:
			x := pick[interface{}](r, "free text", 42, true, "word", 2.5)
			v = fmt.Sprint(x)
			argList = append(argList, x)
			c.Event("unnamed values")
		case 11:
			v, want[k] = k+"=", ""
		}
		vars = append(vars, arg{pick(r, "-V", "--var"), v})
	}
	if len(argList) > 0 {
		want["ARGS"] = argList
	}
	if class == "" {
		class = "json"
	}
	// Interleave
	for len(exist)+len(imports)+len(vars) > 0 {
		switch l := r.Intn(3); {
		case l == 0 && len(exist) > 0:
			args, exist = append(args, exist[0].flag, exist[0].value), exist[1:]
		case l == 1 && len(imports) > 0:
			args, imports = append(args, imports[0].flag, imports[0].value), imports[1:]
			if args[len(args)-1] == "" {
				args = args[:len(args)-1]
			}
		case l == 2 && len(vars) > 0:
			args, vars = append(args, vars[0].flag, vars[0].value), vars[1:]
		}
	}
	code := "{{ typeOf . }} {{ typeOf (list 1) }} {{ typeOf (dict 1 2) }} {{ toJson (keys userContext) }}\n"
	keys := sortedKeys(want)
	for _, k := range keys {
		code += fmt.Sprintf("{{ toJson (get . %q) }}\n", k)
	}
	args = append([]string{"run", code, "--strict"}, args...)
	var env []string
	if stdin != "" {
		env = []string{"GOTEMPLATE_NO_STDIN=1"}
	}
	stdout, stderr, exit := runCLI(dir, stdin, env, args...)
	describe := func() string {
		return fmt.Sprintf("%q\nfiles: %s\nstdin: %q\nstdout: %s\nstderr: %s", args[3:], clip(js(readTree(dir)), 2000), stdin, clip(stdout, 1000), clip(stderr, 800))
	}
	c.Obs(js(args)+js(readTree(dir)), len(want) > 0)
	lines := strings.Split(strings.TrimSuffix(stdout, "\n"), "\n")
	if exit != 0 || len(lines) != len(keys)+1 {
		c.Fail("import fails", "exit code %d, %d lines for the keys %q\n%s", exit, len(lines), keys, describe())
		return
	}
	if got := strings.SplitN(lines[0], ".", 2)[0]; got != class {
		c.Fail("type of the context", "%s, expected %s\n%s", got, class, describe())
	}
	// The collections made by the functions have the same type, the user context is what was supplied
	words, made := strings.SplitN(lines[0], " ", 4), class
	if !strings.HasPrefix(words[1], made+".") || !strings.HasPrefix(words[2], made+".") {
		c.Fail("type of the collections", "%s and %s, expected %s\n%s", words[1], words[2], made, describe())
	}
	if words[3] != js(keys) {
		c.Fail("user context", "%s, expected %s\n%s", words[3], js(keys), describe())
	}
	for i, k := range keys {
		var got interface{}
		if err := json.Unmarshal([]byte(lines[i+1]), &got); err != nil {
			c.Fail("value", "%s gives %q\n%s", k, lines[i+1], describe())
			return
		}
		var expected interface{}
		must0(json.Unmarshal([]byte(js(want[k])), &expected))
		if js(got) != js(expected) {
			c.Fail("value", "%s is %s, expected %s\n%s", k, js(got), js(expected), describe())
			return
		}
		c.Event("values compared")
	}
}

func hclPairs(m map[string]interface{}) string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, k+" = "+rawJSON(m[k]))
	}
	return strings.Join(l, ", ")
}

// hclSafe: HCL has no escape for ${ and merges the list of dictionaries.
func hclSafe(v interface{}) bool {
	switch v := v.(type) {
	case map[string]interface{}:
		for _, e := range v {
			if !hclSafe(e) {
				return false
			}
		}
	case []interface{}:
		for _, e := range v {
			if _, isMap := e.(map[string]interface{}); isMap || !hclSafe(e) {
				return false
			}
		}
	}
	return true
}

// contextSuite: Add and Merge change the context of the engine, the documents see it and New does not alter the values received.
func contextSuite(c *Ctx) {
	r := c.Rng
	native := map[string]interface{}{"a": importValue(r, 2), "b": importValue(r, 2), "d": map[string]interface{}{"x": 1, "y": map[string]interface{}{"z": 2}}}
	model := deepCopy(native).(map[string]interface{})
	t := newTemplate(native, "", nil)
	var log []string
	keys := []string{"a", "b", "d", "e", "f"}
	for i := 1 + r.Intn(6); i > 0; i-- {
		k, v := pick(r, keys...), importValue(r, 2)
		switch r.Intn(3) {
		case 0:
			log = append(log, fmt.Sprintf("Add(%s, %s)", k, js(v)))
			t.Add(k, deepCopy(v))
			if old, exist := model[k]; !exist {
				model[k] = deepCopy(v)
			} else if l, isList := old.([]interface{}); isList {
				model[k] = append(append([]interface{}{}, l...), v)
			} else {
				model[k] = []interface{}{old, v}
			}
			c.Event("Add")
		case 1:
			m := map[string]interface{}{k: v, "d": map[string]interface{}{"x": 5, ident(r): v, "y": map[string]interface{}{"z": 3, "n": r.Intn(10)}}, pick(r, keys...): 12}
			log = append(log, "Merge("+js(m)+")")
			arg := deepCopy(m)
			t.Merge(arg)
			if js(arg) != js(m) {
				c.Fail("argument altered", "Merge changes its argument to %s\n%q", js(arg), log)
			}
			fillMissing(model, m)
			c.Event("Merge")
		case 2:
			log = append(log, fmt.Sprintf("Context().Set(%s, %s)", k, js(v)))
			t.Context().Set(k, deepCopy(v))
			model[k] = deepCopy(v)
		}
		code := ""
		for _, k := range sortedKeys(model) {
			code += "{{ toJson (get . \"" + k + "\") }}\n"
		}
		got, err := render(t, code)
		want := ""
		for _, k := range sortedKeys(model) {
			want += js(model[k]) + "\n"
		}
		if unescapeHTML(got) != unescapeHTML(want) || err != nil {
			c.Fail("context", "after %s\ngot  %s (%v)\nwant %s", strings.Join(log, "; "), got, err, want)
			return
		}
		if g, w := js(jsonAny(t.Context(), keys)), js(pickKeys(model, keys)); unescapeHTML(g) != unescapeHTML(w) {
			c.Fail("context", "Context() after %s\ngot  %s\nwant %s", strings.Join(log, "; "), g, w)
			return
		}
	}
	c.Obs(js(log)+js(native), true)
}

func unescapeHTML(s string) string {
	return strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(s)
}

func jsonAny(d collections.IDictionary, keys []string) map[string]interface{} {
	out := map[string]interface{}{}
	for _, k := range keys {
		if d.Has(k) {
			out[k] = d.Get(k)
		}
	}
	return out
}

func pickKeys(m map[string]interface{}, keys []string) map[string]interface{} {
	out := map[string]interface{}{}
	for _, k := range keys {
		if v, ok := m[k]; ok {
			out[k] = v
		}
	}
	return out
}

// fillMissing adds what is not already defined (in depth).
func fillMissing(target, source map[string]interface{}) {
	for k, v := range source {
		old, exist := target[k]
		if !exist {
			target[k] = deepCopy(v)
			continue
		}
		t, ok1 := old.(map[string]interface{})
		s, ok2 := v.(map[string]interface{})
		if ok1 && ok2 {
			fillMissing(t, s)
		}
	}
}

func init() {
	register(&Property{
		ID:   "P12",
		Rule: "one evaluation is one command line with its files, or one sequence of changes to the context; distinct by arguments and contents",
		Suites: []Suite{
			{Name: "import", Quick: 1200, Thorough: 30000, Run: importSuite, Need: []string{"files imported", "lists imported", "standard input imported", "unnamed values", "variable from a file", "forced type", "values compared"}},
			{Name: "context", Quick: 3000, Thorough: 100000, Run: contextSuite, Need: []string{"Add", "Merge"}},
		},
	})
}

package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/coveooss/gotemplate/v3/template"
)

// ---- P24: table of functions -----------------------------------------------------------------

type funcEntry struct {
	Name, Real, Group, Description, Arguments, Result string
	Aliases                                           []string
	IsAlias                                           bool
	Examples                                          [][3]string
}

// addonOrder is the order in which the addons are added: the last one that defines a name wins.
var addonOrder = []template.Options{template.Sprig, template.Math, template.Data, template.Logging, template.Runtime, template.Utils, template.Net, template.OS, template.Git}

func addonOptions(on ...template.Options) template.OptionsSet {
	o := template.DefaultOptions()
	for _, a := range addonOrder {
		o[a] = false
	}
	for _, a := range on {
		o[a] = true
	}
	o[template.Extension] = false
	o[template.StrictErrorCheck] = true
	return o
}

// readTable gives the table of functions of an engine, through a probe added to its functions.
func readTable(o template.OptionsSet) (map[string]funcEntry, *template.Template) {
	t := newTemplate(map[string]interface{}{}, "", o)
	table := map[string]funcEntry{}
	if !o[template.Runtime] {
		return nil, t
	}
	t.AddFunctions(map[string]interface{}{"probe__": func(fi *template.FuncInfo) string {
		e := funcEntry{fi.Name(), fi.RealName(), fi.Group(), fi.Description(), fi.Arguments(), fi.Result(), append([]string(nil), fi.Aliases()...), fi.IsAlias(), nil}
		sort.Strings(e.Aliases)
		for _, x := range fi.Examples() {
			e.Examples = append(e.Examples, [3]string{x.Razor, x.Template, x.Result})
		}
		table[e.Name] = e
		return e.Name + "\n"
	}}, "probe", nil)
	out, err := t.ProcessContent("{{ range allFunctions }}{{ . }} {{ probe__ (function .) }}{{ end }}", "probe.gt")
	must0(err)
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		if f := strings.Fields(l); len(f) != 2 || f[0] != f[1] {
			panic(fmt.Sprint("function under another name ", l))
		}
	}
	delete(table, "probe__")
	return table, t
}

var singleTables map[template.Options]map[string]funcEntry
var singleBase map[string]funcEntry

// loadTables reads the table of each addon alone (with Runtime that gives access to it).
func loadTables(c *Ctx) {
	singleTables = map[template.Options]map[string]funcEntry{}
	singleBase, _ = readTable(addonOptions(template.Runtime))
	for _, a := range addonOrder {
		singleTables[a], _ = readTable(addonOptions(a, template.Runtime))
	}
	loadRegistry(c)
}

// tableSuite: the table of a set of addons is the ordered union of their tables; each entry is coherent.
func tableSuite(c *Ctx) {
	r := c.Rng
	on := []template.Options{template.Runtime}
	for _, a := range addonOrder {
		if a != template.Runtime && r.Intn(2) == 0 {
			on = append(on, a)
		}
	}
	got, t := readTable(addonOptions(on...))
	want := map[string]funcEntry{}
	for k, v := range singleBase {
		if v.Group == "Base go template functions" {
			want[k] = v
		}
	}
	for _, a := range addonOrder {
		for _, o := range on {
			if o != a {
				continue
			}
			for k, v := range singleTables[a] {
				if a == template.Runtime || js(singleBase[k]) != js(v) {
					want[k] = v
				}
			}
		}
	}
	for _, k := range sortedKeys(want) {
		if js(got[k]) != js(want[k]) {
			c.Fail("table", "with addons %v, function %s is\n%s\nexpected\n%s", on, k, js(got[k]), js(want[k]))
			return
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			c.Fail("table", "with addons %v, function %s is unexpected: %s", on, k, js(got[k]))
			return
		}
	}
	list := func(f string) []string {
		out, err := t.ProcessContent("{{ range "+f+" }}{{ . }} {{ end }}", "list.gt")
		must0(err)
		return strings.Fields(out)
	}
	functions, aliases, all := list("functions"), list("aliases"), list("allFunctions")
	merged := append(append([]string(nil), functions...), aliases...)
	sort.Strings(merged)
	if js(merged) != js(all) || !sort.StringsAreSorted(functions) || !sort.StringsAreSorted(aliases) {
		c.Fail("lists", "with addons %v, functions, aliases and allFunctions do not agree", on)
	}
	for _, f := range all {
		if f == "probe__" {
			continue
		}
		e := got[f]
		isAlias := sort.SearchStrings(aliases, f) < len(aliases) && aliases[sort.SearchStrings(aliases, f)] == f
		if e.IsAlias != isAlias || e.IsAlias == (e.Real == f) {
			c.Fail("alias", "%s: %s", f, js(e))
		}
		if e.IsAlias && !strings.Contains(" "+strings.Join(e.Aliases, " ")+" ", " "+f+" ") {
			c.Fail("alias", "%s is an alias of %s which does not name it: %v", f, e.Real, e.Aliases)
		}
		c.Event("entries")
	}
	c.Obs(fmt.Sprint(on), true)
}

// aliasSuite: an alias gives what its function gives.
func aliasSuite(c *Ctx) {
	r := c.Rng
	ctx := engineContext(r)
	o := engineOptions(r)
	table := singleAll
	for i := 0; i < 10; i++ {
		code := functionCall(r)
		f := strings.Fields(code)[1]
		e := table[f]
		var other string
		switch {
		case e.IsAlias:
			other = e.Real
		case len(e.Aliases) > 0:
			other = pick(r, e.Aliases...)
		default:
			continue
		}
		if o := table[other]; o.Real != e.Real {
			continue // the name has been taken by another addon
		}
		if r.Intn(3) == 0 {
			code = "{{ with " + strings.TrimSuffix(strings.TrimPrefix(code, "{{ "), " }}") + " }}[{{ . }}]{{ else }}none{{ end }}"
		}
		code2 := strings.Replace(code, " "+f+" ", " "+other+" ", 1)
		a := process(newTemplate(freshContext(ctx), "", copyOptions(o)), document{"f.gt", code})
		b := process(newTemplate(freshContext(ctx), "", copyOptions(o)), document{"f.gt", code2})
		words := regexp.MustCompile(`(?i)\b(` + regexp.QuoteMeta(f) + "|" + regexp.QuoteMeta(other) + `)\b`)
		a.err, b.err = words.ReplaceAllString(a.err, "F"), words.ReplaceAllString(b.err, "F")
		if a.err != "" { // the columns depend on the length of the name
			a.err, b.err = regexp.MustCompile(`:\d+:\d+`).ReplaceAllString(a.err, ""), regexp.MustCompile(`:\d+:\d+`).ReplaceAllString(b.err, "")
		}
		if a.err != "" && b.err != "" {
			a.text, b.text = "", "" // the text of the error contains the name
		}
		if a != b && !strings.Contains(a.text+a.err, "0x") {
			c.Fail("alias-call", "%s\ngives %s\n%s\ngives %s\ncontext %s", code, a, code2, b, js(ctx))
		}
		if a.err == "" {
			c.Event("calls succeeded")
		} else {
			c.Event("calls in error")
		}
		c.Obs(code, a.err == "")
	}
}

var singleAll map[string]funcEntry

// exampleSuite: the documented examples are true, whatever the context and what has been rendered before.
func exampleSuite(c *Ctx) {
	r := c.Rng
	ctx := engineContext(r)
	var names []string
	for _, n := range sortedKeys(singleAll) {
		if len(singleAll[n].Examples) > 0 && !singleAll[n].IsAlias {
			names = append(names, n)
		}
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	o := strictOptions()
	t := newTemplate(freshContext(ctx), "", o)
	for i, n := range names {
		for k, e := range singleAll[n].Examples {
			file := fmt.Sprintf("e%d/%d.gt", i, k)
			if r.Intn(2) == 0 && e[0] != "" && e[1] != "" {
				converted := process(newTemplate(freshContext(ctx), "", disabled()), document{file, e[0]})
				if converted.err != "" || converted.text != e[1] {
					c.Fail("example-razor", "the example of %s %q\nconverts to %s\ninstead of %q", n, e[0], converted, e[1])
				}
			}
			for _, src := range []string{e[0], e[1]} {
				if src == "" || e[2] == "" {
					continue
				}
				got := process(t, document{file, src})
				if got.err != "" || got.text != e[2] {
					c.Fail("example", "the example of %s %q\ngives %s\ninstead of %q", n, src, got, e[2])
				}
				c.Event("examples")
			}
		}
	}
	c.Obs(js(names)+js(ctx), true)
}

func disabled() template.OptionsSet {
	o := strictOptions()
	o[template.RenderingDisabled] = true
	return o
}

// addonCallSuite: functions of the addons that are off do not exist; those that are on do what they do alone.
func addonCallSuite(c *Ctx) {
	r := c.Rng
	ctx := engineContext(r)
	var on []template.Options
	for _, a := range addonOrder {
		if r.Intn(2) == 0 {
			on = append(on, a)
		}
	}
	for i := 0; i < 8; i++ {
		code := functionCall(r)
		if strings.Contains(code, "(list") || strings.Contains(code, "(dict") {
			continue
		}
		f := strings.Fields(code)[1]
		if strings.Contains(" functions aliases allFunctions categories function templates ", " "+f+" ") {
			continue // show the table
		}
		got := process(newTemplate(freshContext(ctx), "", addonOptions(on...)), document{"f.gt", code})
		var owner []template.Options
		for _, a := range on { // in order
			if _, ok := singleTables[a][f]; ok && (a == template.Runtime || js(singleBase[f]) != js(singleTables[a][f])) {
				owner = []template.Options{a}
			}
		}
		_, base := singleBase[f]
		base = base && singleBase[f].Group == "Base go template functions" || f == "slice" // replaced by Data, but still there without it
		if owner == nil && !base {
			if !strings.Contains(got.err, fmt.Sprintf("function %q not defined", f)) {
				c.Fail("addon-off", "with addons %v, %s gives %s", on, code, got)
			}
			c.Event("functions off")
			c.Obs(code, true)
			continue
		}
		want := process(newTemplate(freshContext(ctx), "", addonOptions(owner...)), document{"f.gt", code})
		if got != want && !strings.Contains(got.text+got.err, "0x") {
			c.Fail("addon-call", "%s\ngives with %v %s\nand with %v %s\ncontext %s", code, owner, want, on, got, js(ctx))
		}
		c.Event("functions on")
		c.Obs(code, got.err == "")
	}
}

// listSuite: the command list shows the functions that match.
func listSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	args := []string{"list"}
	all, category, long := r.Intn(2) == 0, r.Intn(3) == 0, r.Intn(3) == 0
	for _, o := range []struct {
		on    bool
		names []string
	}{{all, []string{"-a", "--all"}}, {category, []string{"-c", "--category"}}, {long, []string{"-l", "--long"}}} {
		if o.on {
			args = append(args, pick(r, o.names...))
		}
	}
	var filters []string
	for i := r.Intn(3); i > 0; i-- {
		name := pick(r, sortedKeys(singleAll)...)
		f := pick(r, name, name[:1+r.Intn(len(name))], strings.ToUpper(name), "json", "math", "string", "zzzz", "List", "operating system", "cosine", "e")
		filters = append(filters, f)
	}
	args = append(args, filters...)
	so, se, code := runCLI(dir, "", nil, args...)
	if code != 0 {
		c.Fail("list-error", "%q exits with %d\n%s", args, code, clip(se, 500))
		return
	}
	want := map[string]bool{}
	for n, e := range singleAll {
		if e.IsAlias && !all {
			continue
		}
		search := strings.ToLower(n + " " + strings.Join(e.Aliases, " "))
		if category {
			search += " " + strings.ToLower(e.Group)
		}
		if long {
			search += " " + strings.ToLower(e.Description)
		}
		match := len(filters) == 0
		for _, f := range filters {
			match = match || strings.Contains(search, strings.ToLower(f))
		}
		if match {
			want[iifs(long, e.Real, n)] = true
		}
	}
	got := map[string]bool{}
	if long {
		for _, l := range strings.Split(so, "\n") {
			if m := regexp.MustCompile(`^([\pL\d_]+)\(.*\) `).FindStringSubmatch(l); m != nil {
				if e, ok := singleAll[m[1]]; ok && e.IsAlias && !want[m[1]] {
					if !want[e.Real] {
						c.Fail("list", "%q shows alias %s", args, m[1])
					}
					continue
				}
				got[m[1]] = true
			}
		}
	} else {
		headers := map[string]bool{}
		for _, e := range singleAll {
			headers[strings.Join(strings.Fields(strings.Replace(e.Group, ", http", " http", 1)), " ")] = true
		}
		for _, l := range strings.Split(so, "\n") {
			if category && headers[strings.Join(strings.Fields(l), " ")] {
				continue
			}
			for _, w := range strings.Fields(l) {
				got[w] = true
			}
		}
	}
	if js(sortedKeys(got)) != js(sortedKeys(want)) {
		c.Fail("list", "%q shows %s\nexpected %s\nmissing or unexpected: %v", args, clip(js(sortedKeys(got)), 1500), clip(js(sortedKeys(want)), 1500), setDifference(got, want))
	}
	c.Event("lists")
	c.Obs(strings.Join(args, " "), len(want) > 0)
}

func setDifference(a, b map[string]bool) (result []string) {
	for _, k := range sortedKeys(a) {
		if !b[k] {
			result = append(result, "+"+k)
		}
	}
	for _, k := range sortedKeys(b) {
		if !a[k] {
			result = append(result, "-"+k)
		}
	}
	return
}

func loadAll(c *Ctx) {
	if singleAll == nil {
		loadTables(c)
		o := strictOptions()
		singleAll, _ = readTable(o)
	}
}

func init() {
	register(&Property{
		ID:   "P24",
		Rule: "the table of functions is the ordered union of the enabled addons, aliases are their function, functions that are off do not exist, documented examples are true, and list shows exactly the functions that match",
		Suites: []Suite{
			{Name: "table", Quick: 150, Thorough: 600, Run: tableSuite, Once: loadAll},
			{Name: "aliases", Quick: 2500, Thorough: 60000, Run: aliasSuite, Once: loadAll},
			{Name: "examples", Quick: 100, Thorough: 2000, Run: exampleSuite, Once: loadAll},
			{Name: "addons", Quick: 1500, Thorough: 40000, Run: addonCallSuite, Once: loadAll},
			{Name: "user functions", Quick: 150, Thorough: 3000, Run: userFunctionsSuite, Need: []string{"func", "alias"}},
			{Name: "templates", Quick: 150, Thorough: 3000, Run: templateListSuite, Need: []string{"templates listed", "templates looked up"}},
			{Name: "list", Quick: 200, Thorough: 3000, Run: listSuite, Once: loadAll},
		},
	})
}

// templateListSuite: the templates that are defined by the extensions are listed, with the file where they are.
func templateListSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	where := map[string]string{}
	var names []string
	for i := r.Intn(5); i >= 0; i-- {
		file := pick(r, "", "lib/", "a b/", "x/y/") + fmt.Sprintf("ext%d.gte", i)
		var text strings.Builder
		for n := 1 + r.Intn(4); n > 0; n-- {
			name := fmt.Sprintf("%s%d", pick(r, "tpl", "my template ", "ns.sub", "É", "a/b", "long-name-of-a-template-"), len(names))
			names = append(names, name)
			where[name] = file
			fmt.Fprintf(&text, "{{ define %q }}text of %s @(1+1){{ end }}\n", name, name)
			if r.Intn(4) == 0 {
				text.WriteString("some text\n")
			}
		}
		writeFile(filepath.Join(dir, file), text.String(), 0644)
	}
	sort.Strings(names)
	args := append([]string{"list"}, pick(r, "-t", "--templates"))
	all := r.Intn(3) == 0
	if all {
		args = append(args, "--all")
	}
	so, se, code := runCLI(dir, "", nil, args...)
	var got []string
	for _, l := range strings.Split(strings.TrimSpace(se), "\n") {
		for _, n := range names {
			if strings.HasPrefix(l, n+" ") && strings.HasSuffix(l, " "+where[n]) && strings.TrimSpace(strings.TrimSuffix(l[len(n):], where[n])) == "" {
				got = append(got, n)
			}
		}
		if !all {
			if len(got) == 0 || !strings.HasPrefix(l, got[len(got)-1]) {
				c.Fail("templates-line", "%q shows %q\n%s", args, l, se)
				return
			}
		}
	}
	if code != 0 || js(got) != js(names) {
		c.Fail("templates", "%q lists %q (exit code %d), expected %q\n%s%s", args, got, code, names, so, se)
		return
	}
	c.Event("templates listed", len(got))
	so, se, code = runCLI(dir, "", nil, `{{ toJson templateNames }}`)
	var found []string
	if err := json.Unmarshal([]byte(so), &found); err != nil || code != 0 || !sort.StringsAreSorted(found) {
		c.Fail("templateNames", "templateNames gives %q (%v, exit code %d)\n%s", so, err, code, se)
		return
	}
	known := map[string]int{}
	for _, f := range found {
		known[f]++
	}
	for _, n := range names {
		if known[n] != 1 {
			c.Fail("templateNames", "%q is %d times in %q", n, known[n], found)
			return
		}
	}
	c.Event("templates looked up", len(names))
	c.Obs(js(names)+js(args), true)
}

// userFunctionsSuite: the functions defined by the extensions are described in the table as they were declared.
func userFunctionsSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	var text, doc strings.Builder
	var want []string
	groups := map[string]bool{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		name := fmt.Sprintf("%s%d", pick(r, "myFunc", "f_", "Été", "zz"), i)
		if r.Intn(4) == 0 {
			c.Event("alias")
			fmt.Fprintf(&text, "@%s(\"%s\", \"include\", \"Y\"%s)\n", pick(r, "alias", "localAlias"), name, pick(r, "", ", 1", `, "a", list(1)`))
			fmt.Fprintf(&doc, `{{ with function "%s" }}{{ .Name }}|{{ .Group }}|{{ .IsAlias }}|{{ .Description }}{{ end }}{{ has "%s" functions }}`+"\n", name, name)
			want = append(want, name+"|User defined aliases|false|true")
			groups["User defined aliases"] = true
			continue
		}
		c.Event("func")
		description, group, arguments := "", "User defined functions", []string{}
		var aliases, config []string
		if r.Intn(2) == 0 {
			description = pick(r, "does something", "It's useful: 100% é", "a")
			config = append(config, fmt.Sprintf("%q, %q", pick(r, "d", "desc", "description", "Description", "D"), description))
		}
		if r.Intn(2) == 0 {
			group = pick(r, "my group", "Zoo", "Other utilities", "é")
			config = append(config, fmt.Sprintf("%q, %q", pick(r, "g", "group", "Group"), group))
		}
		if r.Intn(2) == 0 {
			list := []string{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				arguments = append(arguments, fmt.Sprintf("arg%d%s", j, pick(r, "", " int", " ...string")))
				list = append(list, strconv.Quote(arguments[len(arguments)-1]))
			}
			config = append(config, fmt.Sprintf("%q, list(%s)", pick(r, "a", "args", "arguments", "ARGS"), strings.Join(list, ", ")))
		}
		if r.Intn(2) == 0 {
			list := []string{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				aliases = append(aliases, fmt.Sprintf("%s_alias%d", name, j))
				list = append(list, strconv.Quote(aliases[len(aliases)-1]))
			}
			config = append(config, fmt.Sprintf("%q, list(%s)", pick(r, "aliases", "Aliases"), strings.Join(list, ", ")))
		}
		r.Shuffle(len(config), func(i, j int) { config[i], config[j] = config[j], config[i] })
		fmt.Fprintf(&text, "@func(\"%s\", \"include\", \"X\", dict(%s))\n", name, strings.Join(config, ", "))
		groups[group] = true
		for j, n := range append([]string{name}, aliases...) {
			fmt.Fprintf(&doc, `{{ with function "%s" }}{{ .Name }}|{{ .RealName }}|{{ .Group }}|{{ .Description }}|{{ if not .IsAlias }}{{ .Arguments }}{{ end }}|{{ join "," .Aliases }}|{{ .IsAlias }}{{ end }}|{{ has "%[1]s" functions }}|{{ has "%[1]s" aliases }}|{{ has "%[1]s" allFunctions }}|{{ %[1]s }}`+"\n", n)
			args := strings.Join(arguments, ", ")
			if args == "" {
				args = "args ...interface{}"
			}
			if j > 0 {
				args = ""
			}
			want = append(want, fmt.Sprintf("%s|%s|%s|%s|%s|%s|%v|%v|%v|true|X", n, name, group, description, args, strings.Join(aliases, ","), j > 0, j == 0, j > 0))
		}
	}
	names := sortedKeys(groups)
	for _, g := range names {
		fmt.Fprintf(&doc, "{{ range categories }}{{ if eq .Name %q }}found{{ end }}{{ end }}\n", g)
		want = append(want, "found")
	}
	writeFile(filepath.Join(dir, "lib.gte"), text.String(), 0644)
	writeFile(filepath.Join(dir, "doc.txt"), doc.String(), 0644)
	so, se, code := runCLI(dir, "", nil, "-P", "doc.txt")
	if got := strings.TrimSpace(so); code != 0 || got != strings.Join(want, "\n") {
		c.Fail("user functions", "%s\nare described (exit code %d) by\n%s\nexpected\n%s\n%s", text.String(), code, got, strings.Join(want, "\n"), clip(se, 800))
		return
	}
	for _, g := range names {
		so, se, code = runCLI(dir, "", nil, "list", "-c", g)
		if code != 0 || !strings.Contains(so+se, g) {
			c.Fail("list user functions", "list -c %q (exit code %d) does not show the group\n%s%s", g, code, so, clip(se, 800))
		}
	}
	c.Obs(text.String(), true)
}

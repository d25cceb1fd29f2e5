package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// ---- P08: sub-templates, included content, user defined functions and aliases ---------------

type env = map[string]interface{}

// envMerge gives a over b, dictionaries being merged.
func envMerge(a, b env) env {
	out := env{}
	for k, v := range b {
		out[k] = v
	}
	for k, v := range a {
		if va, ok := v.(map[string]interface{}); ok {
			if vb, ok := out[k].(map[string]interface{}); ok {
				out[k] = envMerge(va, vb)
				continue
			}
		}
		out[k] = v
	}
	return out
}

type argSpec struct {
	kind string // none, dict, list, dot
	dict env
	list []interface{}
}

type piece struct {
	kind string // text, var, default, has, parent, sub, args, call, template, nested
	name string
	arg  argSpec
	list []interface{}
	body []piece
}

type def struct {
	name     string
	kind     string // define, gte, file, func, alias, inline
	body     []piece
	params   []string
	defaults env
	preset   argSpec // of an alias
	fileName string
}

type world struct {
	global env
	defs   map[string]*def
	calls  map[string]int
	depth  int
}

func showv(v interface{}) string { return fmt.Sprint(v) }

func jsonList(l []interface{}) string { return js(l) }

// evaluate gives what a body renders: dot is its context, tctx the context of the template that runs.
func (w *world) evaluate(body []piece, dot, tctx env) string {
	var out strings.Builder
	for _, p := range body {
		switch p.kind {
		case "text":
			out.WriteString(p.name)
		case "var":
			out.WriteString(showv(dot[p.name]))
		case "sub":
			out.WriteString(showv(dot["obj"].(map[string]interface{})[p.name]))
		case "default":
			if v, ok := dot[p.name]; ok {
				out.WriteString(showv(v))
			} else {
				out.WriteString("none")
			}
		case "has":
			_, ok := dot[p.name]
			out.WriteString(showv(ok))
		case "parent":
			out.WriteString(showv(dot["_"].(env)[p.name]))
		case "args":
			out.WriteString(jsonList(dot["ARGS"].([]interface{})))
		case "call":
			out.WriteString(w.call(w.defs[p.name], p.arg, p.list, dot, tctx))
		case "piped":
			out.WriteString(strings.ToUpper(w.call(w.defs[p.name], p.arg, p.list, dot, tctx)))
		case "nested":
			out.WriteString(w.include(p.body, p.arg, dot, tctx))
		case "template":
			w.calls["template action"]++
			d := p.arg.dict
			if p.arg.kind == "dot" {
				d = dot
			}
			out.WriteString(w.evaluate(w.defs[p.name].body, d, tctx))
		}
	}
	return out.String()
}

func (w *world) include(body []piece, arg argSpec, dot, tctx env) string {
	w.depth++
	if w.depth > 1 {
		w.calls["nested call"]++
	}
	defer func() { w.depth-- }()
	mine := env{}
	for k, v := range tctx {
		mine[k] = v
	}
	mine["_"] = tctx
	d := mine
	switch arg.kind {
	case "dict":
		d = envMerge(arg.dict, mine)
	case "dot":
		d = envMerge(dot, mine)
	case "list":
		mine["ARGS"] = arg.list
	default:
		mine["ARGS"] = []interface{}{}
	}
	return w.evaluate(body, d, mine)
}

func (w *world) call(d *def, arg argSpec, list []interface{}, dot, tctx env) string {
	w.calls["call "+d.kind]++
	switch d.kind {
	case "func":
		var ctx env
		if arg.kind == "dict" {
			ctx = envMerge(arg.dict, envMerge(d.defaults, w.global))
		} else {
			ctx = envMerge(d.defaults, w.global)
			for i, v := range list {
				if i >= len(d.params) {
					ctx["ARGS"] = list[i:]
					break
				}
				ctx[d.params[i]] = v
			}
		}
		return w.include(d.body, argSpec{kind: "dict", dict: ctx}, nil, w.global)
	case "alias":
		a := d.preset
		if arg.kind == "dict" { // only on aliases without preset
			a = arg
		} else if a.kind != "dict" {
			a = argSpec{kind: "list", list: append(append([]interface{}{}, a.list...), list...)}
		}
		return w.include(d.body, a, nil, w.global)
	}
	return w.include(d.body, arg, dot, tctx)
}

type subGen struct {
	r    *rand.Rand
	w    *world
	tick bool // within back quotes
}

func (g *subGen) value() interface{} {
	return pick[interface{}](g.r, 1+g.r.Intn(50), 1+g.r.Intn(50), randString(g.r, "abcdefgh", 1, 5), "two words")
}

func litSrc(v interface{}, q string) string {
	if s, ok := v.(string); ok {
		return q + s + q
	}
	return fmt.Sprint(v)
}

// dictSrc is the code of a dictionary.
func dictSrc(m env, q string) string {
	out := "(dict"
	for _, k := range sortedKeys(m) {
		out += " " + q + k + q + " "
		if d, ok := m[k].(map[string]interface{}); ok {
			out += dictSrc(d, q)
		} else {
			out += litSrc(m[k], q)
		}
	}
	return out + ")"
}

func dictRazor(m env, q string) string {
	var out []string
	for _, k := range sortedKeys(m) {
		v := litSrc(m[k], q)
		if d, ok := m[k].(map[string]interface{}); ok {
			v = dictRazor(d, q)
		}
		out = append(out, q+k+q, v)
	}
	return "dict(" + strings.Join(out, ", ") + ")"
}

func (g *subGen) dictArg() env {
	m := env{"xa": g.value(), "xb": g.value()}
	if g.r.Intn(3) == 0 {
		m["ga"] = g.value()
	}
	if g.r.Intn(3) == 0 {
		m["obj"] = map[string]interface{}{"p": g.value()}
	}
	if g.r.Intn(4) == 0 {
		m["xopt"] = g.value()
	}
	return m
}

func (g *subGen) listArg() (l []interface{}) {
	for i := g.r.Intn(4); i > 0; i-- {
		l = append(l, g.value())
	}
	return
}

// code gives the text of a body. q is the quote available within it.
func (g *subGen) code(body []piece, q string) string {
	var out strings.Builder
	r := g.r
	for _, p := range body {
		switch p.kind {
		case "text":
			out.WriteString(p.name)
		case "var":
			out.WriteString(pick(r, "{{ .%s }}", "@.%s;", "@(.%s)"))
			s := strings.Replace(out.String(), "%s", p.name, 1)
			out.Reset()
			out.WriteString(s)
		case "sub":
			out.WriteString("{{ .obj." + p.name + " }}")
		case "default":
			out.WriteString("{{ default " + q + "none" + q + " ." + p.name + " }}")
		case "has":
			out.WriteString("{{ hasKey . " + q + p.name + q + " }}")
		case "parent":
			out.WriteString("{{ ._." + p.name + " }}")
		case "args":
			out.WriteString("{{ toJson .ARGS }}")
		case "call", "piped":
			d := g.w.defs[p.name]
			end := ""
			if p.kind == "piped" {
				end = " | upper"
			}
			if d.kind == "func" || d.kind == "alias" {
				if p.arg.kind == "dict" {
					if r.Intn(2) == 0 && p.kind == "call" {
						out.WriteString("@" + d.name + "(" + dictRazor(p.arg.dict, q) + ");")
					} else if d.kind == "func" && r.Intn(3) == 0 && !g.tick && q == `"` && !strings.Contains(js(p.arg.dict), "`") {
						out.WriteString("{{ " + d.name + " `" + js(p.arg.dict) + "`" + end + " }}")
					} else {
						out.WriteString("{{ " + d.name + " " + dictSrc(p.arg.dict, q) + end + " }}")
					}
					break
				}
				if r.Intn(2) == 0 && p.kind == "call" {
					var l []string
					for _, v := range p.list {
						l = append(l, litSrc(v, q))
					}
					out.WriteString("@" + d.name + "(" + strings.Join(l, ", ") + ");")
				} else {
					out.WriteString("{{ " + d.name)
					for _, v := range p.list {
						out.WriteString(" " + litSrc(v, q))
					}
					out.WriteString(end + " }}")
				}
				break
			}
			src := d.name
			if d.kind == "file" {
				src = d.fileName
			}
			g.includeCode(&out, q+src+q, p.arg, q, end)
		case "nested":
			g.tick = true
			code := g.code(p.body, `"`)
			g.tick = false
			g.includeCode(&out, "`"+code+"`", p.arg, q, "")
		case "template":
			a := " ."
			if p.arg.kind == "dict" {
				a = " " + dictSrc(p.arg.dict, q)
			}
			out.WriteString("{{ template " + q + p.name + q + a + " }}")
		}
	}
	return out.String()
}

func (g *subGen) includeCode(out *strings.Builder, src string, arg argSpec, q, end string) {
	r := g.r
	if r.Intn(3) == 0 && end == "" && !strings.Contains(src, "@") && !strings.Contains(src, "{{") {
		s := "@include(" + src
		switch arg.kind {
		case "dict":
			s += ", " + dictRazor(arg.dict, q)
		case "dot":
			s = "{{ include " + src + " . }}"
			out.WriteString(s)
			return
		case "list":
			for _, v := range arg.list {
				s += ", " + litSrc(v, q)
			}
		}
		out.WriteString(s + ");")
		return
	}
	out.WriteString("{{ " + pick(r, "include", "include", "eval") + " " + src)
	switch arg.kind {
	case "dict":
		out.WriteString(" " + dictSrc(arg.dict, q))
	case "dot":
		out.WriteString(" .")
	case "list":
		for _, v := range arg.list {
			out.WriteString(" " + litSrc(v, q))
		}
	}
	out.WriteString(end + " }}")
}

// has says what the body needs.
type needs struct{ x, args, parent bool }

// body builds the pieces of a definition that can call those that are visible.
func (g *subGen) body(visible []*def, x, args, inline bool) []piece {
	r := g.r
	out := []piece{{kind: "text", name: "[" + randString(r, "abcdefgh", 1, 4) + " "}}
	for i := 2 + r.Intn(4); i > 0; i-- {
		sep := piece{kind: "text", name: pick(r, " ", "/", ", ", "\n")}
		if inline {
			sep.name = pick(r, " ", "/", ", ")
		}
		switch k := r.Intn(12); {
		case k == 0:
			out = append(out, piece{kind: "var", name: pick(r, "ga", "gb")})
		case k == 1:
			out = append(out, piece{kind: "sub", name: pick(r, "p", "q")})
		case k == 2:
			out = append(out, piece{kind: "default", name: pick(r, "ga", "xopt", "nothing", "gb")})
		case k == 3:
			out = append(out, piece{kind: "has", name: pick(r, "ga", "xopt", "nothing", "xa")})
		case k == 4 && x:
			out = append(out, piece{kind: "var", name: pick(r, "xa", "xb")})
		case k == 5 && args:
			out = append(out, piece{kind: "args"})
		case k == 6 && !x:
			out = append(out, piece{kind: "default", name: "gb"})
		case k == 7:
			out = append(out, piece{kind: "parent", name: pick(r, "ga", "gb")})
		case k >= 8 && len(visible) > 0:
			out = append(out, g.callPiece(visible))
		default:
			out = append(out, piece{kind: "text", name: "t"})
		}
		out = append(out, sep)
	}
	return append(out, piece{kind: "text", name: "]"})
}

// wants tells how a definition can be called, given what its body uses.
func (d *def) wants() (x, args, parent bool) {
	for _, p := range d.body {
		x = x || p.kind == "var" && strings.HasPrefix(p.name, "x")
		args = args || p.kind == "args"
		parent = parent || p.kind == "parent"
		if p.kind == "template" && p.arg.kind == "dot" {
			parent = true
		}
	}
	return
}

func (g *subGen) callPiece(visible []*def) piece {
	r := g.r
	d := visible[r.Intn(len(visible))]
	x, args, parent := d.wants()
	p := piece{kind: pick(r, "call", "call", "call", "piped"), name: d.name}
	switch d.kind {
	case "func":
		switch {
		case r.Intn(3) == 0:
			p.arg = argSpec{kind: "dict", dict: g.dictArg()}
			if r.Intn(2) == 0 { // the defaults apply
				delete(p.arg.dict, "xa")
			}
		default:
			p.list = g.listArg()
		}
	case "alias":
		if d.preset.kind == "none" && x {
			p.arg = argSpec{kind: "dict", dict: g.dictArg()}
		} else if d.preset.kind != "dict" {
			p.list = g.listArg()
		}
	default:
		switch {
		case x:
			p.arg = argSpec{kind: "dict", dict: g.dictArg()}
		case args:
			p.arg = argSpec{kind: pick(r, "none", "list"), list: g.listArg()}
			if p.arg.kind == "list" && len(p.arg.list) == 0 {
				p.arg.kind = "none"
			}
		default:
			p.arg = argSpec{kind: pick(r, "none", "dict", "dot")}
			if p.arg.kind == "dict" {
				p.arg.dict = g.dictArg()
			}
		}
		if d.kind != "file" && !args && !parent && r.Intn(3) == 0 {
			p.kind = "template"
			m := g.dictArg()
			m["ga"], m["gb"], m["obj"] = g.value(), g.value(), map[string]interface{}{"p": 1, "q": "r"}
			p.arg = argSpec{kind: "dict", dict: m}
		}
	}
	return p
}

// subTemplatesSuite: definitions of all kinds calling each other, compared with a model.
func subTemplatesSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	for _, d := range []string{"docs/lib", "ext"} {
		must0(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	g := &subGen{r: r, w: &world{defs: map[string]*def{}, calls: map[string]int{}}}
	g.w.global = env{"ga": g.value(), "gb": g.value(), "obj": map[string]interface{}{"p": g.value(), "q": g.value()}}
	var gtes, all []*def
	n := 3 + r.Intn(6)
	for i := 0; i < n; i++ {
		kind := pick(r, "gte", "gte", "func", "alias", "define", "define", "file")
		d := &def{name: fmt.Sprintf("%s%d", pick(r, "zed", "my_", "Fn"), i), kind: kind}
		visible := all
		x, args := r.Intn(2) == 0, false
		if kind == "gte" || kind == "func" || kind == "alias" {
			visible = gtes
		}
		switch kind {
		case "func":
			x = true
			d.params = []string{"xa", "xb", "xopt"}[:2+r.Intn(2)]
			d.defaults = env{"xa": g.value(), "xb": g.value()}
			if r.Intn(3) == 0 {
				d.defaults["ga"] = g.value()
			}
		case "alias":
			switch r.Intn(3) {
			case 0:
				d.preset, x = argSpec{kind: "dict", dict: g.dictArg()}, true
			case 1:
				d.preset = argSpec{kind: "list", list: g.listArg()}
				if len(d.preset.list) == 0 {
					d.preset.kind = "none"
				}
				x, args = false, true
			default:
				d.preset.kind = "none"
				args = !x
			}
		default:
			args = !x && r.Intn(2) == 0
		}
		d.body = g.body(visible, x, args, kind == "func" || kind == "alias")
		if d.kind == "file" {
			d.fileName = "lib/" + d.name + pick(r, ".txt", ".gt", "")
		}
		if d.kind == "alias" && d.preset.kind == "none" {
			if dx, _, _ := d.wants(); !dx { // called with a list
				d.preset.kind = "list"
			}
		}
		g.w.defs[d.name] = d
		all = append(all, d)
		if kind == "gte" {
			gtes = append(gtes, d)
		}
	}
	// the source files
	var head, ext strings.Builder
	confs := env{}
	for _, d := range all {
		code := ""
		if d.kind != "func" && d.kind != "alias" {
			code = g.code(d.body, pick(r, `"`, "`"))
		} else {
			g.tick = true
			code = g.code(d.body, `"`)
			g.tick = false
		}
		switch d.kind {
		case "define":
			if r.Intn(2) == 0 {
				head.WriteString("{{- define \"" + d.name + "\" }}" + code + "{{ end -}}\n")
			} else {
				head.WriteString("@-define(\"" + d.name + "\")" + code + "{{ end -}}\n")
			}
		case "gte":
			ext.WriteString("{{- define \"" + d.name + "\" }}" + code + "{{ end -}}\n")
		case "file":
			writeFile(filepath.Join(dir, "docs", d.fileName), code, 0644)
		case "func":
			conf := env{"args": d.params, pick(r, "defaults", "def", "default"): d.defaults, pick(r, "desc", "description", "d"): "about " + d.name}
			if r.Intn(3) == 0 {
				// The configuration comes from the context, it must not be altered
				confs["conf"+d.name] = freshContext(conf)
				ext.WriteString("{{ func \"" + d.name + "\" \"include\" " + funcSource(code) + " .conf" + d.name + " }}\n")
			} else if r.Intn(2) == 0 {
				ext.WriteString("{{ func \"" + d.name + "\" \"" + pick(r, "include", "template") + "\" " + funcSource(code) + " " + funcSource(js(conf)) + " }}\n")
			} else {
				ext.WriteString("@func(\"" + d.name + "\", \"include\", " + funcSource(code) + ", " + funcSource(js(conf)) + ")\n")
			}
		case "alias":
			p := ""
			if d.preset.kind == "dict" {
				p = " " + dictSrc(d.preset.dict, `"`)
			}
			for _, v := range d.preset.list {
				p += " " + litSrc(v, `"`)
			}
			ext.WriteString("{{ " + pick(r, "alias", "localAlias") + " \"" + d.name + "\" \"include\" " + funcSource(code) + p + " }}\n")
		}
	}
	writeFile(filepath.Join(dir, "ext", "lib.gte"), escapeRazor(ext.String()), 0644)
	// the main document
	var main []piece
	for i := 1 + r.Intn(4); i > 0; i-- {
		main = append(main, piece{kind: "text", name: fmt.Sprintf("line %d: ", i)})
		switch r.Intn(5) {
		case 0:
			x, args := r.Intn(2) == 0, false
			body := append(g.body(all, x, args, true), piece{kind: "var", name: "ga"}) // (a text without code must be a name)
			p := piece{kind: "nested", body: body, arg: argSpec{kind: "dot"}}
			if x {
				p.arg = argSpec{kind: "dict", dict: g.dictArg()}
			}
			main = append(main, p)
		default:
			main = append(main, g.callPiece(all))
		}
		main = append(main, piece{kind: "text", name: "\n"})
	}
	src := head.String() + g.code(main, `"`)
	want := g.w.evaluate(main, g.w.global, g.w.global)
	o := strictOptions()
	before := js(confs)
	t, err := template.NewTemplate(dir, collections.AsDictionary(freshContext(envMerge(g.w.global, confs))), "", o)
	if err != nil {
		c.Fail("engine", "extension %s\n%v", ext.String(), err)
		return
	}
	got, err := t.ProcessContent(src, filepath.Join(dir, "docs", "main.gt"))
	if err != nil || strings.TrimLeft(got, "\n") != want {
		files := ""
		for _, d := range all {
			if d.kind == "file" {
				files += d.fileName + ": " + string(must1(os.ReadFile(filepath.Join(dir, "docs", d.fileName)))) + "\n"
			}
		}
		c.Fail("sub-template", "context %s\nlib.gte:\n%s\n%s\ndocument:\n%s\nrenders  %q (%v)\nexpected %q", js(g.w.global), escapeRazor(ext.String()), files, src, strings.TrimLeft(got, "\n"), err, want)
	}
	after := env{}
	for k := range confs {
		after[k] = t.Context().Get(k)
	}
	if js(after) != before {
		c.Fail("configuration", "lib.gte\n%s\nchanges the configurations of the functions from\n%s to\n%s", ext.String(), before, js(after))
	}
	c.Event("configurations in the context", len(confs))
	for k, n := range g.w.calls {
		c.Event(k, n)
	}
	c.Obs(src+ext.String(), true)
}

// escapeRazor doubles the marks of the embedded code so that it is not converted with the extension itself.
func escapeRazor(s string) string { return s }

// funcSource is the literal of a code.
func funcSource(code string) string {
	if strings.Contains(code, "`") {
		panic("quotes: " + code)
	}
	return "`" + code + "`"
}

func init() {
	register(&Property{
		ID:   "P08",
		Rule: "one evaluation is one document and its extension; distinct by text",
		Suites: []Suite{
			{Name: "extension", Quick: 150, Thorough: 4000, Run: extensionSuite, Need: []string{"not available", "too deep 1", "too deep 3"}},
			{Name: "model", Quick: 4000, Thorough: 150000, Run: subTemplatesSuite, Need: []string{"call define", "call gte", "call file", "call func", "call alias", "template action", "nested call"}},
			{Name: "folders", Quick: 600, Thorough: 12000, Run: foldersSuite, Need: []string{"alias", "localAlias", "func", "direct"}},
			{Name: "parents", Quick: 2000, Thorough: 60000, Run: parentSuite, Need: []string{"chains"}},
		},
	})
}

// extensionSuite: what the extension files define is available to the documents, whatever their folder.
func extensionSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	work := filepath.Join(dir, "work")
	must0(os.MkdirAll(work, 0755))
	type extFile struct {
		path     string
		depth    int
		env      bool
		n        int
		broken   bool
		noAccess bool
	}
	var exts []extFile
	var paths []string
	depth, args, env := 2, []string{"-V", "v=5", "-P"}, []string(nil)
	if r.Intn(2) == 0 {
		depth = 1 + r.Intn(4)
		args = append(args, pick(r, "-R", "--recursion-depth"), fmt.Sprint(depth))
	} else if r.Intn(4) == 0 {
		args = append(args, "-r")
	}
	used, shared := map[string]bool{}, r.Intn(3)
	for i := 2 + r.Intn(5); i > 0; i-- {
		e := extFile{depth: r.Intn(5), n: i, env: r.Intn(4) <= shared, broken: r.Intn(6) == 0}
		if r.Intn(2) == 0 {
			e.depth = depth + r.Intn(2) // around the limit
		}
		base := "work"
		if e.env {
			base = pick(r, "libA", "libB", "lib C", "libD")
			if !used[base] {
				used[base] = true
				paths = append(paths, filepath.Join(dir, base))
			}
		}
		for d := 0; d < e.depth; d++ {
			base += "/" + pick(r, "a", "b", "c[1]", "d e")
		}
		e.path = base + "/" + pick(r, "same", "other") + fmt.Sprint(r.Intn(3)) + pick(r, ".gte", ".gte", ".gte", ".gtx")
		if used[e.path] {
			continue
		}
		used[e.path] = true
		text := fmt.Sprintf("{{ define \"tpl%d\" }}T%d{{ .v }}{{ end }}@func(\"fn%d\", \"include\", \"F%d @v;\", dict())\n@alias(\"al%d\", \"include\", \"A%d @v;\")\n@var%d := %d\n", i, i, i, i, i, i, i, i)
		if e.broken {
			text += "{{ fail `broken` }}\n"
		}
		must0(os.MkdirAll(filepath.Dir(filepath.Join(dir, e.path)), 0755))
		writeFile(filepath.Join(dir, e.path), text, 0644)
		exts = append(exts, e)
	}
	disabled := r.Intn(6) == 0
	if disabled {
		args = append(args, pick(r, "--no-extension", "--no-ext", "--base"))
		if args[len(args)-1] == "--base" {
			args = append(args, "--runtime", "--data", "--razor")
		}
	}
	if len(paths) > 0 {
		env = append(env, "GOTEMPLATE_PATH="+strings.Join(paths, ":")+pick(r, "", ":", ":/nowhere"))
	}
	doc := pick(r, "", "sub/", "a/b/c/d/") + "doc.txt"
	must0(os.MkdirAll(filepath.Dir(filepath.Join(work, doc)), 0755))
	for _, e := range exts {
		available := e.depth <= depth && strings.HasSuffix(e.path, ".gte") && !disabled && (!e.env || true)
		kind := pick(r, "tpl", "include", "fn", "al", "var")
		src, want := "", ""
		n := e.n
		switch kind {
		case "tpl":
			src, want = fmt.Sprintf("[{{ template \"tpl%d\" . }}]", n), fmt.Sprintf("[T%d5]", n)
		case "include":
			src, want = fmt.Sprintf("[@include(\"tpl%d\")]", n), fmt.Sprintf("[T%d5]", n)
		case "fn":
			src, want = fmt.Sprintf("[{{ fn%d }}]", n), fmt.Sprintf("[F%d 5]", n)
		case "al":
			src, want = fmt.Sprintf("[@al%d();]", n), fmt.Sprintf("[A%d 5]", n)
		case "var":
			src, want = fmt.Sprintf("[@var%d;]", n), fmt.Sprintf("[%d]", n)
		}
		if e.broken && available {
			c.Event("broken extension")
		}
		code := 0
		if !available {
			code = 1
		}
		if available {
			c.Event("available " + kind)
		} else {
			c.Event("not available")
			if e.depth > depth && !disabled && strings.HasSuffix(e.path, ".gte") {
				c.Event(fmt.Sprintf("too deep %d", depth))
			}
		}
		writeFile(filepath.Join(work, doc), src, 0644)
		out, errOut, got := runCLI(work, "", env, append(append([]string{}, args...), "-S", doc)...)
		if got != code || code == 0 && strings.TrimSpace(out) != want {
			if e.broken && available && kind == "var" && got == 1 { // (what a failing document assigns is not kept)
				continue
			}
			c.Fail("extension", "%s (depth %d, broken %v) with %v %v\ndocument %s %q\nexit %d, expected %d\noutput %q, expected %q\n%s", e.path, e.depth, e.broken, args, env, doc, src, got, code, out, want, clip(errOut, 1500))
		}
	}
	c.Obs(fmt.Sprintf("%+v %v %v", exts, args, env), len(exts) > 0)
}

// parentSuite: chains of includes where each template looks at the values of its callers.
// The context of a template is made of its arguments completed by the values inherited from its caller; what it inherits
// is what its own callees inherit, and what they find in _.
func parentSuite(c *Ctx) {
	r := c.Rng
	type level struct {
		own, inherited map[string]int
		parent         *level
	}
	clone := func(m map[string]int) map[string]int {
		n := map[string]int{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	names := []string{"u", "v", "w"}
	n := 1 + r.Intn(4)
	engine := map[string]int{}
	ctx := map[string]interface{}{}
	for i, k := range names {
		engine[k] = i
		ctx[k] = i
	}
	next := 10
	var src, main strings.Builder
	current := &level{own: clone(engine), inherited: engine} // a document works on a copy
	want := ""
	for i := 0; i <= n; i++ {
		body := ""
		for _, k := range names {
			if r.Intn(3) == 0 {
				body += fmt.Sprintf("{{ set . %q %d }}", k, next)
				current.own[k] = next
				next++
			}
		}
		k := pick(r, names...)
		body += "[{{ ." + k + " }}]"
		want += fmt.Sprintf("[%d]", current.own[k])
		path := "._."
		for at := current.parent; at != nil; at = at.parent {
			k := pick(r, names...)
			body += "[{{ " + path + k + " }}]"
			want += fmt.Sprintf("[%d]", at.inherited[k])
			path += "_."
		}
		if i < n {
			child := &level{parent: current, inherited: clone(current.inherited)}
			child.own = child.inherited
			arg := ""
			switch r.Intn(4) {
			case 0:
			case 1, 2:
				arg = " " + pick(r, ".", "$", "(.)")
				child.own = clone(current.own)
			default:
				k := pick(r, names...)
				arg = fmt.Sprintf(" (dict %q %d)", k, next)
				child.own = clone(child.inherited)
				child.own[k] = next
				next++
			}
			body += fmt.Sprintf("{{ include \"level%d\"%s }}", i+1, arg)
			current = child
		}
		if i == 0 {
			main.WriteString(body)
		} else {
			fmt.Fprintf(&src, "{{ define \"level%d\" }}%s{{ end }}", i, body)
		}
	}
	text := src.String() + main.String()
	t := newTemplate(ctx, "", strictOptions())
	got, err := render(t, text)
	if err != nil || got != want {
		c.Fail("parent", "%s\non %s gives %q %v, expected %q", text, js(ctx), got, err, want)
	}
	c.Event("chains")
	c.Obs(text, n > 1)
}

// foldersSuite: the files and the commands that a function refers to are those of the folder of the document that calls it;
// those of an alias are searched in the folder of the engine, those of a local alias or of a function in the folder of the
// extension that defines it.
func foldersSuite(c *Ctx) {
	r := c.Rng
	root := c.Dir()
	folders := []string{"", "lib", "lib/deep", "docs", "docs/x y"}
	full := func(f string) string { return filepath.Join(root, f) }
	for _, f := range folders {
		must0(os.MkdirAll(full(f), 0755))
		writeFile(filepath.Join(full(f), "inc.txt"), "<inc "+f+" @v;>", 0644)
		writeFile(filepath.Join(full(f), "chain.txt"), "chain({{ include `inc.txt` }})", 0644)
		writeFile(filepath.Join(full(f), "cmd.sh"), "#!/bin/sh\necho cmd-"+strings.ReplaceAll(f, " ", "_")+" in $(pwd)\n", 0755)
		writeFile(filepath.Join(full(f), "tcmd.sh"), "#!/bin/sh\necho tcmd {{ .v }} @(v + 1); $(pwd)\n", 0644)
	}
	type action struct {
		fn, target string
		want       func(f string) string
	}
	actions := []action{
		{"include", "inc.txt", func(f string) string { return "<inc " + f + " 5>" }},
		{"include", "chain.txt", func(f string) string { return "chain(<inc " + f + " 5>)" }},
		{"include", "{{ current }}", full},
		{"include", "at @@current(); end", func(f string) string { return "at " + full(f) + " end" }},
		{"include", "{{ include `inc.txt` }}", func(f string) string { return "<inc " + f + " 5>" }},
		{"run", "pwd", full},
		{"exec", "pwd", full},
		{"run", "cmd.sh", func(f string) string { return "cmd-" + strings.ReplaceAll(f, " ", "_") + " in " + full(f) }},
		{"exec", "cmd.sh", func(f string) string { return "cmd-" + strings.ReplaceAll(f, " ", "_") + " in " + full(f) }},
		{"run", "tcmd.sh", func(f string) string { return "tcmd 5 6 " + full(f) }},
		{"run", "{{ print `cat inc.txt` }}", func(f string) string { return "<inc " + f + " @v;>" }},
	}
	type named struct{ name, kind, folder string }
	defined := map[string]action{}
	var names []named
	for i := 2 + r.Intn(4); i > 0; i-- {
		n := named{fmt.Sprintf("own%d", i), pick(r, "alias", "localAlias", "func"), pick(r, folders...)}
		a := pick(r, actions...)
		line := fmt.Sprintf("{{ %s %q %q %q", n.kind, n.name, a.fn, strings.ReplaceAll(a.target, "@@", "@"))
		if strings.Contains(line, "@") {
			line = fmt.Sprintf("{{ %s %q %q (print \"at \" \"@@\" \"current(); end\")", n.kind, n.name, a.fn)
		}
		if n.kind == "func" {
			line += " (dict)"
		}
		names = append(names, n)
		defined[n.name] = a
		writeFile(filepath.Join(full(n.folder), fmt.Sprintf("ext%d.gte", i)), line+" }}\n", 0644)
	}
	// The current folder of the process does not count: it has files of the same names
	decoys := filepath.Join(root, "decoys")
	for _, f := range []string{"inc.txt", "chain.txt", "cmd.sh", "tcmd.sh"} {
		writeFile(filepath.Join(decoys, f), "echo file of the current folder {{ 1 }}", 0755)
	}
	back := must1(os.Getwd())
	must0(os.Chdir(decoys))
	defer func() { must0(os.Chdir(back)) }()
	t := must1(template.NewTemplate(root, collections.AsDictionary(map[string]interface{}{"v": 5}), "", strictOptions()))
	for i := 3 + r.Intn(4); i > 0; i-- {
		docFolder := pick(r, folders...)
		code, want, kind := "", "", "direct"
		if r.Intn(3) == 0 {
			a := pick(r, actions...)
			if strings.Contains(a.target, "@@") {
				continue
			}
			code, want = fmt.Sprintf("{{ %s %q }}", a.fn, a.target), a.want(docFolder)
			if !strings.Contains(a.target, "{{") && r.Intn(2) == 0 {
				code = fmt.Sprintf("@%s(%q);", a.fn, a.target)
			}
		} else {
			n := pick(r, names...)
			kind = n.kind
			code = pick(r, "{{ "+n.name+" }}", "@"+n.name+"();")
			if n.kind == "alias" {
				want = defined[n.name].want("")
			} else {
				want = defined[n.name].want(n.folder)
			}
			if n.kind != "alias" && n.folder != docFolder && n.folder != "" {
				c.Event("another folder")
			}
		}
		out, err := func() (out string, err error) {
			defer func() {
				if rec := recover(); rec != nil {
					err = fmt.Errorf("PANIC %v", rec)
				}
			}()
			return t.ProcessContent(code, filepath.Join(full(docFolder), "doc.txt"))
		}()
		if err != nil || strings.TrimSpace(out) != want {
			c.Fail("folder", "extensions %+v with %+v\ndocument in %q: %s\ngives %q (%v)\nexpected %q", names, defined, docFolder, code, out, err, want)
		}
		c.Event(kind)
	}
	c.Obs(fmt.Sprintf("%+v", names), true)
}

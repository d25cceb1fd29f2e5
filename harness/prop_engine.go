package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// ---- P06: determinism, P07: isolation --------------------------------------------------------

var engineOpts = genOpts{
	keys: ident,
	strings: func(r *rand.Rand) string {
		return pick(r, "", "a", "text", "with space", "é∂", `q"uote`, "multi\nline", "3", "true", "x,y", "k=v", "ab.cd")
	},
	scalars: func(r *rand.Rand) interface{} {
		switch r.Intn(5) {
		case 0:
			return r.Intn(100) - 20
		case 1:
			return float64(r.Intn(100)) + 0.25
		case 2:
			return r.Intn(2) == 0
		}
		return pick(r, "", "a", "text", "with space", "é∂", `q"uote`, "multi\nline", "3", "true", "x,y", "k=v", "ab.cd")
	},
}

func bigMap(r *rand.Rand, n int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[ident(r)] = genValue(r, 2, engineOpts)
	}
	return m
}

// engineContext is the context shared by the documents of a case.
func engineContext(r *rand.Rand) map[string]interface{} {
	a, b := bigMap(r, 3+r.Intn(8)), bigMap(r, 3+r.Intn(8))
	for _, k := range sortedKeys(a) {
		v := a[k]
		if r.Intn(3) == 0 {
			if m, ok := v.(map[string]interface{}); ok && r.Intn(2) == 0 {
				b[k] = bigMap(r, 3)
				m["both"] = 1
			} else {
				b[k] = genValue(r, 1, engineOpts)
			}
		}
	}
	a["a"], a["nest"] = r.Intn(9), map[string]interface{}{"x": 1, "y": []interface{}{1, 2, map[string]interface{}{"z": "deep"}}}
	return map[string]interface{}{"mapA": a, "mapB": b, "listA": []interface{}{3, 1, 2, "x", []interface{}{1, 2}, map[string]interface{}{"k": "v", "j": 2}}, "nums": []interface{}{4, 8, r.Intn(50)},
		"maps": []interface{}{map[string]interface{}{"id": 1, "n": "a"}, map[string]interface{}{"id": 2, "n": "b", "o": 1}}, "strA": pick(r, "hello world", "a,b;c", `{"x": 1, "b": 2}`, "x: 1\ny: 2\n"), "intA": 1 + r.Intn(9), "none": nil}
}

var serializers = []string{"toJson", "toYaml", "toHcl", "toPrettyJson", "toPrettyHcl", "toPrettyTFVars", "toTFVars", "toQuotedJson", "toQuotedHcl", "toQuotedTFVars", "toInternalHcl", "toBash", "keys", "values", "string", "toString", "printf `%v`", "print", "deepCopy", "toRawJson"}

// dataLine is a line whose result depends on collections.
func dataLine(r *rand.Rand) string {
	s := pick(r, serializers...)
	d := pick(r, ".mapA", ".mapB", "(merge .mapA .mapB)", "(merge .mapB .mapA)", "(omit .mapA `a`)", "(pick .mapA `a` `nest`)", "(dict `z` 1 `y` .mapA `x` .listA)", "(mergeOverwrite (dict `a` 1) .mapB)", "(fromJson (toJson .mapA))", "(fromYaml (toYaml .mapB))", "(merge (dict `a` 0) .mapA .mapB)", "(data .strA)", ".mapA.Clone", "(.mapA.Clone `a` `nest`)", "userContext", ".")
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		return "{{ " + s + " " + d + " }}"
	case 6:
		return "@range($k, $v := mapA) {{ $k }}={{ $v }}, @end"
	case 7:
		return "{{ " + pick(r, ".mapA", ".mapA.KeysAsString", ".mapB.GetKeys", ".mapA.GetValues", ".mapA.PrettyPrint", ".mapB.Len", "pluck `id` .mapA .mapB", ".mapA | toJson | sha256sum", "get .mapA `a`", "hasKey .mapB `a`", "lenc .mapA", ".maps", "list .mapA .mapB", "toString .maps", ".Transpose", ".mapA.Transpose", ".mapA.GetTypes", ".mapA.GetKinds", ".mapA.Native", "pickv .mapA `a`", "extract .mapA `a`", "union .listA .nums | toJson", "uniq .listA", "unique .nums .nums", "intersect .nums .nums", "without .listA 1", "removeEmpty .listA") + " }}"
	case 8:
		return pick(r, "{{ len functions }} {{ join ` ` functions }}", "{{ range categories }}{{ .Name }}: {{ join ` ` .Functions }}{{ end }}", "{{ join ` ` aliases }}", "{{ join ` ` allFunctions }}", "{{ (function `add`).Aliases }} {{ (function `merge`).Signature }}", "{{ join ` ` templateNames }}", "{{ getSignature .mapA }}", "{{ getMethods .listA }}", "{{ range (function `toJson`).Examples }}{{ .Razor }}{{ .Result }}{{ end }}")
	case 9:
		return pick(r, "@include(`{{ toJson .mapA }}{{ .x }}`, dict(\"x\", 1))", "{{ include `@(intA + 1) {{ keys . }}` . }}", "{{ include `{{ .ARGS }}` 1 2 .mapA }}", "{{ include `{{ ._.intA }}{{ toYaml .mapB }}` }}", "{{ template `T` . }}")
	case 10:
		return pick(r, "@for($i, $v := listA) @i;:@v; @end", "@with(mapA) {{ toJson . }} @end", "@{x} := mapB\n@toYaml($x)", "@(intA * 3 + 2) @strA; @mapA.nest.y[2].z;", "@toJson(data(strA))", "{{ $m := dict }}{{ range $k, $v := .mapB }}{{ set $m $k 1 }}{{ end }}{{ $m }}")
	}
	return "{{ range $i, $e := " + pick(r, "(keys .mapA)", "(values .mapB)", ".mapB", "(merge .mapA .mapB)", ".maps", ".listA") + " }}{{ $i }}: {{ $e }}\n{{ end }}"
}

// mutator is a line that alters what it is given.
func mutator(r *rand.Rand) string {
	k := pick(r, "a", "nest", "new"+safeWord(r), "both")
	return pick(r, "{{ set .mapA `"+k+"` 99 }}", "{{ $_ := set . `intA` 1000 }}", "@intA := 77", "@mapA.a := 5", "@mapA.nest := dict(`w`, 3)", "@.new"+safeWord(r)+" := 3", "@strA := \"changed\"", "{{ $_ := .mapA.Set `"+k+"` .listA }}", "{{ $_ := .mapA.Delete `a` }}", "{{ .mapB.Flush }}", "{{ .mapA.Flush `a` }}",
		"{{ .mapA.Pop `a` }}", "{{ .mapA.nest.Set `x` 55 }}", "{{ .mapA.Merge .mapB }}", "{{ .mapA.Add `a` 3 }}", "{{ .listA.Set 0 `zero` }}", "{{ $_ := .listA.Set 12 5 }}", "{{ index .listA 5 | set `q` 1 }}", "{{ $m := index .maps 0 }}{{ $m.Set `id` 100 }}", "{{ unset .mapA `a` }}", "{{ merge .mapA .mapB }}", "{{ mergeOverwrite .mapA .mapB }}",
		"{{ with .mapA.nest }}{{ .Set `x` 9 }}{{ end }}", "{{ $_ := (index .mapA.nest.y 2).Set `z` 0 }}", "{{ include `{{ set .mapA \"a\" 12 }}{{ .Set \"intA\" 5 }}{{ .mapB.Flush }}` . }}", "{{ include `{{ set .mapA \"a\" 12 }}{{ .mapB.Flush }}` }}", "{{ include `{{ $_ := set . \"x\" 12 }}{{ $_ := set .nest \"x\" 3 }}` .mapA }}", "{{ append .listA 9 }}{{ prepend 8 .nums }}", "{{ .listA.Append 9 }}{{ .nums.Reverse }}",
		"{{ .nums.Pop }}{{ .nums.Remove 0 }}", "{{ set .listA 0 9 }}", "{{ sortAlpha .nums }}{{ reverse .nums }}", "@nums = list(1)", "@mapB = 3", "@mapA.a += 3", "@NL := 3", "@true := false", "{{ set . `Math` 3 }}", "{{ .mapA.Clone.Set `a` 3 }}", "@{x} := mapA\n@{y} := set($x, `a`, 44)", "@list(1, 2).Set(0, 3)", "{{ .Flush }}", "{{ unset . `intA` }}", "{{ omit .mapA `a` | set `b` 2 }}", "{{ setSprig .mapA `a` 45 }}", "{{ unsetSprig .mapA `nest` }}", "{{ mergeSprig .mapA .mapB }}", "{{ remove .nums 0 }}", "{{ delete .mapA `a` }}")
}

var faulty = []string{"{{ fail `broken` }}", "{{ div 1 0 }}", "{{ .nope.x.y }}", "{{ nofunc }}", "{{ if }}", "@raise(`oops`)", "{{ index .nums 30 }}", "{{ include `{{ fail \"in\" }}` . }}", "@end"}

type document struct{ name, text string }

// genDocument builds a document over engineContext (and the context of g).
func genDocument(r *rand.Rand, g *rgen, mutate, fail int) document {
	var parts []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch {
		case r.Intn(4) == 0:
			parts = append(parts, strings.TrimSuffix(g.lines(1+r.Intn(3), 2).rz, "\n"))
		default:
			parts = append(parts, dataLine(r))
		}
	}
	insert := func(s string) {
		at := r.Intn(len(parts) + 1)
		parts = append(parts[:at], append([]string{s}, parts[at:]...)...)
	}
	for i := 0; i < mutate; i++ {
		insert(mutator(r))
	}
	for i := 0; i < fail; i++ {
		insert(pick(r, faulty...))
	}
	name := pick(r, "a", "b/c", "b/d/e", "../f") + fmt.Sprintf("/doc%d", r.Intn(1000)) + pick(r, ".gt", ".txt", ".template", "")
	text := strings.Join(parts, "\n") + "\n"
	if strings.Contains(text, "template `T`") {
		text = "{{ define `T` }}T:{{ .intA }} {{ keys . }}{{ end }}" + text
		name = fmt.Sprintf("own%d/%s", r.Intn(1000000), filepath.Base(name))
	}
	if strings.Contains(text, "templateNames") { // the templates of a folder see each other
		name = fmt.Sprintf("own%d/%s", r.Intn(1000000), filepath.Base(name))
	}
	return document{name, text}
}

// freshContext gives an independent copy of ctx (inserted in random order).
func freshContext(ctx map[string]interface{}) map[string]interface{} {
	return deepCopy(ctx).(map[string]interface{})
}

type outcome struct{ text, err string }

func (o outcome) String() string {
	if o.err != "" {
		return fmt.Sprintf("%q (error %s)", clip(o.text, 1500), clip(o.err, 1500))
	}
	return fmt.Sprintf("%q", clip(o.text, 1500))
}

func process(t *template.Template, d document) (o outcome) {
	defer func() {
		if rec := recover(); rec != nil {
			o = outcome{"", fmt.Sprint("PANIC ", rec)}
		}
	}()
	res, err := t.ProcessContent(d.text, d.name)
	o.text = res
	if err != nil {
		o.err = err.Error()
	}
	return
}

func newEngineCase(r *rand.Rand) (*rgen, map[string]interface{}) {
	g := newRgen(r)
	ctx := engineContext(r)
	for k, v := range g.ctx {
		ctx[k] = v
	}
	return g, ctx
}

func engineOptions(r *rand.Rand) template.OptionsSet {
	o := template.DefaultOptions()
	o[template.StrictErrorCheck] = r.Intn(3) > 0
	o[template.AcceptNoValue] = r.Intn(3) == 0
	return o
}

func copyOptions(o template.OptionsSet) template.OptionsSet {
	n := template.OptionsSet{}
	for k, v := range o {
		n[k] = v
	}
	return n
}

// determinismSuite: the same document, context and options always give the same thing.
func determinismSuite(c *Ctx) {
	r := c.Rng
	g, ctx := newEngineCase(r)
	o := engineOptions(r)
	d := genDocument(r, g, pick(r, 0, 0, 1, 2), pick(r, 0, 0, 0, 1, 2))
	var first outcome
	n := 4
	for i := 0; i < n; i++ {
		t := newTemplate(freshContext(ctx), "", copyOptions(o))
		got := process(t, d)
		if i == 0 {
			first = got
		} else if got != first {
			c.Fail("unstable", "document %s %q\ncontext %s\ngives    %s\nand then %s", d.name, d.text, js(ctx), first, got)
			break
		}
	}
	if strings.HasPrefix(first.err, "PANIC") {
		c.Fail("panic", "document %s %q\n%s", d.name, d.text, first.err)
	}
	c.Event(map[bool]string{true: "documents with an error", false: "documents rendered"}[first.err != ""])
	c.Obs(d.text, true)
}

// unstableFunctions are random, depend on the time, the machine or the network, or have documented unspecified order.
var unstableFunctions = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`bcrypt htpasswd encryptAES buildCustomCert genCA genCAWithKey genPrivateKey genSelfSignedCert genSelfSignedCertWithKey genSignedCert genSignedCertWithKey derivePassword randBytes
		ago now date dateInZone date_in_zone dateModify date_modify htmlDate htmlDateInZone toDate unixEpoch GUID guid uuid uuidv4 randInt randAlpha randAlphaNum randAscii randNumeric shuffle lorem loremIpsum
		keysSprig valuesSprig curl httpDoc httpDocument httpGet getHostByName exit exec execute run save write writeTo read readFrom load
		panic panicf fatal fatalf critical criticalf error errorf warn warnf warning warningf notice noticef info infof debug debugf trace tracef assertWarning assertw
		alias localAlias func call substitute completeExamples currentBranch currentCommit origin diff difference`) {
		unstableFunctions[f] = true
	}
}

var registry []string

func loadRegistry(c *Ctx) {
	t := newTemplate(nil, "", strictOptions())
	out, err := t.ProcessContent("{{ range allFunctions }}{{ . }}\n{{ end }}", "list.gt")
	must0(err)
	registry = nil
	for _, f := range strings.Fields(out) {
		if !unstableFunctions[f] {
			registry = append(registry, f)
		}
	}
	sort.Strings(registry)
	if len(registry) < 400 {
		panic(fmt.Sprint("only ", len(registry), " functions"))
	}
}

var smallArgs = []string{".mapA", ".mapB", ".listA", ".nums", ".maps", ".strA", ".intA", "2", "3", "-1", "0", "1.5", "true", "`abc`", "`a`", "`a,b c`", "`%v`", "``", "(list 1 2 3)", "(list `b` `a`)", "(dict `a` 1)", "`{\"a\": 1, \"b\": [1, 2]}`", "`a: 1`", "`nest`", "`k`", "`[a-c]+`", "5", ".none", "(index .maps 1)", "`1.2.3`", "`x y\nz`"}

func functionCall(r *rand.Rand) string {
	f := pick(r, registry...)
	call := "{{ " + f
	for i := pick(r, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4); i > 0; i-- {
		call += " " + pick(r, smallArgs...)
	}
	return call + " }}"
}

// functionsSuite: calls of all the registered functions.
func functionsSuite(c *Ctx) {
	r := c.Rng
	ctx := engineContext(r)
	o := engineOptions(r)
	for i := 0; i < 20; i++ {
		code := functionCall(r)
		if r.Intn(3) == 0 {
			code = "{{ toJson (" + strings.TrimSuffix(strings.TrimPrefix(code, "{{ "), " }}") + ") }}"
		}
		d := document{"f.gt", code}
		var first outcome
		for j := 0; j < 3; j++ {
			got := process(newTemplate(freshContext(ctx), "", copyOptions(o)), d)
			if j == 0 {
				first = got
			} else if got != first {
				if strings.Contains(got.text+got.err, "0xc0") || strings.Contains(got.text+got.err, "0x") && strings.Contains(first.text+first.err, "0x") {
					c.Event("discarded (the result shows an address)")
					break
				}
				c.Fail("unstable-function", "%s\ncontext %s\ngives    %s\nand then %s", code, js(ctx), first, got)
				break
			}
		}
		if strings.HasPrefix(first.err, "PANIC") {
			c.Fail("panic", "%s\n%s", code, first.err)
		}
		if first.err == "" {
			c.Event("calls succeeded")
		} else {
			c.Event("calls in error")
		}
		c.Obs(code+js(ctx["mapA"]), first.err == "")
	}
}

// processesSuite: the command line gives the same bytes in different processes.
func processesSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	g, ctx := newEngineCase(r)
	d := genDocument(r, g, 0, pick(r, 0, 0, 0, 1))
	name := "doc" + pick(r, ".gt", ".txt")
	writeFile(filepath.Join(dir, name), d.text, 0644)
	writeFile(filepath.Join(dir, "vars.json"), js(ctx), 0644)
	more := bigMap(r, 4)
	writeFile(filepath.Join(dir, "more.json"), js(more), 0644)
	var firstOut, firstErr string
	var firstCode int
	for i := 0; i < 3; i++ {
		out, errOut, code := runCLI(dir, "", nil, "-P", "--import", "vars.json", "--import", "more.json", name)
		if i == 0 {
			firstOut, firstErr, firstCode = out, errOut, code
		} else if out != firstOut || code != firstCode || stripTime(errOut) != stripTime(firstErr) {
			c.Fail("unstable-process", "document %q\nvariables %s %s\nexit %d then %d\noutput   %q\nand then %q\nstderr   %q\nand then %q", d.text, js(ctx), js(more), firstCode, code, clip(firstOut, 1500), clip(out, 1500), clip(firstErr, 800), clip(errOut, 800))
			break
		}
	}
	c.Event("processes", 3)
	c.Obs(d.text, true)
}

func stripTime(s string) string {
	return timestamp.ReplaceAllString(ansi.ReplaceAllString(s, ""), "TIME")
}

// ---- P07 -----------------------------------------------------------------------------------------

func withoutConstants(m map[string]interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range m {
		switch k {
		case "CR", "NL", "NEWLINE", "true", "false", "null", "Math", "MATH":
		default:
			out[k] = v
		}
	}
	return out
}

// sequenceSuite: in a single engine, each document gives what it gives alone, and the context is never altered.
func sequenceSuite(c *Ctx) {
	r := c.Rng
	g, ctx := newEngineCase(r)
	o := engineOptions(r)
	given := freshContext(ctx)
	shared := newTemplate(given, "", copyOptions(o))
	before := canonLoose(ctx)
	var seen []string
	for i := 2 + r.Intn(4); i > 0; i-- {
		d := genDocument(r, g, pick(r, 0, 1, 1, 2, 3), pick(r, 0, 0, 0, 1, 2))
		seen = append(seen, fmt.Sprintf("%s %q", d.name, d.text))
		alone := process(newTemplate(freshContext(ctx), "", copyOptions(o)), d)
		got := process(shared, d)
		if got != alone {
			c.Fail("leak", "document %s %q\ngives    %s\nalone and %s\nafter    %s\ncontext %s", d.name, d.text, alone, got, strings.Join(seen[:len(seen)-1], "\n         "), js(ctx))
			return
		}
		if strings.HasPrefix(got.err, "PANIC") {
			c.Fail("panic", "document %s %q\n%s", d.name, d.text, got.err)
		}
		after := withoutConstants(shared.Context().AsMap())
		if canonLoose(after) != before {
			c.Fail("altered-context", "document %s %q alters the context\nbefore %s\nafter  %s", d.name, d.text, before, canonLoose(after))
			return
		}
		if canonLoose(withoutConstants(given)) != before {
			c.Fail("altered-source", "document %s %q alters the map supplied by the caller\nbefore %s\nafter  %s", d.name, d.text, before, canonLoose(given))
			return
		}
		if alone.err != "" {
			c.Event("failing documents")
		} else {
			c.Event("rendered documents")
		}
		c.Obs(d.text, true)
	}
}

// pureSuite: no function call alters the context of the engine.
func pureSuite(c *Ctx) {
	r := c.Rng
	ctx := engineContext(r)
	o := engineOptions(r)
	shared := newTemplate(freshContext(ctx), "", copyOptions(o))
	before := canonLoose(ctx)
	for i := 0; i < 30; i++ {
		code := functionCall(r)
		if r.Intn(4) == 0 {
			code = "{{ include `" + strings.ReplaceAll(code, "`", `"`) + "` . }}"
		}
		got := process(shared, document{"f.gt", code})
		after := canonLoose(withoutConstants(shared.Context().AsMap()))
		if after != before {
			c.Fail("altered-by-function", "%s alters the context\nbefore %s\nafter  %s", code, before, after)
			return
		}
		c.Event(map[bool]string{true: "calls in error", false: "calls succeeded"}[got.err != ""])
		c.Obs(code+js(ctx["mapA"]), got.err == "")
	}
}

// enginesSuite: several engines with different delimiters, options and contexts used in turn.
func enginesSuite(c *Ctx) {
	r := c.Rng
	type eng struct {
		g      *rgen
		ctx    map[string]interface{}
		o      template.OptionsSet
		delims string
		subs   []string
		t      *template.Template
	}
	mk := func(e *eng) *template.Template {
		return newTemplate(freshContext(e.ctx), e.delims, copyOptions(e.o), e.subs...)
	}
	var list []*eng
	for i := 2 + r.Intn(2); i > 0; i-- {
		e := &eng{o: engineOptions(r)}
		e.g, e.ctx = newEngineCase(r)
		if r.Intn(2) == 0 {
			e.delims = pick(r, "[[,]],§", "<<,>>", ",,§", "⟦,⟧,§")
		}
		if r.Intn(3) == 0 {
			e.subs = []string{"/hello/bye", "/X+/y"}
		}
		if r.Intn(3) == 0 {
			e.o[pick(r, template.Razor, template.Math, template.Sprig, template.Logging, template.Runtime, template.Utils)] = false
		}
		e.t = mk(e)
		list = append(list, e)
	}
	var log []string
	for i := 4 + r.Intn(5); i > 0; i-- {
		n := r.Intn(len(list))
		e := list[n]
		d := genDocument(r, e.g, pick(r, 0, 1, 2), pick(r, 0, 0, 1))
		if e.delims != "" && r.Intn(4) > 0 {
			p := append(strings.Split(e.delims, ","), "")
			d.text = strings.NewReplacer("{{", iifs(p[0] != "", p[0], "{{"), "}}", iifs(p[1] != "", p[1], "}}"), "@", iifs(p[2] != "", p[2], "@")).Replace(d.text)
		}
		log = append(log, fmt.Sprintf("engine %d: %s %q", n, d.name, d.text))
		alone := process(mk(e), d)
		got := process(e.t, d)
		if got != alone {
			c.Fail("engines", "document %s %q\ngives    %s\nalone and %s\nafter    %s\ndelimiters %q", d.name, d.text, alone, got, strings.Join(log[:len(log)-1], "\n         "), e.delims)
			return
		}
		c.Event("documents")
		c.Obs(d.text, true)
	}
}

// contextsSuite: the contexts obtained from an engine have their own options, whatever is set in the engine or in the others afterwards.
func contextsSuite(c *Ctx) {
	r := c.Rng
	g, ctx := newEngineCase(r)
	type member struct {
		t    *template.Template
		o    template.OptionsSet // what it must do
		used bool
	}
	delims := pick(r, "", "", ",,§", "[[,]],@")
	o := engineOptions(r)
	first := newTemplate(freshContext(ctx), delims, copyOptions(o))
	list := []*member{{first, copyOptions(o), false}}
	var log []string
	for i := 5 + r.Intn(8); i > 0; i-- {
		n := r.Intn(len(list))
		m := list[n]
		switch {
		case r.Intn(4) == 0 && len(list) < 5:
			cache := r.Intn(3) == 0
			folder := pick(r, "", ".")
			if cache {
				folder = fmt.Sprintf("/tmp/verif-no-such-folder-%d", i) // a cached context is the same for the same folder
			}
			list = append(list, &member{m.t.GetNewContext(folder, cache), copyOptions(m.o), false})
			log = append(log, fmt.Sprintf("%d = context of %d (%q, %v)", len(list)-1, n, folder, cache))
			c.Event("contexts")
		case r.Intn(3) == 0 && !m.used:
			option, value := pick(r, template.Razor, template.StrictErrorCheck, template.AcceptNoValue, template.RenderingDisabled), r.Intn(2) == 0
			m.t.SetOption(option, value)
			m.o[option] = value
			log = append(log, fmt.Sprintf("%d: option %v = %v", n, option, value))
			c.Event("options set")
		default:
			m.used = true
			d := genDocument(r, g, pick(r, 0, 1, 2), pick(r, 0, 0, 1))
			if delims != "" {
				p := strings.Split(delims, ",")
				d.text = strings.NewReplacer("{{", iifs(p[0] != "", p[0], "{{"), "}}", iifs(p[1] != "", p[1], "}}"), "@", p[2]).Replace(d.text)
			}
			alone := process(newTemplate(freshContext(ctx), delims, copyOptions(m.o)), d)
			got := process(m.t, d)
			log = append(log, fmt.Sprintf("%d: %s %q", n, d.name, d.text))
			if got != alone {
				c.Fail("contexts", "document %s %q\ngives    %s\nalone and %s\nafter    %s", d.name, d.text, got, alone, strings.Join(log, "\n         "))
				return
			}
			c.Event("documents")
			c.Obs(d.text, true)
		}
	}
}

func iifs(t bool, a, b string) string {
	if t {
		return a
	}
	return b
}

// batchSuite: on the command line, each file gives what it gives alone, whatever the other files.
func batchSuite(c *Ctx) {
	r := c.Rng
	g, ctx := newEngineCase(r)
	type fileDoc struct{ name, text string }
	var docs []fileDoc
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		d := genDocument(r, g, pick(r, 0, 1, 1, 2), pick(r, 0, 0, 0, 1))
		text := strings.ReplaceAll(d.text, "template `T`", "include `T`") // each folder has its own definitions
		if strings.Contains(text, "define `T`") {
			text = strings.Replace(strings.ReplaceAll(text, "`T`", fmt.Sprintf("`T%d`", i)), "", "", 1)
		}
		text = strings.NewReplacer("templateNames", "list").Replace(text)
		docs = append(docs, fileDoc{fmt.Sprintf("%sdoc%d%s", pick(r, "", "sub/", "sub/deep/"), i, pick(r, ".gt", ".txt", ".ext.gt", ".template")), text})
	}
	setup := func(dir string, files []fileDoc) {
		writeFile(filepath.Join(dir, "vars.json"), js(ctx), 0644)
		for _, f := range files {
			must0(os.MkdirAll(filepath.Dir(filepath.Join(dir, f.name)), 0755))
			writeFile(filepath.Join(dir, f.name), f.text, 0644)
		}
	}
	base := c.Dir()
	args := []string{"--import", "../vars.json", "--target", "../out"}
	together, codes := map[string]string{}, 0
	alone := map[string]string{}
	order := r.Perm(n)
	run := func(dir string, files []fileDoc) int {
		setup(dir, files)
		must0(os.MkdirAll(filepath.Join(dir, "src"), 0755))
		for _, f := range files {
			to := filepath.Join(dir, "src", f.name)
			must0(os.MkdirAll(filepath.Dir(to), 0755))
			must0(os.Rename(filepath.Join(dir, f.name), to))
		}
		a := append([]string{}, args...)
		for _, f := range files {
			a = append(a, f.name)
		}
		_, errOut, code := runCLI(filepath.Join(dir, "src"), "", nil, a...)
		if strings.Contains(errOut, "panic:") {
			c.Fail("panic", "%v\n%s", a, clip(errOut, 2000))
		}
		return code
	}
	var shuffled []fileDoc
	for _, i := range order {
		shuffled = append(shuffled, docs[i])
	}
	codes = run(filepath.Join(base, "all"), shuffled)
	together = readTree(filepath.Join(base, "all", "out"))
	worst := 0
	for i, d := range docs {
		dir := filepath.Join(base, fmt.Sprint("one", i))
		if code := run(dir, []fileDoc{d}); code > worst {
			worst = code
		}
		for k, v := range readTree(filepath.Join(dir, "out")) {
			alone[k] = v
		}
	}
	if canon(asAny(together)) != canon(asAny(alone)) || codes != worst {
		diff := ""
		for k := range alone {
			if alone[k] != together[k] {
				diff += fmt.Sprintf("%s: alone %q\ntogether %q\n", k, clip(alone[k], 800), clip(together[k], 800))
			}
		}
		c.Fail("batch", "documents %q\nexit code %d together, %d at worst alone\nfiles together %v\nfiles alone    %v\n%s", shuffled, codes, worst, sortedKeys(together), sortedKeys(alone), diff)
	}
	c.Event("files", n)
	c.Obs(fmt.Sprint(docs), true)
}

func asAny(m map[string]string) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// readTree gives the content of all the files under dir.
func readTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(must1(os.ReadFile(p)))
		}
		return nil
	})
	return out
}

var _ = collections.AsDictionary

func init() {
	register(&Property{
		ID:   "P06",
		Rule: "one evaluation is one document or function call rendered several times; distinct by content, calls in error do not count",
		Suites: []Suite{
			{Name: "documents", Quick: 3000, Thorough: 100000, Run: determinismSuite, Need: []string{"documents rendered", "documents with an error"}},
			{Name: "functions", Quick: 700, Thorough: 30000, Run: functionsSuite, Once: loadRegistry},
			{Name: "processes", Quick: 150, Thorough: 3000, Run: processesSuite},
		},
	})
	register(&Property{
		ID:   "P07",
		Rule: "one evaluation is one document rendered alone and after others; distinct by content",
		Suites: []Suite{
			{Name: "sequence", Quick: 2500, Thorough: 80000, Run: sequenceSuite, Need: []string{"failing documents", "rendered documents"}},
			{Name: "functions", Quick: 700, Thorough: 30000, Run: pureSuite, Once: loadRegistry},
			{Name: "engines", Quick: 400, Thorough: 15000, Run: enginesSuite},
			{Name: "contexts", Quick: 500, Thorough: 20000, Run: contextsSuite, Need: []string{"contexts", "options set"}},
			{Name: "batch", Quick: 100, Thorough: 2000, Run: batchSuite},
		},
	})
}

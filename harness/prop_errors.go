package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/template"
)

// ---- P05: undefined values and errors ---------------------------------------------------

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var timestamp = regexp.MustCompile(`\d\d:\d\d:\d\d[.\d]*`)
var reportedLine = regexp.MustCompile(`(?m)^\S+?:(\d+)(:\d+)?: `)

func errorsContext() map[string]interface{} {
	return map[string]interface{}{"value": "VAL", "num": 5, "zero": 0, "empty": "", "off": false, "none": nil, "d": map[string]interface{}{"a": 1}, "l": []interface{}{1, 2, 3}, "nolist": []interface{}{}}
}

// badAction gives code that cannot be evaluated (exec) or parsed.
func badAction(r *rand.Rand) (code string, parse bool) {
	w := safeWord(r)
	if r.Intn(3) == 0 {
		return pick(r, "{{ nofunc"+w+" 1 }}", "@($undef"+w+");", "{{ $zz"+w+" }}", `{{ "abc `+w+` }}`, "{{ (slice 5 }}", "{{ 1a }}", "{{ add 1 2) }}", "{{ .a..b }}", "@no"+w+"(1, 2);"), true
	}
	return pick(r, "{{ div 1 0 }}", `{{ fail "`+w+`" }}`, `{{ raise "`+w+`" }}`, `@raise("`+w+`");`, "{{ index (list 1 2) 5 }}", `@{v`+w+`} := fail("a")`, `{{ include "zz`+w+`" }}`,
		`{{ template "zz`+w+`" . }}`, "{{ upper 1 2 3 }}", `{{ assert false "`+w+`" }}`, "{{ $.num.x }}", `@substr(2, 3, "a");`, "{{- div $.num $.zero -}}", "@(num / zero);", `{{ slice 4 5 }}`,
		`{{ fail "a b <c> (d) : `+w+`" }}`, "{{ upper }}", "{{ list 1 2 | slice 3 }}", "@fail(\"multi\\nline\");", `{{ fromJson "{" }}`, `{{ $q := div 1 0 }}`, `{{ mod 5 "x" }}`), false
}

var goodLines = []string{"text", "a {{ add 1 2 }} b", "@(num + 1); x", "@value;", "<no value> and <nil>", `{{ "<no value>" }}`, "", "a: @l[0];", "@{x} := 3", "{{ .num }} {{ .value }}", "user@example.com", "@@home", "{{ upper `a` }}", "  - {{ .d.a }}",
	"x {{/* comment */}} y", "@# a comment", "template: monitored.txt:1: hello", "ERROR in text"}

// errorLinesSuite: every line in error is reported, with its number, and no other line.
func errorLinesSuite(c *Ctx) {
	r := c.Rng
	var lines []string
	want := map[int]bool{}
	var end []string
	dead := 0 // the code is not executed
	n := 3 + r.Intn(14)
	for i := 0; i < n; i++ {
		switch k := r.Intn(10); {
		case k < 3:
			code, parse := badAction(r)
			before, after := pick(r, "", "x ", "a: ", "{{ add 1 2 }} ", "é "), pick(r, "", " y", " {{ add 1 2 }}", " # z")
			if strings.HasPrefix(code, "@{v") {
				before, after = "", ""
			}
			if strings.Contains(code, `"abc`) {
				after = ""
			}
			lines = append(lines, before+code+after)
			if parse || dead == 0 {
				want[len(lines)] = true
			}
			c.Event(map[bool]string{true: "parsing error", false: "execution error"}[parse])
		case k == 3 && len(end) < 3:
			kind := r.Intn(5)
			lines = append(lines, []string{"@if (true)", "{{ if $.num }}", "@range(l)", "@with (d)", "{{ if $.zero }}"}[kind])
			e := "@end"
			if kind == 4 || dead > 0 {
				dead++
			}
			if r.Intn(2) == 0 {
				e = "{{ end }}"
			}
			end = append(end, e)
		case k == 4 && len(end) > 0:
			lines = append(lines, end[len(end)-1])
			end = end[:len(end)-1]
			if dead > 0 {
				dead--
			}
		default:
			l := pick(r, goodLines...)
			if len(end) > 0 && (strings.Contains(l, " .") || strings.Contains(l, "(.")) {
				l = "inner @num;"
			}
			lines = append(lines, l)
		}
	}
	for len(end) > 0 {
		lines = append(lines, end[len(end)-1])
		end = end[:len(end)-1]
	}
	src := strings.Join(lines, "\n")
	name := pick(r, "monitored.txt", "monitored.gt", "x/y.template")
	t := newTemplate(errorsContext(), "", strictOptions())
	_, err := t.ProcessContent(src, name)
	if len(want) == 0 {
		if err != nil {
			c.Fail("no-error", "document\n%s\ngives an error %v", src, err)
		}
		c.Event("document without error")
		c.Obs(src, true)
		return
	}
	if err == nil {
		c.Fail("silent", "document\n%s\ngives no error, lines %v are wrong", src, intKeys(want))
		return
	}
	text := ansi.ReplaceAllString(err.Error(), "")
	got := map[int]bool{}
	for _, m := range reportedLine.FindAllStringSubmatch(text, -1) {
		if strings.HasPrefix(m[0], name+":") {
			var n int
			fmt.Sscan(m[1], &n)
			got[n] = true
		}
	}
	if fmt.Sprint(intKeys(got)) != fmt.Sprint(intKeys(want)) {
		c.Fail("lines", "document\n%s\nreports the lines %v instead of %v\n%s", src, intKeys(got), intKeys(want), text)
	}
	for n := range want {
		if !strings.Contains(text, "in: "+lines[n-1]+"\n") && !strings.HasSuffix(text, "in: "+lines[n-1]) {
			c.Fail("line-text", "document\n%s\nthe report does not show the line %d\n%s", src, n, text)
		}
	}
	c.Event("lines reported", len(want))
	c.Obs(src, true)
}

func intKeys(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

type modeLine struct{ src, want string }

// undefinedLine gives code that renders an undefined value, and its rendering when they are accepted.
func undefinedLine(r *rand.Rand) modeLine {
	w := safeWord(r)
	a := pick(r, "", w+" ")
	nv := pick(r, "{{ .nope"+w+" }}", "@nope"+w+";", "@.nope"+w+";", "{{ $.d.nope }}", "@d.nope;", "{{ .none }}", "{{ $.nope.x.y }}", "@(nope."+w+");", "{{- .none -}}", "{{ get . `nope` }}", "@{z"+w+"} := nope;@{z"+w+"}", "{{ with . }}{{ .nope }}{{ end }}")
	if r.Intn(4) == 0 {
		return modeLine{a + pick(r, `{{ printf "%v" .none }}`, `@printf("%v", nope);`), a + "<nil>"}
	}
	m := modeLine{a + nv, a + "<no value>"}
	if strings.HasPrefix(nv, "@{z") { // the assignment eats the spaces before it
		m = modeLine{"v" + nv, "v<no value>"}
	}
	if nv == "{{- .none -}}" {
		return modeLine{"v{{- .none -}} w", "v<no value>w"}
	}
	return m
}

// definedLine gives code that only looks at an undefined value.
func definedLine(r *rand.Rand) modeLine {
	return pick(r, modeLine{"@if (nope) a; b", " b"}, modeLine{`{{ .nope | default "z" }}`, "z"}, modeLine{"{{ if .none }}{{ .nope }}{{ end }}x", "x"}, modeLine{"{{ isNil .nope }}", "true"}, modeLine{`@undef("q", nope);`, "q"},
		modeLine{"{{ range .nope }}x{{ end }}y", "y"}, modeLine{"@(zero)", "0"}, modeLine{"@(off);", "false"}, modeLine{"[{{ .empty }}]", "[]"}, modeLine{"{{ .nolist }}", "[]"}, modeLine{"{{ with .nope }}{{ . }}{{ else }}w{{ end }}", "w"},
		modeLine{"<no value>", "<no value>"}, modeLine{"<nil> {{ add 1 1 }}", "<nil> 2"}, modeLine{"{{ isSet .nope }}", "false"}, modeLine{`{{ hasKey . "nope" }}`, "false"}, modeLine{"@iif(nope, 1, 2);", "2"})
}

// modesSuite: the outcome depends on what the document holds and on the mode.
func modesSuite(c *Ctx) {
	r := c.Rng
	var src, want []string
	undefined, bad := 0, 0
	add := func(m modeLine) { src, want = append(src, m.src), append(want, m.want) }
	what := r.Intn(4) // 0: nothing, 1: undefined, 2: error, 3: both
	for i := 1 + r.Intn(6); i > 0; i-- {
		if r.Intn(2) == 0 {
			add(definedLine(r))
		} else {
			w := safeWord(r)
			add(modeLine{w + " @(num + 1);", w + " 6"})
		}
	}
	insert := func(m modeLine) {
		at := r.Intn(len(src) + 1)
		src = append(src[:at], append([]string{m.src}, src[at:]...)...)
		want = append(want[:at], append([]string{m.want}, want[at:]...)...)
	}
	if what == 1 || what == 3 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			insert(undefinedLine(r))
			undefined++
		}
	}
	if what >= 2 {
		code, _ := badAction(r)
		insert(modeLine{code, ""})
		bad++
	}
	o := template.DefaultOptions()
	strictFlag, accept := r.Intn(3) == 0, r.Intn(3) == 0
	o[template.StrictErrorCheck], o[template.AcceptNoValue] = strictFlag, accept
	name := pick(r, "a.txt", "dir/a.tf", "monitored", "a.gt.txt", "agt", "a.gtx", "a.template.md", "a.gt", "b/c.gte", "a.b.template", "a.gt")
	force := r.Intn(5) == 0
	if force {
		insert(modeLine{"# force-gotemplate!", "# force-gotemplate!"})
	}
	strict := strictFlag || force
	for _, ext := range []string{".gt", ".gte", ".template"} {
		strict = strict || strings.HasSuffix(name, ext)
	}
	doc, full := strings.Join(src, "\n")+"\n", strings.Join(want, "\n")+"\n"
	if what != 2 && r.Intn(8) == 0 { // a script header is not part of the result
		doc = "#! /usr/bin/env gotemplate\n" + doc
	}
	t := newTemplate(errorsContext(), "", o)
	got, err := t.ProcessContent(doc, name)
	failing := bad > 0 || undefined > 0 && !accept
	desc := fmt.Sprintf("document %q named %s, strict option %v, accept no value %v", doc, name, strictFlag, accept)
	outcome := ""
	switch {
	case !failing:
		outcome = "rendered"
		if err != nil || got != full {
			c.Fail("rendered", "%s\nrenders  %q (%v)\nexpected %q", desc, got, err, full)
		}
	case strict:
		outcome = "error"
		if err == nil {
			c.Fail("strict", "%s\nrenders %q without error", desc, got)
		} else if bad == 0 && !strings.Contains(err.Error(), "undefined value") {
			c.Fail("strict-message", "%s\nreports %v", desc, err)
		}
	default:
		outcome = "left unchanged"
		if err != nil || got != doc {
			c.Fail("lenient", "%s\ngives %q (%v) instead of the source", desc, got, err)
		}
	}
	c.Event(outcome)
	if accept && undefined > 0 && bad == 0 {
		c.Event("undefined value accepted")
	}
	c.Obs(desc, true)
}

// cliErrorsSuite: the same through the command line: exit code, files.
func cliErrorsSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	what := r.Intn(4) // 0: nothing, 1: undefined, 2: error, 3: assignment of an unknown variable
	var src, want string
	src, want = safeWord(r)+" @(1 + 1);\n", ""
	want = strings.Replace(src, "@(1 + 1);", "2", 1)
	mode := ""
	switch what {
	case 1:
		m := undefinedLine(r)
		for strings.Contains(m.src, "d.nope") || strings.Contains(m.src, ".none") {
			m = undefinedLine(r)
		}
		src, want = src+m.src+"\n", want+m.want+"\n"
	case 2:
		code := pick(r, "{{ div 1 0 }}", `@raise("x");`, "{{ nofunc }}", "{{ $z }}", `{{ assert (eq 1 2) "no" }}`)
		src += code + "\n"
	case 3:
		v := pick(r, "@nope = 5;", "@nope.x = 5;", "@known = 5;", "@nope := 5;", "@zero += 2;", "@nope += 2;", "@empty = 1;", "@$.nope = 3;")
		if v == "@nope.x = 5;" {
			v = "@dict.x = 5;"
		}
		src, want = src+"["+v+"]\n", want+"[]\n"
		if strings.Contains(v, "known") || strings.Contains(v, "zero") || strings.Contains(v, "empty") || strings.Contains(v, ":=") {
			what = 4
		}
		want = strings.Replace(want, "[]", "]", 1)
		src = strings.Replace(src, "["+v, v, 1)
		want = strings.Replace(want, "\n]\n", "]\n", 1)
	}
	ext := pick(r, ".gt", ".txt", ".template")
	file := "file" + ext
	writeFile(filepath.Join(dir, file), src, 0644)
	args, env := []string{file, "-V", `{"known": 1, "zero": 0, "empty": "", "dict": {"a": 1}}`}, []string(nil)
	strict := ext != ".txt"
	if r.Intn(3) == 0 {
		strict = true
		if r.Intn(2) == 0 {
			args = append(args, pick(r, "--strict", "-S", "--strict-error-validation"))
		} else {
			env = append(env, "GOTEMPLATE_STRICT_ERROR="+pick(r, "1", "true"))
		}
	}
	accept := false
	if r.Intn(3) == 0 {
		accept = true
		if r.Intn(2) == 0 {
			args = append(args, pick(r, "--accept-no-value", "--no-value"))
		} else {
			env = append(env, "GOTEMPLATE_NO_VALUE=1")
		}
	}
	if what >= 3 {
		mode = pick(r, "on", "off", "warning", "")
		if mode != "" {
			args = append(args, "--strict-assignations-validation", mode)
		}
	}
	desc := fmt.Sprintf("%v %v on %q", args, env, src)
	stdout, stderr, code := runCLI(dir, "", env, args...)
	target := "file.generated"
	if ext == ".txt" {
		target = file
	}
	failing := what == 2 || what == 1 && !accept || what == 3 && mode == "on"
	content := func(n string) string {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return "(missing)"
		}
		return string(b)
	}
	files := []string{}
	for _, e := range must1(os.ReadDir(dir)) {
		files = append(files, e.Name())
	}
	expectFiles, expectCode, expectTarget := []string{file}, 0, want
	switch {
	case failing:
		expectTarget = "(missing)"
		if ext == ".txt" {
			expectTarget = src
		}
		if strict {
			expectCode = 1
		}
	case ext == ".txt":
		expectFiles = append(expectFiles, file+".original")
	default:
		expectFiles = append(expectFiles, target)
	}
	sort.Strings(expectFiles)
	if got := content(target); got != expectTarget || code != expectCode || fmt.Sprint(files) != fmt.Sprint(expectFiles) {
		c.Fail("cli", "%s\n%s is %q, expected %q\nexit %d, expected %d\nfiles %v, expected %v\nstdout %s\nstderr %s", desc, target, got, expectTarget, code, expectCode, files, expectFiles, clip(stdout, 500), clip(stderr, 1500))
	}
	if warned := strings.Contains(stderr, "does not exist, use := to declare"); what >= 3 {
		if should := what == 3 && mode != "off"; warned != should {
			c.Fail("assignment-warning", "%s\nwarning %v, expected %v\n%s", desc, warned, should, clip(stderr, 1500))
		}
		c.Event("assignment validation " + mode)
	}
	if failing && !strings.Contains(stderr, "file"+ext) {
		c.Fail("cli-silent", "%s\nthe error is not reported\n%s", desc, stderr)
	}
	c.Event(map[bool]string{true: "cli failing", false: "cli succeeding"}[failing])
	c.Obs(desc, true)
}

func init() {
	register(&Property{
		ID:   "P05",
		Rule: "one evaluation is one rendered document; distinct by content and mode",
		Suites: []Suite{
			{Name: "lines", Quick: 2500, Thorough: 100000, Run: errorLinesSuite, Need: []string{"parsing error", "execution error"}},
			{Name: "modes", Quick: 6000, Thorough: 200000, Run: modesSuite, Need: []string{"rendered", "error", "left unchanged"}},
			{Name: "cli", Quick: 600, Thorough: 10000, Run: cliErrorsSuite},
		},
	})
}

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
)

// P23: whatever the text, the processing ends, with a result or an error, and the engine stays usable.

const robustLimit = 40 * time.Second

// bounded runs f, tells if it ended and what it panicked with.
func bounded(f func()) (ended bool, what string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if rec := recover(); rec != nil {
				done <- fmt.Sprintf("%v\n%s", rec, clip(string(debug.Stack()), 3000))
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case what = <-done:
		return true, what
	case <-time.After(robustLimit):
		return false, ""
	}
}

var hostileTokens = []string{"{{", "}}", "{{-", "-}}", "{{ ", " }}", "@", "@(", "@{", "@if(", "@end", "@end if", "@for(", "@with(", "@else", "@range(", "@define(", "@template(", "@block(", "@include(", "@macro(", "@func(", "@alias(", "{{ end }}", "{{ else }}", "{{ define `x` }}", "{{ block `y` . }}", "{{/*", "*/}}", "/*", "*/", "\"", "`", "'", "(", ")", "[", "]", "{", "}", "|", ":=", "=", "+=", "<<", ">>", "$", "$.", ".", "..", "...", ",", ";", ":", "\\", "\x00", "\xff", "\xc3", "é", "世", "@@", "@#", "@//", "@-", "@_", "@<", "@>", "@-;", "#!", "#! gotemplate\n", "// ", "# ", "@reduce", "gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!", "no-gotemplate!", "no-razor!", "force-gotemplate!", "<no value>", "<nil>", "!NO_VALUE!", "!NIL_VALUE!", "\r\n", "\n", "\n", "{{ \n", "\r\n", "\t", " ", "\u00a0", "\u2028", "%", "%d", "%!s", "&&", "||", "!", "==", "!=", "-", "+", "*", "/", "~", "^", "0", "1", "-1", "1e3", "0x1", "1_0", "nil", "true", "@1", "@nil", "@.a.b.c", "@$x", "@x[", "@x[0]", "@x[1:]", "@(x?", "@assert(", "@raise(", "@return", "@break", "@continue", "@set(", "@var", "@local", "$_", "♠", "$&paused-left&$", "‹", "@func(`f`, `include`, `", "@{x}", "@{x", "@\"x\"", "error", "@autoIndent", "@<autoIndent(", "@-x-", "@---x---"}

// safety: what a document obtained by mutation could ask for by accident.
var stubbed = strings.Fields("run exec execute save write writeTo exit curl httpDoc httpDocument httpGet getHostByName genPrivateKey genCA genSelfSignedCert genSignedCert buildCustomCert derivePassword bcrypt htpasswd fatal fatalf sleep load read readFrom glob expand repeat randBytes until untilStep to")

var longNumber = regexp.MustCompile(`\d{5}|\de\d|\dE\d|0x[0-9a-fA-F]{4}|<<`)

// A document could put the context inside of one of its values: data which contain themselves are not supported.
var wholeContext = regexp.MustCompile(`(^|[\s(,=@])(\$|\.|\._|_|\$_|\$\.|\$\._)([\s),|;}%>\]-]|$)`)
var changesData = regexp.MustCompile(`(?i)set|merge|=|append|push|add|union|insert`)

func robustEngine(ctx map[string]interface{}, delims string, o template.OptionsSet) *template.Template {
	t := newTemplate(ctx, delims, o)
	stubs := map[string]interface{}{}
	for _, f := range stubbed {
		stubs[f] = func(args ...interface{}) string { return "stub" }
	}
	t.AddFunctions(stubs, "verif", template.FuncOptions{})
	return t
}

func mutateText(r *rand.Rand, text string, other func() string, tokens []string, n int) string {
	for ; n > 0; n-- {
		b := text
		at := r.Intn(len(b) + 1)
		to := at + r.Intn(1+min(12, len(b)-at))
		switch r.Intn(9) {
		case 0:
			text = b[:at] + b[to:]
		case 1:
			text = b[:at] + b[at:to] + b[at:to] + b[to:]
		case 2, 3, 4:
			text = b[:at] + pick(r, tokens...) + b[at:]
		case 5:
			text = b[:at] + pick(r, tokens...) + b[to:]
		case 6:
			if r.Intn(3) == 0 {
				text = b[:at]
			} else {
				text = b[:at] + strings.Repeat(pick(r, tokens...), 1+r.Intn(30)) + b[at:]
			}
		case 7:
			o := other()
			from := r.Intn(len(o) + 1)
			text = b[:at] + o[from:from+r.Intn(1+min(40, len(o)-from))] + b[to:]
		case 8:
			if at < len(b) {
				text = b[:at] + string([]byte{b[at] ^ byte(1<<r.Intn(8))}) + b[at+1:]
			}
		}
	}
	return text
}

func hostileDocument(r *rand.Rand, g *rgen) string {
	doc := func() string {
		switch r.Intn(6) {
		case 0:
			return g.lines(1+r.Intn(4), 2).rz
		case 1:
			return functionCall(r)
		case 2:
			n := 1 + r.Intn(12)
			s := ""
			for ; n > 0; n-- {
				s += pick(r, hostileTokens...)
			}
			return s
		}
		return genDocument(r, g, r.Intn(2), pick(r, 0, 0, 1)).text
	}
	return mutateText(r, doc(), doc, hostileTokens, 1+r.Intn(6))
}

func hostileSuite(c *Ctx) {
	r := c.Rng
	g, ctx := newEngineCase(r)
	o := engineOptions(r)
	if r.Intn(6) == 0 {
		o[template.RenderingDisabled] = true
	}
	delims := pick(r, "", "", "", "", "[[,]],#", "a,b,c", "(,),@", "@,@,@", ",,{", "{{{,}}},#", ".,.,.", "[,],*", "<%,%>,$", "{,},@", ",,°")
	t := robustEngine(freshContext(ctx), delims, copyOptions(o))
	failures, rendered := 0, 0
	for i := 0; i < 3; i++ {
		text := hostileDocument(r, g)
		if delims != "" && r.Intn(2) == 0 {
			d := strings.Split(delims, ",")
			text = strings.NewReplacer("{{", iifs(d[0] == "", "{{", d[0]), "}}", iifs(d[1] == "", "}}", d[1]), "@", d[2]).Replace(text)
		}
		if longNumber.MatchString(text) || strings.Contains(text, "sleep") {
			c.Event("discarded (big numbers)")
			continue
		}
		if wholeContext.MatchString(text) && changesData.MatchString(text) {
			c.Event("discarded (cyclic data)")
			continue
		}
		if os.Getenv("VMON_SHOW") != "" {
			fmt.Fprintf(os.Stderr, "SHOW %q\n", text)
		}
		var err error
		var result string
		ended, what := bounded(func() { result, err = t.ProcessContent(text, filepath.Join("folder", fmt.Sprint("doc", i))) })
		switch {
		case !ended:
			c.Fail("hang", "%q with delimiters %q context %s does not end", text, delims, js(ctx))
			return
		case what != "":
			c.Fail("panic", "%q with delimiters %q options %v context %s: %s", text, delims, o, js(ctx), what)
			return
		case err != nil:
			failures++
			c.Event("error")
			if strings.Contains(err.Error(), "runtime error") && !strings.Contains(err.Error(), "error calling") {
				c.Fail("internal", "%q with delimiters %q context %s: %v", text, delims, js(ctx), err)
			}
		default:
			rendered++
			c.Event("rendered")
			_ = result
		}
		c.Obs(text, true)
	}
	// the engine is still usable
	if o[template.RenderingDisabled] || strings.Contains("a,b,c (,),@ @,@,@ ,,{ {{{,}}},# .,.,. [,],*", delims) && delims != "" { // ambiguous delimiters
		return
	}
	l, rt, rz := t.LeftDelim(), t.RightDelim(), t.RazorDelim()
	text := fmt.Sprintf("%s add 1 2 %s %supper(\"x\") %s len `abc` %s", l, rt, rz, l, rt)
	var err error
	var result string
	ended, what := bounded(func() { result, err = t.ProcessContent(text, filepath.Join("healthy", "doc")) })
	if !ended || what != "" || err != nil || result != "3 X 3" {
		c.Fail("unusable", "after hostile documents, %q gives %q %v %s", text, result, err, what)
	}
	c.Event("healthy after hostile")
}

// formats: texts which are almost json, yaml, hcl or xml
func hostileDataSuite(c *Ctx) {
	r := c.Rng
	o := genOpts{keys: ident, scalars: importScalar}
	tokens := []string{"{", "}", "[", "]", ":", ",", "\"", "'", "=", "\n", "  ", "\t", "- ", "&a", "*a", "!!int ", "!!binary ", "|", ">", "%", "#", "//", "/*", "*/", "<<", "<<E\n", "${", "}", "<a>", "</a>", "<a ", "/>", "<!--", "-->", "&amp;", "&x;", "<?xml", "?>", "null", "~", "1e", "0x", "-", "\x00", "\xff", "---\n", "...", "? ", "\\u12", "\\"}
	doc := func() string {
		m := genMap(r, 3, o)
		switch r.Intn(4) {
		case 0:
			return js(m)
		case 1:
			return string(must1(yaml.Marshal(m)))
		case 2:
			return string(must1(hcl.Marshal(m)))
		}
		s := "<root>"
		for _, k := range sortedKeys(m) {
			s += "<" + k + " a='1'>" + fmt.Sprint(m[k]) + "</" + k + ">\n"
		}
		return s + "</root>"
	}
	for i := 0; i < 4; i++ {
		text := mutateText(r, doc(), doc, tokens, 1+r.Intn(5))
		for name, f := range map[string]func(){
			"convert": func() { var v interface{}; _ = collections.ConvertData(text, &v) },
			"json":    func() { var v interface{}; _ = json.Unmarshal([]byte(text), &v) },
			"yaml":    func() { var v interface{}; _ = yaml.Unmarshal([]byte(text), &v) },
			"hcl":     func() { var v interface{}; _ = hcl.Unmarshal([]byte(text), &v) },
			"xml":     func() { var v interface{}; _ = xml.Unmarshal([]byte(text), &v) },
			"data": func() {
				t := newTemplate(map[string]interface{}{"text": text}, "", strictOptions())
				_, _ = t.ProcessContent("{{ $x := data .text }}{{ $y := toJson $x }}{{ $z := json $y }}{{ typeOf $z }}", "doc")
			},
		} {
			ended, what := bounded(f)
			switch {
			case !ended:
				c.Fail("hang", "%s on %q does not end", name, text)
			case what != "":
				c.Fail("panic", "%s on %q: %s", name, text, what)
			}
			c.Event("conversions")
		}
		c.Obs(text, true)
	}
}

// templates that call themselves
func recursionSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	arg := func() string { return pick(r, "", " .", " $", " (dict `x` 1)", " 5") }
	call := func(name string) string {
		return pick(r, "", "a ", "{{ add 1 2 }}") + "{{ include `" + name + "`" + arg() + " }}" + pick(r, "", " b", "\n")
	}
	var text string
	switch r.Intn(6) {
	case 0:
		text = "{{ define `rec` }}" + call("rec") + "{{ end }}" + call("rec")
	case 1:
		text = "{{ define `one` }}" + call("two") + "{{ end }}{{ define `two` }}" + call("one") + "{{ end }}" + call("two")
	case 2:
		text = call("doc.gt")
	case 3:
		text = "{{ define `one` }}" + call("doc.gt") + "{{ end }}" + call("one")
	case 4:
		text = "{{ define `rec` }}x{{ template `rec` . }}{{ end }}{{ template `rec` . }}"
	case 5:
		writeFile(filepath.Join(dir, "other.txt"), call("doc.gt"), 0644)
		text = call("other.txt")
	}
	writeFile(filepath.Join(dir, "doc.gt"), text, 0644)
	start := time.Now()
	so, se, code := runCLI(dir, "", nil, "-P", "doc.gt")
	if code != 1 || time.Since(start) > 80*time.Second || !strings.Contains(se, "exceeded maximum") {
		c.Fail("recursion", "%q exit %d after %v: %s %s", text, code, time.Since(start), clip(se, 1000), clip(so, 300))
	}
	c.Event("endless recursions")
	c.Obs(text, true)
}

// arguments of the command line
func hostileCLISuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	g, ctx := newEngineCase(r)
	work := filepath.Join(dir, "work")
	for _, name := range []string{"a.gt", "b.ext.gt", "c.txt", "sub/d.gt", "sub/e.template", "defs.gte"} {
		text := hostileDocument(r, g)
		for name == "defs.gte" && r.Intn(3) > 0 {
			text = "{{ define `T` }}x{{ end }}\n"
			break
		}
		for _, f := range stubbed {
			text = strings.ReplaceAll(text, f, "x")
		}
		if longNumber.MatchString(text) || wholeContext.MatchString(text) && changesData.MatchString(text) {
			text = "plain"
		}
		writeFile(filepath.Join(work, name), text, 0644)
	}
	writeFile(filepath.Join(work, "v.json"), js(ctx), 0644)
	writeFile(filepath.Join(work, "bad.json"), mutateText(r, js(ctx), func() string { return "" }, hostileTokens, 3), 0644)
	writeFile(filepath.Join(work, "bin"), "\x00\xff\xfe\x80", 0644)
	value := func() string {
		return pick(r, "", " ", "a.gt", "c.txt", "sub", "missing", "v.json", "bad.json", "bin", "[", "*", "[a-", "*.txt", "**", "\\", "/a/b", "/a/b/", "/(/x", "/a", "x", "=", "a=", "=b", "a=1", "a=v.json", "a=bad.json", "a.b=1", "a,b=c", "a:=1", "-1", "0", "3", "true", "{{", "{{,}},@", ",", ",,", ",,,", "a,b,c,d", "{{,{{,{{", "on", "debug", "nonsense", "Json", "y", ".", "@", "@x", "@(", "@a.gt", "{{ .x }}", "{{ 1 }}", "é", "\xff", "\n", "!x", "!", "a:b", "(?P<n>x", "x{99999}", "+")
	}
	var args []string
	if r.Intn(4) == 0 {
		args = append(args, pick(r, "run", "list", "help", "unknown"))
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			args = append(args, value())
		case 1:
			args = append(args, pick(r, "-P", "-o", "-r", "-f", "-E", "-d", "-S", "-I", "-i", "-V", "-p", "-e", "-s", "-R", "-t", "-L", "-F", "-Z", "-h", "-v", "--base", "--no-razor", "--no-sprig", "--no-data", "--color", "--no-color", "--version", "--ignore-missing-paths", "-a", "-l", "-c", "--"))
		case 2:
			args = append(args, "--"+pick(r, "import", "import-if-exist", "var", "patterns", "exclude", "substitute", "recursion-depth", "source", "target", "delimiters", "strict-assignations-validation", "ignore-razor", "type", "internal-log-level", "template-log-level", "unknown")+"="+value())
		case 3:
			args = append(args, pick(r, "-i", "-V", "-p", "-e", "-s", "-R", "-t", "--source", "--target", "--import", "--var", "--del"), value())
		}
	}
	for i, a := range args {
		if strings.HasPrefix(a, "--target=/") || strings.HasPrefix(a, "--source=/") || (i > 0 && (args[i-1] == "--target" || args[i-1] == "--source") && strings.HasPrefix(a, "/")) || strings.Contains(a, "\x00") {
			args[i] = "--print"
		}
	}
	stdin := pick(r, "", "", "", "{{ add 1 2 }}", hostileDocumentSafe(r, g))
	start := time.Now()
	so, se, code := runCLI(work, stdin, nil, args...)
	c.Obs(fmt.Sprintf("%q", args), true)
	c.Event(fmt.Sprint("exit ", code))
	switch {
	case time.Since(start) > 90*time.Second:
		c.Fail("hang", "%q with stdin %q does not end", args, stdin)
	case strings.Contains(se, "goroutine 1 [") || code < 0 || code > 125 || code == 2:
		c.Fail("panic", "%q with stdin %q %s exit %d: %s\n%s", args, stdin, "", code, clip(se, 1500), clip(so, 300))
	case code != 0 && strings.TrimSpace(se) == "":
		c.Fail("silent", "%q with stdin %q exit %d without any message: %q", args, stdin, code, clip(so, 300))
	}
	for n := range readTree(dir) {
		if strings.HasPrefix(n, "gotemplate-") {
			c.Fail("left", "%q leaves %s behind", args, n)
		}
	}
}

func hostileDocumentSafe(r *rand.Rand, g *rgen) string {
	text := hostileDocument(r, g)
	for _, f := range stubbed {
		text = strings.ReplaceAll(text, f, "x")
	}
	if longNumber.MatchString(text) || wholeContext.MatchString(text) && changesData.MatchString(text) {
		text = "plain"
	}
	return text
}

func readTexts(dir string) map[string]string {
	out := map[string]string{}
	for n := range readTree(dir) {
		if b, err := os.ReadFile(filepath.Join(dir, n)); err == nil {
			out[n] = clip(string(b), 600)
		}
	}
	return out
}

func init() {
	register(&Property{
		ID:   "P23",
		Rule: "whatever the documents, the data and the arguments, processing ends in bounded time with a result or an error: no panic, no crash of the command, and the engine can still be used",
		Suites: []Suite{
			{Name: "documents", Quick: 5000, Thorough: 200000, Run: hostileSuite, Once: loadRegistry, Need: []string{"error", "rendered", "healthy after hostile"}},
			{Name: "formats", Quick: 2500, Thorough: 80000, Run: hostileDataSuite, Need: []string{"conversions"}},
			{Name: "recursion", Quick: 24, Thorough: 400, Run: recursionSuite, Need: []string{"endless recursions"}},
			{Name: "command", Quick: 1500, Thorough: 30000, Run: hostileCLISuite, Once: loadRegistry, Need: []string{"exit 0", "exit 1"}},
		},
	})
}

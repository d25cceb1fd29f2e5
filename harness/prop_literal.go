package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/coveooss/gotemplate/v3/template"
)

var plainTokens = []string{
	"word", "the", "$5", "100%", "%v", "a=b", "x := 1", "y += 2", "[0]", "[1:2]", "{", "}", "{x}", "{ y }", "(a)", ";", "'", `"q"`, `\`, `\n`, "|", "||", "&", "&&", "<b>", "->",
	"--", "_", "#", "##", "//", "///", "/* c */", "*", "~", "^", "é", "日本語", "\t", "   ", "${x}", `"${var.name}"`, "$(x)", "$$", "$.x", ".x", "!", "?", "<no value>", "<nil>", "\r",
	"if (x)", "else", "end", "end if", "range (y)", "for (z)", "with (w)", "`code`", "```", "\n", "\n", "\n\n", "  \n", "\u00a0", "\u2028", "'''", `"""`, "\x01", "+", "=", ":", ",", "<", ">", "<%", "%>", "<<", ">>",
}

func plainToken(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return randString(r, "abc XYZ019.,:_-+*/%=<>!?()[]#&|^~$é{};'\"\n\t\\", 1, 6)
	}
	return pick(r, plainTokens...)
}

func email(r *rand.Rand) string {
	return randString(r, "abcXY01", 1, 1) + randString(r, "abcXY01._+-", 0, 6) + "@" + randString(r, "abcXY01-", 1, 6) + "." + pick(r, "com", "org", "co.uk", "x-y.net", "q1")
}

func safeWord(r *rand.Rand) string { return randString(r, "bcdgh", 2, 5) }

// balancedTicks says if the text has no lone backtick: a lone one starts a Go template string.
func cleanText(s string) bool {
	for _, bad := range []string{"{{", "}}", "@", "!Q!", "#!", "`"} {
		if strings.Contains(strings.ReplaceAll(strings.ReplaceAll(s, "```", ""), "`code`", ""), bad) {
			return false
		}
	}
	return true
}

// plainSuite: a document without any template code comes out byte for byte.
func plainSuite(c *Ctx) {
	r := c.Rng
	var s string
	for {
		s = ""
		for i := r.Intn(30); i > 0; i-- {
			s += plainToken(r) + pick(r, "", " ", "\n")
		}
		if cleanText(s) {
			break
		}
	}
	t := newTemplate(nil, "", strictOptions())
	got, err := render(t, s)
	if err != nil || got != s {
		c.Fail("plain", "document without template code %q\nrenders %q (%v)", s, got, err)
	}
	c.Obs(s, len(s) > 0)
}

type litPiece struct{ src, want, name string }

// literalPiece gives a piece of document and what must come out of it.
func literalPiece(r *rand.Rand) litPiece {
	switch r.Intn(13) {
	case 0:
		e := email(r)
		if r.Intn(3) == 0 {
			e = pick(r, "\n", "", "\t") + randString(r, "abcXY01._+-!#$%&'*/=?^|~", 1, 1) + e
		}
		return litPiece{e, e, "email"}
	case 1:
		e := pick(r, "<", "(", "mailto:", "[", "to,", `"`) + email(r) + pick(r, ">", ")", ",", ".", ";", "]", " x")
		return litPiece{e, e, "email"}
	case 2:
		n := 1 + r.Intn(3)
		w := pick(r, "", "name", "(1+2)", "x.y", "if (a)", "{x}", "-", "/* a */", "# b")
		return litPiece{strings.Repeat("@@", n) + w, strings.Repeat("@", n) + w, "@@"}
	case 3:
		w := safeWord(r)
		return litPiece{"```" + w + "\n" + w + " = 1\n```", "```" + w + "\n" + w + " = 1\n```", "triple backticks"}
	case 4:
		v := fmt.Sprintf("${%s.%s}", safeWord(r), safeWord(r))
		q := pick(r, "", `"`)
		return litPiece{q + v + q, q + v + q, "${"}
	case 5: // multi lines strings are not razor
		s := "`" + safeWord(r) + "\n" + pick(r, "@x", "@(1+2)", "@if (a)", "b@c", "@@d") + " " + safeWord(r) + "\n`"
		return litPiece{s, s, "multi lines string"}
	case 6:
		return litPiece{"@{{", "{{", "@{{"}
	case 7, 8:
		a, b := r.Intn(50), r.Intn(50)
		return litPiece{fmt.Sprintf("@(%d + %d);", a, b), fmt.Sprint(a + b), "razor expression"}
	case 9:
		a, b := r.Intn(50), r.Intn(50)
		return litPiece{fmt.Sprintf("{{ add %d %d }}", a, b), fmt.Sprint(a + b), "go template expression"}
	case 10:
		return litPiece{"@value;", "VAL", "razor variable"}
	default:
		for {
			s := plainToken(r)
			if cleanText(s) && !strings.Contains(s, "`") && !strings.Contains(s, "<<") {
				return litPiece{s, s, "text"}
			}
		}
	}
}

func literalSuite(c *Ctx) {
	r := c.Rng
	var src, want string
	names := []string{}
	for i := 2 + r.Intn(8); i > 0; i-- {
		p := literalPiece(r)
		// a word isolates the pieces: the marks must not be joined with their neighbours
		w := " " + safeWord(r) + " "
		if r.Intn(4) == 0 {
			w = "\n" + safeWord(r) + " "
		}
		src += w + p.src
		want += w + p.want
		names = append(names, p.name)
	}
	w := " " + safeWord(r) + "\n"
	src += w
	want += w
	if !strings.Contains(src, "@value;") && !strings.Contains(src, "{{ ") {
		src, want = src+"@value;\n", want+"VAL\n"
	}
	ctx := map[string]interface{}{"value": "VAL", "x": "XX", "name": "NN", "a": true}
	got, err := render(newTemplate(ctx, "", strictOptions()), src)
	if err != nil || got != want {
		c.Fail("literal", "document %q\nrenders  %q (%v)\nexpected %q", src, got, err, want)
	}
	for _, n := range names {
		c.Event(n)
	}
	c.Obs(src, true)
}

var delimSets = [][3]string{{"<%", "%>", "§"}, {"[[", "]]", "@"}, {"{{", "}}", "µ"}, {"((", "))", "&&&"}, {"{%", "%}", "%%%"}, {"<<<", ">>>", "¤"}, {"«", "»", "¶"}, {"{{", "}}", "@"}, {"$[", "]$", "°"}}

// delimiterSuite: with other delimiters, the code is recognised with them and the default marks are text.
func delimiterSuite(c *Ctx) {
	r := c.Rng
	d := pick(r, delimSets...)
	custom := strings.Join(d[:], ",")
	if r.Intn(4) == 0 { // partial
		switch {
		case d[2] == "@":
			custom = d[0] + "," + d[1]
		case d[0] == "{{":
			custom = ",," + d[2]
		}
	}
	var src, want string
	for i := 2 + r.Intn(8); i > 0; i-- {
		w := pick(r, " ", "\n") + safeWord(r) + " "
		a, b := r.Intn(50), r.Intn(50)
		var p litPiece
		switch r.Intn(8) {
		case 0:
			p = litPiece{fmt.Sprintf("%s add %d %d %s", d[0], a, b, d[1]), fmt.Sprint(a + b), "custom go template"}
		case 1:
			p = litPiece{fmt.Sprintf("%s(%d + %d);", d[2], a, b), fmt.Sprint(a + b), "custom razor"}
		case 2:
			p = litPiece{d[2] + "value;", "VAL", "custom razor variable"}
		case 3:
			p = litPiece{fmt.Sprintf("%s-(%d * %d);", d[2], a, b), fmt.Sprint(a * b), "custom razor reduce"}
			w = strings.TrimRight(w, " ")
		case 4:
			p = litPiece{d[2] + d[2] + "x", d[2] + "x", "custom literal"}
		case 5:
			if d[0] == "{{" {
				continue
			}
			p = litPiece{"{{ .x }}", "{{ .x }}", "default delimiters as text"}
		case 6:
			if d[2] == "@" {
				continue
			}
			s := pick(r, "@x", "@(1+2)", "@if (a)", "@@", "a@b")
			p = litPiece{s, s, "default razor mark as text"}
		case 7:
			p = litPiece{fmt.Sprintf("%s- %d -%s", d[0], a, d[1]), fmt.Sprint(a), "custom reduce"}
			w = strings.TrimRight(w, " \n")
			src += w + p.src + " "
			want += strings.TrimRight(w, " ") + p.want
			c.Event(p.name)
			src += "zz"
			want += "zz"
			continue
		}
		src += w + p.src
		want += w + p.want
		c.Event(p.name)
	}
	src += "\n"
	want += "\n"
	ctx := map[string]interface{}{"value": "VAL", "x": "XX"}
	got, err := render(newTemplate(ctx, custom, strictOptions()), src)
	if err != nil || got != want {
		c.Fail("delimiters", "with delimiters %q, document %q\nrenders  %q (%v)\nexpected %q", custom, src, got, err, want)
	}
	c.Obs(custom+src, true)
}

// ---- P04 --------------------------------------------------------------------------------

// codeLine gives a line with its source, its complete rendering, its rendering without razor.
type codeLine struct{ src, full, goOnly string }

func genCodeLine(r *rand.Rand) codeLine {
	a, b := r.Intn(50), r.Intn(50)
	w := safeWord(r)
	switch r.Intn(9) {
	case 0:
		return codeLine{w, w, w}
	case 1:
		s := fmt.Sprintf("%s @(%d + %d);", w, a, b)
		return codeLine{s, fmt.Sprintf("%s %d", w, a+b), s}
	case 2:
		s := fmt.Sprintf("%s {{ add %d %d }}", w, a, b)
		return codeLine{s, fmt.Sprintf("%s %d", w, a+b), fmt.Sprintf("%s %d", w, a+b)}
	case 3:
		s := fmt.Sprintf("%s {{ add %d %d }} @value; %s", w, a, b, w)
		return codeLine{s, fmt.Sprintf("%s %d VAL %s", w, a+b, w), fmt.Sprintf("%s %d @value; %s", w, a+b, w)}
	case 4:
		s := w + " @@x"
		return codeLine{s, w + " @x", s}
	case 5:
		s := w + " @if (true) yes; " + w
		return codeLine{s, w + " yes " + w, s}
	case 6:
		s := w + " @list(1, 2, 3)[1]; ."
		return codeLine{s, w + " 2 .", s}
	case 7:
		s := w + ` {{ "@(1 + 2);" }}`
		// razor is converted wherever it is
		return codeLine{w + ` {{ "x" }}`, w + " x", w + " x"}
		_ = s
	default:
		s := w + " a@value;b {{ upper \"q\" }}"
		return codeLine{s, w + " aVALb Q", w + " a@value;b Q"}
	}
	return codeLine{}
}

var disableCtx = map[string]interface{}{"value": "VAL", "x": "XX"}

func disableSuite(c *Ctx) {
	r := c.Rng
	lines := []codeLine{}
	for i := 2 + r.Intn(8); i > 0; i-- {
		lines = append(lines, genCodeLine(r))
	}
	at := r.Intn(len(lines) + 1)
	join := func(f func(l codeLine) string, mark string) string {
		var s []string
		for i, l := range lines {
			if i == at && mark != "" {
				s = append(s, mark)
			}
			s = append(s, f(l))
		}
		if at == len(lines) && mark != "" {
			s = append(s, mark)
		}
		return strings.Join(s, "\n") + "\n"
	}
	srcOf := func(l codeLine) string { return l.src }
	fullOf := func(l codeLine) string { return l.full }
	goOf := func(l codeLine) string { return l.goOnly }
	check := func(kind, src, want string, opts template.OptionsSet) {
		got, err := render(newTemplate(deepCopy(disableCtx).(map[string]interface{}), "", opts), src)
		if err != nil || got != want {
			c.Fail(kind, "document %q\nrenders  %q (%v)\nexpected %q", src, got, err, want)
		}
		c.Event(kind)
		c.Obs(kind+src, true)
	}
	check("no marker", join(srcOf, ""), join(fullOf, ""), strictOptions())
	mark := pick(r, "# ", "// ", "", "x ", "<!-- ")
	check("no-gotemplate!", join(srcOf, mark+"no-gotemplate!"), join(srcOf, mark+"no-gotemplate!"), strictOptions())
	// broken code does not matter in a document that opted out
	broken := pick(r, "{{ if }}", "{{ .a.b.c | nope", "@if (", "}} {{", "@range(x", "{{ raise \"x\" }}")
	check("no-gotemplate! broken", join(srcOf, mark+"no-gotemplate!")+broken+"\n", join(srcOf, mark+"no-gotemplate!")+broken+"\n", strictOptions())
	check("no-razor!", join(srcOf, mark+"no-razor!"), join(goOf, mark+"no-razor!"), strictOptions())
	o := strictOptions()
	o[template.Razor] = false
	check("razor option off", join(srcOf, ""), join(goOf, ""), o)
}

// pauseSuite: pause and resume marks apply by line.
func pauseSuite(c *Ctx) {
	r := c.Rng
	var src, want []string
	goPaused, rzPaused := false, false
	for i := 3 + r.Intn(12); i > 0; i-- {
		l := genCodeLine(r)
		mark := ""
		switch r.Intn(9) {
		case 7: // a line that resumes is not paused, whatever the order of the marks
			mark, rzPaused = pick(r, "razor-pause! razor-resume!", "razor-resume! razor-pause!"), false
		case 8:
			mark, goPaused = pick(r, "gotemplate-pause! gotemplate-resume!", "gotemplate-resume! gotemplate-pause!"), false
		case 0:
			mark, goPaused = "gotemplate-pause!", true
		case 1:
			mark, goPaused = "gotemplate-resume!", false
		case 2:
			mark, rzPaused = "razor-pause!", true
		case 3:
			mark, rzPaused = "razor-resume!", false
		}
		s, w := l.src, ""
		switch {
		case goPaused:
			w = l.src
		case rzPaused:
			w = l.goOnly
		default:
			w = l.full
		}
		if mark != "" {
			if r.Intn(2) == 0 { // the mark is on a line of its own
				src = append(src, "# "+mark)
				want = append(want, "# "+mark)
			} else {
				s, w = "# "+mark+" "+s, "# "+mark+" "+w
			}
			c.Event(mark)
		}
		src, want = append(src, s), append(want, w)
	}
	text, wantText := strings.Join(src, "\n"), strings.Join(want, "\n")
	got, err := render(newTemplate(deepCopy(disableCtx).(map[string]interface{}), "", strictOptions()), text)
	if err != nil || got != wantText {
		c.Fail("pause", "document\n%s\nrenders\n%s\n(%v)\nexpected\n%s", text, got, err, wantText)
	}
	c.Obs(text, true)
}

// ignoreSuite: the names given to ignore-razor are not razor.
func ignoreSuite(c *Ctx) {
	r := c.Rng
	names := []string{"value", "other", "import", "media", "param", "x1"}
	ctx := map[string]interface{}{}
	for _, n := range names {
		ctx[n] = "<" + n + ">"
	}
	ignored := map[string]bool{}
	var exprs []string
	for _, n := range names {
		if r.Intn(3) == 0 {
			ignored[n] = true
			exprs = append(exprs, pick(r, n, " "+n+" ", n))
		}
	}
	if r.Intn(3) == 0 {
		exprs = append(exprs, "", "m[a-z]+")
		ignored["media"] = true
	}
	r.Shuffle(len(exprs), func(i, j int) { exprs[i], exprs[j] = exprs[j], exprs[i] })
	var src, want string
	for i := 2 + r.Intn(8); i > 0; i-- {
		n := pick(r, names...)
		w := pick(r, " ", "\n") + safeWord(r) + " "
		src += w + "@" + n + ";"
		if ignored[n] {
			want += w + "@" + n + ";"
			c.Event("ignored name")
		} else {
			want += w + "<" + n + ">"
			c.Event("name")
		}
		if r.Intn(4) == 0 { // a longer name is not the ignored one
			src += " @" + n + "s;"
			if n == "media" && ignored[n] && strings.Contains(strings.Join(exprs, " "), "m[") {
				want += " @" + n + "s;"
			} else {
				want += " plural"
			}
			ctx[n+"s"] = "plural"
		}
	}
	src, want = src+" @(1 + 1);\n", want+" 2\n"
	t := newTemplate(ctx, "", strictOptions())
	how := r.Intn(2)
	if how == 0 {
		t.AppendIgnoreRazorExpression(exprs...)
	} else {
		for _, e := range exprs {
			t.AppendIgnoreRazorExpression(e)
		}
	}
	got, err := render(t, src)
	if err != nil || got != want {
		c.Fail("ignore-razor", "with ignored %q, document %q\nrenders  %q (%v)\nexpected %q", exprs, src, got, err, want)
	}
	c.Obs(src+fmt.Sprint(exprs), len(exprs) > 0)
}

// convertSuite: what is shown by the conversion only mode (--disable) renders as the original.
func convertSuite(c *Ctx) {
	g := newRgen(c.Rng)
	b := g.lines(2+c.Rng.Intn(6), 2)
	o := strictOptions()
	o[template.RenderingDisabled] = true
	ctx := func() map[string]interface{} { return deepCopy(g.ctx).(map[string]interface{}) }
	direct, err := render(newTemplate(ctx(), "", strictOptions()), b.rz)
	if err != nil {
		c.Event("discarded")
		c.Obs(b.rz, false)
		return
	}
	converted, err := render(newTemplate(ctx(), "", o), b.rz)
	if err != nil {
		c.Fail("convert", "conversion of %q fails: %v", b.rz, err)
		return
	}
	o = strictOptions()
	o[template.Razor] = false
	got, err := render(newTemplate(ctx(), "", o), converted)
	if err != nil || got != direct {
		c.Fail("convert", "razor document\n%s\nconverted\n%s\ncontext %s\nrenders  %q (%v)\ndirectly %q", b.rz, converted, js(g.ctx), got, err, direct)
	}
	c.Obs(b.rz, true)
}

// runCLI runs the command line binary in dir.
func runCLI(dir, stdin string, env []string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	// The memory is limited, so that a defect of the code does not exhaust the memory of the sandbox
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 6000000; exec "$0" "$@"`, cliBinary}, args...)...)
	cmd.Dir = dir
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir, "LANG=C.UTF-8"}
	if stdin == "" {
		cmd.Env = append(cmd.Env, "GOTEMPLATE_NO_STDIN=1")
	} else {
		cmd.Stdin = strings.NewReader(stdin)
	}
	cmd.Env = append(cmd.Env, env...)
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	} else if err != nil {
		code = -1
		se.WriteString(err.Error())
	}
	return so.String(), se.String(), code
}

func writeFile(path, content string, mode os.FileMode) {
	must0(os.MkdirAll(filepath.Dir(path), 0755))
	must0(os.WriteFile(path, []byte(content), mode))
	must0(os.Chmod(path, mode))
}

// cliSwitchSuite: same markers and options given to the command line.
func cliSwitchSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	lines := []codeLine{}
	for i := 2 + r.Intn(5); i > 0; i-- {
		lines = append(lines, genCodeLine(r))
	}
	var src, full, goOnly string
	for _, l := range lines {
		src += l.src + "\n"
		full += l.full + "\n"
		goOnly += l.goOnly + "\n"
	}
	src, full, goOnly = src+"@other; z\n", full+"OTHER z\n", goOnly+"@other; z\n"
	writeFile(filepath.Join(dir, "a.gt"), src, 0644)
	args, env, want := []string{"a.gt", "-P", "-V", "value=VAL", "-V", "other=OTHER"}, []string(nil), full
	kind := pick(r, "plain", "no-razor", "ignore-flag", "ignore-env", "ignore-env-json", "delimiters")
	switch kind {
	case "no-razor":
		args, want = append(args, "--no-razor"), goOnly
	case "ignore-flag":
		args, want = append(args, "--ignore-razor", "other"), strings.Replace(full, "OTHER z", "@other; z", 1)
	case "ignore-env":
		env, want = append(env, "GOTEMPLATE_IGNORE_RAZOR="+pick(r, "other", "zzz,other", "zzz other", "zzz\nother")), strings.Replace(full, "OTHER z", "@other; z", 1)
	case "ignore-env-json":
		env, want = append(env, `GOTEMPLATE_IGNORE_RAZOR=["zzz","other"]`), strings.Replace(full, "OTHER z", "@other; z", 1)
	case "delimiters":
		args = append(args, "--delimiters", "[[,]],µ")
		s := strings.NewReplacer("{{", "[[", "}}", "]]", "@", "µ")
		writeFile(filepath.Join(dir, "a.gt"), s.Replace(src), 0644)
		want = strings.ReplaceAll(full, "@", "µ")
	}
	so, se, code := runCLI(dir, "", env, args...)
	if code != 0 || so != want {
		c.Fail("cli-"+kind, "%v (%v) on %q\nprints   %q\nexpected %q\nexit %d stderr %s", args, env, src, so, want, code, clip(se, 1000))
	}
	c.Event("cli " + kind)
	c.Obs(kind+src, true)
}

func init() {
	register(&Property{
		ID:   "P01",
		Rule: "one evaluation is one rendered document; distinct by content and delimiters, empty documents do not count",
		Suites: []Suite{
			{Name: "plain", Quick: 4000, Thorough: 200000, Run: plainSuite},
			{Name: "literal", Quick: 6000, Thorough: 300000, Run: literalSuite, Need: []string{"email", "@@", "multi lines string", "${", "triple backticks"}},
			{Name: "delimiters", Quick: 3000, Thorough: 100000, Run: delimiterSuite},
		},
	})
	register(&Property{
		ID:   "P04",
		Rule: "one evaluation is one rendered document under one way to disable the processing; distinct by content",
		Suites: []Suite{
			{Name: "markers", Quick: 1500, Thorough: 60000, Run: disableSuite},
			{Name: "pause", Quick: 5000, Thorough: 200000, Run: pauseSuite, Need: []string{"gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!"}},
			{Name: "ignore", Quick: 3000, Thorough: 100000, Run: ignoreSuite, Need: []string{"ignored name", "name"}},
			{Name: "convert", Quick: 2000, Thorough: 100000, Run: convertSuite},
			{Name: "cli", Quick: 400, Thorough: 5000, Run: cliSwitchSuite},
		},
	})
}

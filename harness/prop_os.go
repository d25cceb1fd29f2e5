package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/user"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// P21: what a template asks to the operating system (commands, files) is what the operating system does and says.

type osEngine struct {
	*template.Template
	dir    string
	result interface{}
	called bool
}

func osTemplate(c *Ctx, dir string, ctx map[string]interface{}) *osEngine {
	e := &osEngine{Template: must1(template.NewTemplate(dir, collections.AsDictionary(ctx), "", strictOptions())), dir: dir}
	e.AddFunctions(map[string]interface{}{"captureValue": func(v interface{}) string { e.result, e.called = v, true; return "" }}, "verif", template.FuncOptions{})
	return e
}

// value gives the value of an expression in a document of the folder.
func (e *osEngine) value(expression string) (interface{}, error) {
	e.result, e.called = nil, false
	_, err := e.ProcessContent("{{ captureValue ("+expression+") }}", filepath.Join(e.dir, "document"))
	if err == nil && !e.called {
		err = fmt.Errorf("not evaluated")
	}
	return e.result, err
}

// osWord gives a text without any meaning for the templates (no code, no number, no pattern).
func osWord(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return safeWord(r)
	}
	letters := []rune("abcXYZ019 .,:;-_=+/\\'\"$&|<>(){}!#~%^`\té世\n")
	out := []rune{'w'}
	for i := r.Intn(9); i > 0; i-- {
		out = append(out, letters[r.Intn(len(letters))])
	}
	return strings.ReplaceAll(strings.ReplaceAll(string(out)+"z", "{{", "{"), "}}", "}")
}

// shellRun gives what bash says of a script executed in a folder.
func shellRun(dir, program, script string) (stdout, stderr string, code int) {
	cmd := exec.Command(program)
	cmd.Args = append(cmd.Args, "/dev/stdin")
	if program == "bash" {
		cmd.Args[1] = "-s"
	}
	cmd.Stdin = strings.NewReader(script)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else {
		must0(err)
	}
	return so.String(), se.String(), code
}

func shellLine(r *rand.Rand, names []string) string {
	file := pick(r, append([]string{"missing"}, names...)...)
	return pick(r,
		"echo hello world",
		"echo 'a  b' \"c  d\"",
		"printf '%s\\n' 1 22 333",
		"cat '"+file+"' 2>/dev/null",
		"wc -c < '"+pick(r, names...)+"'",
		"ls | sort",
		"pwd -P",
		"x=5; echo $((x * 7))",
		"for i in 1 2 3; do echo -n $i,; done",
		"echo to the error output >&2",
		"test -e '"+file+"' && echo yes || echo no",
		"echo one; echo two",
		"seq 1 5 | tail -n 2",
		"seq 1 20000",
		"head -c 70000 /dev/zero | tr '\\0' x",
		"printf 'no newline'",
		"printf ' \\n\\n  padded  \\n\\n'",
		"echo -e 'tab\\tand\\x01control'",
		"f() { echo \"[$1]\"; }; f 'in a function'",
		"cat <<END\nin a document $((1 + 1))\nEND",
		"# only a comment",
		"true",
		"echo '<no val>' '{\"a\": 1}'",
		"echo {a,b}{1,2}",
		"echo *.txt",
		"(echo sub shell)",
		"true | false",
	)
}

func runSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	names := []string{"a.txt", "b.txt", "with space.txt", "sub/c.txt"}
	for _, n := range names {
		writeFile(filepath.Join(dir, n), strings.Repeat(safeWord(r)+" \"quoted\"\n", r.Intn(4)), 0644)
	}
	word := safeWord(r)
	t := osTemplate(c, dir, map[string]interface{}{"word": word, "n": r.Intn(100)})
	t.Context().Set("_dummy", nil)
	var expression string
	call := func(args []interface{}) (result interface{}, err error) {
		text := ""
		for i, a := range args {
			t.Context().Set(fmt.Sprintf("arg%d", i), a)
			text += fmt.Sprintf(" $.arg%d", i)
		}
		expression = "run" + text
		result, err = t.value(expression)
		expression += " with " + js(args)
		return
	}
	function := func(want string, wantErr string, args ...interface{}) bool {
		got, err := call(args)
		switch {
		case wantErr != "" && (err == nil || !strings.Contains(err.Error(), wantErr)):
			c.Fail("failure", "%s gives %q %v, expected an error with %q", expression, clip(fmt.Sprint(got), 300), err, wantErr)
		case wantErr != "":
			c.Event("failing command")
			return true
		case err != nil:
			c.Fail("error", "%s: %v, expected %q", expression, err, clip(want, 300))
		case fmt.Sprint(got) != want:
			c.Fail("output", "%s gives %q, expected %q", expression, clip(fmt.Sprint(got), 300), clip(want, 300))
		default:
			c.Event("output")
			return true
		}
		return false
	}
	kind := r.Intn(9)
	c.Event(fmt.Sprintf("kind %d", kind))
	switch kind {
	case 0: // a program of the system receives exactly its arguments
		args := []interface{}{"printf", "<%s>"}
		want := ""
		for i := 1 + r.Intn(4); i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				n := r.Intn(2000) - 1000
				args = append(args, n)
				want += fmt.Sprintf("<%d>", n)
			case 1:
				pattern := pick(r, "*.txt", "[ab].txt", "?.txt", "*.none", "[", "sub/*.txt", "*")
				args = append(args, filepath.Join(dir, pattern))
				list := []string{}
				for _, n := range append(names, "sub") {
					if ok, _ := path.Match(pattern, n); ok {
						list = append(list, n)
					}
				}
				sort.Strings(list)
				if len(list) == 0 {
					list = append(list, pattern)
				}
				for _, n := range list {
					want += "<" + filepath.Join(dir, n) + ">"
				}
			default:
				w := osWord(r)
				args = append(args, w)
				want += "<" + w + ">"
			}
		}
		function(want, "", args...)
	case 1, 2: // a script is executed by the shell in the folder of the template
		var lines []string
		for i := 1 + r.Intn(4); i > 0; i-- {
			lines = append(lines, shellLine(r, names))
		}
		if len(lines) == 1 && r.Intn(2) == 0 {
			lines = append(lines, "")
		}
		if r.Intn(5) == 0 {
			lines = append(lines, fmt.Sprintf("echo 'the problem' >&2; exit %d", r.Intn(256)))
		}
		script := strings.Join(lines, "\n")
		if len(lines) == 1 && !strings.ContainsAny(script, " |") {
			script += " ;"
		}
		so, se, code := shellRun(dir, "bash", script)
		want := ""
		if code != 0 {
			want = fmt.Sprintf("exit status %d: %s", code, strings.TrimRight(strings.Split(se, "\n")[0], " "))
		}
		function(so, want, script)
	case 3: // with its arguments at the end
		script := pick(r, "echo start;\necho", "f() { printf '[%s]' \"$@\"; }; f", "ls -d")
		args := []interface{}{script}
		for i := 1 + r.Intn(3); i > 0; i-- {
			args = append(args, pick[interface{}](r, "a.txt", "b.txt", "sub", "sub/c.txt"))
		}
		text := script
		for _, a := range args[1:] {
			text += " " + fmt.Sprint(a)
		}
		so, _, _ := shellRun(dir, "bash", text)
		function(so, "", args...)
	case 4: // templates inside of the command
		function(fmt.Sprintf("hello %s %d\n", word, 6), "", pick(r, "echo hello {{ .word }} {{ add 1 5 }}", "echo hello @word @(1 + 5)", "echo hello $(echo {{ $.word }}) $((6))"))
	case 5: // with a dictionary, the values of the template, not arguments of the command
		function(fmt.Sprintf("hello other %s\n", word), "", pick(r, "echo hello {{ .who }} {{ .word }}", "echo hello @who; @word"), map[string]interface{}{"who": "other"})
	case 6: // by the program that it names
		program := pick(r, "/bin/sh", "/usr/bin/env bash", "/bin/bash", "/bin/bash -e", "/bin/sh -u", "/usr/bin/env python3", "/usr/bin/env cat")
		script, shell := "echo \"a  b\" | tr a-z A-Z\necho $((2 + 3))", true
		want := "A  B\n5\n"
		if strings.HasSuffix(program, "python3") {
			script, shell, want = "print('a  b'.upper())\nfor i in range(2):\n    print(i, end=';')", false, "A  B\n0;1;"
		} else if strings.HasSuffix(program, " cat") {
			script, want, shell = "some\n  text; exit 1", "#! "+program+"\nsome\n  text; exit 1", false
		}
		if strings.HasSuffix(program, " -e") && r.Intn(2) == 0 {
			function("", "exit status 1: ", "#! "+program+"\nexit_code=1\nfalse\necho not stopped")
			break
		}
		if shell && r.Intn(3) == 0 {
			function("", "exit status 7: ", "#! "+program+"\n"+script+"\nexit 7")
			break
		}
		if r.Intn(2) == 0 || strings.HasSuffix(program, " cat") {
			function(want, "", "#! "+program+"\n"+script)
			break
		}
		name := pick(r, "script.sh", "the script", "sub/other")
		writeFile(filepath.Join(dir, name), "#! "+program+"\n"+script+"\n", 0644)
		args := []interface{}{name}
		if shell {
			w := osWord(r)
			writeFile(filepath.Join(dir, name), "#! "+program+"\n"+"printf '<%s>' \"$#\" \"$1\" \"$2\"", 0644)
			args = append(args, w, 55)
			want = "<2><" + w + "><55>"
		}
		function(want, "", args...)
	case 7: // unknown command
		name := "unknown_" + word
		if r.Intn(2) == 0 {
			writeFile(filepath.Join(dir, "file"), name+pick(r, "", "\n", " arg\n"), 0644)
			function("", name, "file")
			break
		}
		function("", name, pick(r, name, name+" arg", name+"; exit 127"))
	case 8: // a template of the document
		text := `{{ define "the command" }}echo hello {{ .who }} {{ .word }}{{ end }}{{ run "the command" (dict "who" "you") }}|{{ .word }}|{{ .who | default "nobody" }}`
		out, err := t.ProcessContent(text, filepath.Join(dir, "document"))
		if want := fmt.Sprintf("hello you %s\n|%s|nobody", word, word); err != nil || out != want {
			c.Fail("template", "%s gives %q %v, expected %q", text, out, err, want)
		}
		expression = text
	}
	c.Obs(expression, true)
}

var smallOpts = genOpts{keys: ident, scalars: importScalar}

func execSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	t := osTemplate(c, dir, map[string]interface{}{})
	switch r.Intn(3) {
	case 0, 1:
		var value interface{} = genMap(r, 3, smallOpts)
		if r.Intn(3) == 0 {
			value = genList(r, 2, smallOpts)
		}
		text := js(value)
		writeFile(filepath.Join(dir, "data.json"), text+"\n", 0644)
		got, err := t.value(pick(r, `exec "cat data.json"`, "exec \"cat\" `"+filepath.Join(dir, "data.json")+"`"))
		if err != nil || canonLoose(got) != canonLoose(value) {
			c.Fail("data", "exec on %s gives %s %v", text, canonLoose(got), err)
		}
		c.Event("data")
		c.Obs(text, true)
	case 2:
		lines := []string{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			lines = append(lines, safeWord(r)+" "+safeWord(r)+", "+safeWord(r))
		}
		text := strings.Join(lines, "\n") + pick(r, "", "\n")
		writeFile(filepath.Join(dir, "text"), text, 0644)
		got, err := t.value(`exec "cat text"`)
		if err != nil || strings.Join(strings.Fields(fmt.Sprint(got)), " ") != strings.Join(strings.Fields(text), " ") {
			c.Fail("text", "exec on %q gives %#v %v", text, got, err)
		}
		c.Event("text")
		c.Obs(text, true)
	}
}

// the command line leaves nothing but its results behind the commands
func leftSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	tmp := filepath.Join(dir, "tmp")
	must0(os.MkdirAll(tmp, 0755))
	work := filepath.Join(dir, "work")
	var text, want string
	fails := false
	stdin, env := "", []string{"TMPDIR=" + tmp, "HOME=" + dir}
	if r.Intn(3) == 0 {
		// the commands read the standard input of the process
		stdin, env = osWord(r)+"\n", append(env, "GOTEMPLATE_NO_STDIN=1")
		text += pick(r, "{{ run `cat` }}", "{{ run `cat | cat` }}")
		want += stdin
		c.Event("standard input")
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			text += "{{ run `echo a; echo b` }}"
			want += "a\nb\n"
		case 1:
			text += "{{ run `#! /bin/sh\necho shebang $(ls $TMPDIR | grep -c exec_)` }}"
			want += "shebang 1\n"
		case 2:
			text += "{{ exec `echo 5 | cat` }}"
			want += "5"
		case 3:
			text += "{{ $f := run `echo other; exit 4` }}"
			fails = true
		case 4:
			text += "{{ (exec `echo '{\"a\": 1}' | cat`).a }}"
			want += "1"
		}
	}
	writeFile(filepath.Join(work, "doc.gt"), text, 0644)
	so, se, code := runCLI(work, stdin, env, "run", "--strict", "-P", "doc.gt")
	c.Obs(text, true)
	left, _ := os.ReadDir(tmp)
	if len(left) != 0 {
		c.Fail("left", "%q leaves %v in the temporary folder: %s", text, left, se)
	}
	if fails != (code != 0) || !fails && so != want {
		c.Fail("cli", "%q exit %d gives %q instead of %q: %s", text, code, so, want, se)
	}
	c.Event(iifs(fails, "failed", "done"))
}

func fileSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	t := osTemplate(c, dir, map[string]interface{}{})
	eval := func(function string, args ...interface{}) (interface{}, error) {
		text := ""
		for i, a := range args {
			t.Context().Set(fmt.Sprintf("arg%d", i), a)
			text += fmt.Sprintf(" $.arg%d", i)
		}
		return t.value(function + text)
	}
	expect := func(want interface{}, function string, args ...interface{}) {
		got, err := eval(function, args...)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail("file", "%s on %q gives %.200q %v, expected %.200q", function, args, fmt.Sprint(got), err, fmt.Sprint(want))
		}
		c.Event("answers")
	}
	// save and load
	name := filepath.Join(dir, pick(r, "plain.txt", "new/file", "with space", "é世", "x.gt"))
	previous := r.Intn(2) == 0
	if previous {
		writeFile(name, strings.Repeat("previous content", 20), 0600)
	}
	var object interface{}
	var want []byte
	switch r.Intn(5) {
	case 0, 1:
		object = randString(r, "abc é世\n\t{}@\"\x00\x1b:,[]1", 0, 60)
		want = []byte(object.(string))
	case 2:
		b := make([]byte, r.Intn(80))
		r.Read(b)
		object, want = b, b
	case 3:
		object = r.Intn(100000) - 50000
		want = []byte(fmt.Sprint(object))
	case 4:
		b := make([]byte, 1+r.Intn(30))
		list := make([]interface{}, len(b))
		for i := range b {
			b[i] = byte(r.Intn(256))
			list[i] = b[i]
		}
		object, want = list, b
	}
	save := pick(r, "save", "write", "writeTo")
	if got, err := eval(save, name, object); err != nil || got != "" {
		c.Fail("save", "save %q %s gives %v %v", name, js(object), got, err)
	}
	content := must1(os.ReadFile(name))
	if !bytes.Equal(content, want) {
		c.Fail("save", "save %q of %T %s wrote %q", name, object, js(object), content)
	}
	loaded, err := eval(pick(r, "load", "read", "readFrom"), name)
	if err != nil || loaded != string(want) {
		c.Fail("load", "load of %q gives %q %v", want, loaded, err)
	}
	loaded, err = eval("load", name, true)
	if b, ok := loaded.([]byte); err != nil || !ok || !bytes.Equal(b, want) {
		c.Fail("load", "load in binary of %q gives %#v %v", want, loaded, err)
	}
	if loaded, err = eval("load", name, false); err != nil || loaded != string(want) {
		c.Fail("load", "load %q as text gives %#v %v", want, loaded, err)
	}
	if !previous {
		expect(os.FileMode(0644), "mode", name)
		if folder := filepath.Dir(name); folder != dir {
			expect(os.ModeDir|os.FileMode(0755), "mode", folder)
		}
	} else {
		expect(os.FileMode(0600), "mode", name)
	}
	if _, err = eval(save, filepath.Join(dir, "no", "such", "folder", "x"), "text"); err == nil {
		c.Fail("save", "save in a missing folder gives no error")
	}
	if _, err = eval("load", filepath.Join(dir, "missing")); err == nil {
		c.Fail("load", "load of a missing file gives no error")
	}
	c.Event("round trip")

	// what is said about the files
	var names []string
	for i := 2 + r.Intn(5); i > 0; i-- {
		name := filepath.Join(dir, "z", ident(r)+pick(r, "", ".txt", ".md", ".x y"))
		if _, err := os.Lstat(name); err == nil {
			continue
		}
		mode := os.FileMode(r.Intn(512))
		size, isDir := r.Intn(500), r.Intn(4) == 0
		if isDir {
			must0(os.MkdirAll(name, 0755))
		} else {
			writeFile(name, strings.Repeat("x", size), 0644)
		}
		must0(os.Chmod(name, mode))
		when := time.Unix(r.Int63n(2000000000), int64(r.Intn(1000))*1000000)
		must0(os.Chtimes(name, when, when))
		names = append(names, filepath.Base(name))
		if r.Intn(4) == 0 {
			must0(os.Symlink(name, name+".link"))
			names = append(names, filepath.Base(name)+".link")
			if r.Intn(2) == 0 {
				name += ".link"
			}
		}
		expect(true, pick(r, "exists", "fileExists", "isExist"), name)
		expect(isDir, pick(r, "isDir", "isDirectory", "isFolder"), name)
		expect(!isDir, "isFile", name)
		expect(mode&0400 != 0, "isReadable", name)
		expect(mode&0200 != 0, "isWriteable", name)
		expect(mode&0100 != 0 && !isDir, "isExecutable", name)
		full := mode
		if isDir {
			full |= os.ModeDir
		} else {
			expect(size, pick(r, "size", "fileSize"), name)
		}
		expect(full, pick(r, "mode", "fileMode"), name)
		got, err := eval(pick(r, "lastMod", "lastModification"), name)
		if g, ok := got.(time.Time); err != nil || !ok || !g.Equal(when) {
			c.Fail("file", "lastMod of %q gives %v %v instead of %v", name, got, err, when)
		}
		c.Obs(fmt.Sprint(mode, isDir, size), true)
	}
	missing := filepath.Join(dir, "z", "nothing")
	expect(false, "exists", missing)
	for _, f := range []string{"isDir", "isFile", "isReadable", "isWriteable", "isExecutable", "size", "mode", "lastMod", "stat"} {
		if got, err := eval(f, missing); err == nil {
			c.Fail("missing", "%s on a missing file gives %v", f, got)
		}
	}
	c.Event("missing")

	// patterns
	var args []interface{}
	wanted := []string{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		pattern := pick(r, "*", "*.txt", "?*", "[a-m]*", "[^a-m]*.md", "*.none", "*.link", "nothing", "*e*", "??")
		args = append(args, filepath.Join(dir, "z", pattern))
		if !strings.ContainsAny(pattern, "*?[") {
			wanted = append(wanted, filepath.Join(dir, "z", pattern))
			continue
		}
		list := []string{}
		for _, n := range names {
			if must1(path.Match(pattern, n)) {
				list = append(list, filepath.Join(dir, "z", n))
			}
		}
		sort.Strings(list)
		wanted = append(wanted, list...)
	}
	got, err := eval(pick(r, "glob", "expand"), args...)
	if err != nil || canonLoose(got) != canonLoose(toAny(wanted)) {
		c.Fail("glob", "glob %q gives %v %v, expected %v", args, got, err, wanted)
	}
	c.Event("glob")
	folder := must1(os.Getwd())
	expect(folder, pick(r, "pwd", "currentDir"))
	expect(dir, "current")
	a, b := pick(r, "a", "/a/", "", "a/../b"), pick(r, "b", "../b", "", "/b", "./b//c")
	expect(path.Join(a, b), "joinPath", a, b)
	me := must1(user.Current())
	group := must1(user.LookupGroupId(me.Gid))
	expect(me.Username, "username")
	expect(me.HomeDir, pick(r, "home", "homeDir", "homeFolder"))
	expect(me.Uid+me.Name, "(printf `%s%s` user.Uid user.Name)")
	expect(group.Name+group.Gid, "(printf `%s%s` group.Name userGroup.Gid)")
	tool := pick(r, "bash", "ls", "missing tool", "cat")
	where, _ := exec.LookPath(tool)
	expect(where, pick(r, "lookPath", "which", "whereIs", "look"), tool)
}

func toAny(list []string) []interface{} {
	out := []interface{}{}
	for _, s := range list {
		out = append(out, s)
	}
	return out
}

// the colored difference of two texts contains both
func diffSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	t := osTemplate(c, dir, map[string]interface{}{})
	line := func() string {
		return pick(r, "common line", "other line", safeWord(r), "", osWord(r), strings.Repeat("long ", r.Intn(60)))
	}
	var lines []string
	for i := r.Intn(8); i > 0; i-- {
		lines = append(lines, line())
	}
	text1 := strings.Join(lines, "\n")
	lines = append([]string{}, lines...)
	for i := r.Intn(4); i > 0; i-- {
		at := r.Intn(len(lines) + 1)
		switch {
		case r.Intn(2) == 0 || at == len(lines):
			lines = append(lines[:at:at], append([]string{line()}, lines[at:]...)...)
		case r.Intn(2) == 0:
			lines = append(lines[:at:at], lines[at+1:]...)
		default:
			lines[at] = line()
		}
	}
	text2 := strings.Join(lines, "\n")
	t.Context().Set("a", text1)
	t.Context().Set("b", text2)
	got, err := t.value(pick(r, "diff", "difference") + " $.a $.b")
	if err != nil {
		c.Fail("diff", "diff %q %q: %v", text1, text2, err)
		return
	}
	var first, second strings.Builder
	text, state := fmt.Sprint(got), 0
	for text != "" {
		at := strings.Index(text, "\x1b[")
		part := text
		if at >= 0 {
			part = text[:at]
		}
		if state != 1 {
			second.WriteString(part)
		}
		if state != 2 {
			first.WriteString(part)
		}
		if at < 0 {
			break
		}
		end := at + strings.IndexByte(text[at:], 'm')
		switch code := text[at+2 : end]; code {
		case "31":
			state = 1
		case "32":
			state = 2
		case "0":
			state = 0
		}
		text = text[end+1:]
		c.Event("marks")
	}
	// colors are set line by line, so the side of an end of line is not always known
	flat := func(s string) string { return strings.ReplaceAll(s, "\n", "") }
	n, n1, n2 := strings.Count(fmt.Sprint(got), "\n"), strings.Count(text1, "\n"), strings.Count(text2, "\n")
	if flat(first.String()) != flat(text1) || flat(second.String()) != flat(text2) || n < n1 || n < n2 || n > n1+n2 {
		c.Fail("diff", "diff %q %q gives %q", text1, text2, got)
	}
	c.Obs(text1+"|"+text2, text1 != text2)
}

func init() {
	register(&Property{
		ID:   "P21",
		Rule: "run gives exactly the standard output of the command executed in the folder of the template (programs receive their arguments as they are, scripts are executed by the shell or by the program of their first line), exec its value, a failure is an error with the exit status and the error output, no temporary file is left; save and load are faithful and the questions about files are answered as the file system does",
		Suites: []Suite{
			{Name: "run", Quick: 3000, Thorough: 60000, Run: runSuite, Need: []string{"output", "failing command", "kind 8"}},
			{Name: "exec", Quick: 400, Thorough: 8000, Run: execSuite, Need: []string{"data", "text"}},
			{Name: "left", Quick: 300, Thorough: 5000, Run: leftSuite, Need: []string{"failed", "done"}},
			{Name: "files", Quick: 1500, Thorough: 30000, Run: fileSuite, Need: []string{"answers", "round trip", "glob"}},
			{Name: "diff", Quick: 1500, Thorough: 30000, Run: diffSuite, Need: []string{"marks"}},
		},
	})
}

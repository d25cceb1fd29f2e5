package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// P25: messages and failures asked by the templates.

type logMessage struct {
	level int
	text  string
}

var logFunctions = map[string]int{
	"trace": 6, "tracef": 6, "debug": 5, "debugf": 5, "info": 4, "infof": 4, "notice": 4, "noticef": 4,
	"warning": 3, "warn": 3, "warnf": 3, "warningf": 3, "error": 2, "errorf": 2, "critical": 2, "criticalf": 2,
}

var logLevelNames = []string{"PANIC", "FATAL", "ERROR", "WARNING", "INFO", "DEBUG", "TRACE"}

// msgArgs returns arguments (Go syntax of each) and the message that they mean.
func msgArgs(r *rand.Rand) (args []string, text string) {
	word := func() string {
		return pick(r, "alpha", "a b", "été", "x=1", "k: v", "[z]", "it's", "tab\there", "") + fmt.Sprint(r.Intn(100))
	}
	value := func() (string, interface{}) {
		switch r.Intn(5) {
		case 0:
			n := r.Intn(2000) - 500
			return fmt.Sprint(n), n
		case 1:
			f := float64(r.Intn(100)) + 0.5
			return fmt.Sprint(f), f
		case 2:
			b := r.Intn(2) == 0
			return fmt.Sprint(b), b
		}
		w := word()
		return fmt.Sprintf("%q", w), w
	}
	switch r.Intn(6) {
	case 0:
		return nil, ""
	case 1: // a text
		w := pick(r, "hello", "100%", "%d", "two words", "µ") + word()
		return []string{fmt.Sprintf("%q", w)}, w
	case 2: // a multi-line text
		w := word() + "\n" + word()
		return []string{fmt.Sprintf("%q", w)}, w
	case 3, 4: // a format
		format, vals := "", []interface{}{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			src, v := value()
			verb := "%v"
			switch v.(type) {
			case int:
				verb = pick(r, "%v", "%d", "%05d", "%x")
			case float64:
				verb = pick(r, "%v", "%.2f", "%8.3f")
			case string:
				verb = pick(r, "%v", "%s", "%q", "%-8s")
			}
			format += pick(r, "", "v=", "50%% ", "/") + verb
			args, vals = append(args, src), append(vals, v)
		}
		format += pick(r, "", ".", " end")
		return append([]string{fmt.Sprintf("%q", format)}, args...), fmt.Sprintf(format, vals...)
	}
	// values
	vals := []interface{}{}
	for i := 2 + r.Intn(3); i > 0; i-- {
		src, v := value()
		if i == 2 && len(args) == 0 && strings.Contains(src, "%") {
			continue
		}
		args, vals = append(args, src), append(vals, v)
	}
	return args, strings.TrimSuffix(fmt.Sprintln(vals...), "\n")
}

// msgCall spells a call in Go template or razor; it renders nothing by itself.
func msgCall(r *rand.Rand, fn string, args []string) string {
	if r.Intn(2) == 0 {
		return "{{ " + strings.TrimSpace(fn+" "+strings.Join(args, " ")) + " }}"
	}
	return "@" + fn + "(" + strings.Join(args, pick(r, ", ", ",")) + ");"
}

type msgDoc struct {
	src, out string
	messages []logMessage
	end      string // fatal, exit, raise, assert, panic or nothing
	code     int
	message  string // message of the end
	untilEnd int    // number of messages up to the end
}

func genMsgDoc(r *rand.Rand, mayEnd bool) (d msgDoc) {
	names := sortedKeys(logFunctions)
	endAt := -1
	n := 2 + r.Intn(5)
	if mayEnd {
		endAt = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("line %d ", i)
		d.src, d.out = d.src+t, d.out+t
		args, text := msgArgs(r)
		if i == endAt {
			d.end = pick(r, "fatal", "exit", "raise", "raiseError", "assert", "assertion", "panic", "assert-default")
			d.message = text
			switch d.end {
			case "fatal":
				d.src += msgCall(r, pick(r, "fatal", "fatalf"), args)
				d.code = 1
				d.messages = append(d.messages, logMessage{1, text})
			case "panic":
				d.src += msgCall(r, pick(r, "panic", "panicf"), args)
				d.code = 1
				d.messages = append(d.messages, logMessage{0, text})
			case "exit":
				d.code = r.Intn(100)
				d.src += msgCall(r, "exit", []string{fmt.Sprint(d.code)})
			case "raise", "raiseError":
				d.src += msgCall(r, d.end, args)
				d.code = 1
			case "assert-default":
				d.src += msgCall(r, "assert", []string{pick(r, "false", "0", `""`)})
				d.code, d.message = 1, "Assertion failed"
			default:
				if len(args) == 0 {
					args, d.message = []string{`"required"`}, "required"
				}
				d.src += msgCall(r, d.end, append([]string{pick(r, "false", "0", `""`, ".n.zero")}, args...))
				d.code = 1
			}
			d.untilEnd = len(d.messages)
			d.src += " after\n"
			d.out += " after\n"
			continue
		}
		switch r.Intn(6) {
		case 0: // conditions
			fn := pick(r, names...)
			if r.Intn(2) == 0 {
				d.src += "{{ if .n.zero }}" + msgCall(r, fn, args) + "{{ end }}"
			} else {
				d.src += "{{ if not .n.zero }}" + msgCall(r, fn, args) + "{{ end }}"
				d.messages = append(d.messages, logMessage{logFunctions[fn], text})
			}
		case 1: // loops
			fn, k := pick(r, names...), r.Intn(4)
			d.src += fmt.Sprintf("{{ range until %d }}", k) + msgCall(r, fn, args) + "{{ end }}"
			for ; k > 0; k-- {
				d.messages = append(d.messages, logMessage{logFunctions[fn], text})
			}
		case 2:
			ok := r.Intn(2) == 0
			test := pick(r, "false", "0", `""`, ".n.zero")
			if ok {
				test = pick(r, "true", "1", `"x"`, ".n.one")
			}
			if len(args) == 0 {
				text = "Assertion failed"
			}
			d.src += msgCall(r, pick(r, "assertWarning", "assertw"), append([]string{test}, args...))
			if !ok {
				d.messages = append(d.messages, logMessage{3, text})
			}
		case 3:
			d.src += msgCall(r, pick(r, "assert", "assertion"), append([]string{pick(r, "true", "1", `"x"`, ".n.one")}, args...))
		default:
			fn := pick(r, names...)
			d.src += msgCall(r, fn, args)
			d.messages = append(d.messages, logMessage{logFunctions[fn], text})
		}
		d.src, d.out = d.src+" end\n", d.out+" end\n"
	}
	return
}

var logLine = regexp.MustCompile(`(?m)^\[(gotemplate|gotemplate-internal)\] \d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{3} (PANIC|FATAL|ERROR|WARNING|INFO|DEBUG|TRACE) *`)

// logHeader is written by each logger that opens the file.
var logHeader = regexp.MustCompile(`(?m)(^\n)?^# \d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{3}\n`)

// parseLog returns the messages of the templates and the text that is not a message.
func parseLog(s string) (res []logMessage, rest string) {
	pos := logLine.FindAllStringSubmatchIndex(s, -1)
	if len(pos) == 0 {
		return nil, s
	}
	rest = s[:pos[0][0]]
	for i, p := range pos {
		end := len(s)
		if i+1 < len(pos) {
			end = pos[i+1][0]
		}
		if s[p[2]:p[3]] != "gotemplate" {
			continue
		}
		for l, name := range logLevelNames {
			if name == s[p[4]:p[5]] {
				res = append(res, logMessage{l, s[p[1]:end]})
			}
		}
	}
	return
}

// msgSame compares the text of a message with the text found in a log (that may be followed by other outputs when it is the last).
func msgSame(want, got string, last bool) bool {
	want, got = strings.TrimLeft(want, " ")+"\n", strings.TrimLeft(got, " ")
	if last {
		return strings.HasPrefix(got, want)
	}
	return got == want
}

func messagesSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	args, env := []string{"-P", "-V", "n={zero: 0, one: 1}"}, []string(nil)
	var docs []msgDoc
	var names []string
	for i := 1 + r.Intn(2); i > 0; i-- {
		d := genMsgDoc(r, r.Intn(3) == 0)
		docs = append(docs, d)
		names = append(names, fmt.Sprintf("d%d.gt", len(docs)))
		writeFile(filepath.Join(dir, names[len(names)-1]), d.src, 0644)
	}
	level := func(def int) (string, int) {
		l := r.Intn(8) - 1
		switch {
		case l < 0:
			return pick(r, "disabled", "Disabled"), -1
		case r.Intn(3) == 0:
			return fmt.Sprint(l), l
		}
		name := logLevelNames[l]
		if l == 3 && r.Intn(2) == 0 {
			name = "warn"
		}
		return pick(r, strings.ToLower(name), name), l
	}
	shown, filed := 4, 6
	invalid := false
	switch r.Intn(6) {
	case 0:
	case 1:
		v, l := level(4)
		shown, env = l, append(env, "GOTEMPLATE_TEMPLATE_LOG_LEVEL="+v)
	case 2:
		invalid = true
		args = append(args, "--template-log-level=unknown")
	default:
		v, l := level(4)
		shown, args = l, append(args, "--template-log-level", v)
	}
	if r.Intn(3) == 0 {
		v, _ := level(3)
		args = append(args, pick(r, "-L", "--internal-log-level"), v)
	}
	logFile := ""
	if r.Intn(2) == 0 {
		logFile = filepath.Join(dir, pick(r, "log", "new/sub/trace.log"))
		args = append(args, pick(r, "-F", "--internal-log-file-path"), logFile)
		if r.Intn(2) == 0 {
			v, l := level(6)
			filed, args = l, append(args, "--template-log-file-level", v)
		}
		if r.Intn(2) == 0 {
			v, _ := level(5)
			args = append(args, "--internal-log-file-level", v)
		}
	}
	args = append(args, names...)
	so, se, code := runCLI(dir, "", env, args...)

	wantOut, wantCode := "", 0
	var failed []msgDoc
	var all []logMessage
	repeated, stopped := false, false
	for _, d := range docs {
		all = append(all, d.messages...)
		if d.end != "" {
			c.Event("end " + d.end)
			wantCode = d.code
			if d.end == "exit" || d.end == "fatal" {
				stopped = true
				break
			}
			repeated = true
			failed = append(failed, d)
			wantCode = 1
			continue
		}
		wantOut += d.out
	}
	detail := func() string {
		s := fmt.Sprintf("%v env %v\n", args, env)
		for _, d := range docs {
			s += fmt.Sprintf("%q\n", d.src)
		}
		return s + fmt.Sprintf("exit %d\nstdout %q\nstderr %q", code, so, clip(se, 3000))
	}
	if stopped {
		// messages of the lines after the end of the last document executed do not exist
		all = nil
		for _, d := range docs {
			if d.end == "exit" || d.end == "fatal" {
				all, wantCode = append(all, d.messages[:d.untilEnd]...), d.code
				break
			}
			all = append(all, d.messages...)
		}
	}
	if so != wantOut {
		c.Fail("stdout", "expected stdout %q\n%s", wantOut, detail())
	}
	if code != wantCode {
		c.Fail("exit code", "expected %d\n%s", wantCode, detail())
	}
	if !invalid { // the level is then the one of the logging library
		c.checkMessages("stderr", se, all, shown, repeated, detail)
	}
	if invalid != strings.Contains(se, "Unable to set logging level for templates") {
		c.Fail("invalid level", "%s", detail())
	}
	if stopped {
		failed = nil
	}
	for _, d := range failed {
		if d.end != "panic" && !strings.Contains(se, d.message) {
			c.Fail("message of the error", "%q is not shown\n%s", d.message, detail())
		}
	}
	if logFile != "" {
		b, err := os.ReadFile(logFile)
		content := logHeader.ReplaceAllString(string(b), "")
		if err == nil || len(all) > 0 && filed >= all[0].level {
			must0(err)
		}
		c.checkMessages("file", content, all, filed, repeated, func() string { return detail() + fmt.Sprintf("\nfile %q", clip(content, 3000)) })
		c.Event("log files")
	}
	if left, _ := filepath.Glob(filepath.Join(dir, "gotemplate-*")); len(left) > 0 {
		c.Fail("temporary folder", "%v is left\n%s", left, detail())
	}
	c.Event("messages", len(all))
	c.Obs(fmt.Sprint(args, docs), len(all) > 0)
}

func (c *Ctx) checkMessages(where, text string, want []logMessage, level int, repeated bool, detail func() string) {
	got, _ := parseLog(text)
	var exp []logMessage
	for _, m := range want {
		if m.level <= level {
			exp = append(exp, m)
		}
	}
	fail := func(what string) {
		c.Fail("messages on "+where, "%s\nexpected %v\nobserved %v\n%s", what, exp, got, detail())
	}
	if !repeated {
		if len(got) != len(exp) {
			fail("number of messages")
			return
		}
		for i := range exp {
			if exp[i].level != got[i].level || !msgSame(exp[i].text, got[i].text, i+1 == len(exp)) {
				fail(fmt.Sprintf("message %d", i))
				return
			}
		}
		return
	}
	// a document in error is executed again to find its other errors
	seen := func(m logMessage, in []logMessage, wanted bool) bool {
		for i, o := range in {
			if m.level == o.level && (wanted && msgSame(o.text, m.text, true) || !wanted && msgSame(m.text, o.text, true)) {
				return true
			}
			_ = i
		}
		return false
	}
	for _, m := range exp {
		if !seen(m, got, false) {
			fail("missing: " + m.text)
		}
	}
	for _, m := range got {
		if !seen(m, exp, true) {
			fail("unexpected: " + m.text)
		}
	}
}

func init() {
	register(&Property{
		ID:   "P25",
		Rule: "one evaluation is one command line whose templates log messages; distinct by templates and arguments, runs without message do not count",
		Suites: []Suite{
			{Name: "messages", Quick: 2500, Thorough: 60000, Run: messagesSuite, Need: []string{"messages", "log files", "end exit", "end fatal", "end raise", "end panic"}},
		},
	})
}

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// ---- P20: substitutions ----------------------------------------------------------------------

// sub is a substitute expression with what it means.
type sub struct {
	text  string
	apply func(string) string
}

func separator(r *rand.Rand, used string) string {
	for {
		if s := pick(r, "/", "/", "/", "|", "#", "%", ",", "~", "!", ";", ":", "&", "=", "§", "→"); !strings.Contains(used, s) {
			return s
		}
	}
}

// linesWhere keeps the lines for which keep is true; a last line without newline is never a line to delete.
func linesWhere(text string, keep func(string) bool) string {
	lines := strings.SplitAfter(text, "\n")
	var out strings.Builder
	for _, l := range lines {
		if !strings.HasSuffix(l, "\n") || keep(strings.TrimSuffix(l, "\n")) {
			out.WriteString(l)
		}
	}
	return out.String()
}

var substWords = []string{"alpha", "beta", "gamma", "delta", "x1", "é∂", "KEY", "alphabet", "dd", "d", "end", "UPPER", "\"quoted\"", "$x", "a.b", "a+b", "(p)", "[q]"}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func genSub(r *rand.Rand) sub {
	word := pick(r, substWords...)
	make := func(pattern, replacement string, f func(string) string) sub {
		s := separator(r, pattern+replacement)
		text := s + pattern + s + replacement
		if r.Intn(8) == 0 && strings.TrimSpace(replacement) == replacement {
			// The blanks around a substitute are ignored
			text = pick(r, " ", "\t", "  ") + text + pick(r, "", " ", "\t ")
		}
		return sub{text, f}
	}
	switch r.Intn(14) {
	case 12: // letters of any case
		w := pick(r, "alpha", "key", "D", "x1")
		return make("(?i)"+w, "<i>", func(s string) string {
			var out strings.Builder
			for i := 0; i < len(s); {
				if i+len(w) <= len(s) && asciiLower(s[i:i+len(w)]) == asciiLower(w) {
					out.WriteString("<i>")
					i += len(w)
				} else {
					out.WriteByte(s[i])
					i++
				}
			}
			return out.String()
		})
	case 13: // deletion of lines with other flags
		w := pick(r, "alpha", "key", "D", "x1", "upper")
		starts := r.Intn(2) == 0
		expr := pick(r, "(?i)", "(?i:)(?i)") + "^" + pick(r, "", "()", "(?:)")
		if !starts {
			expr += ".*"
		}
		return make(expr+w+".*$", "d", func(s string) string {
			return linesWhere(s, func(l string) bool {
				if starts {
					return !strings.HasPrefix(asciiLower(l), asciiLower(w))
				}
				return !strings.Contains(asciiLower(l), asciiLower(w))
			})
		})
	case 0, 1, 2: // literal text
		to := pick(r, "ALPHA", "beta", "two words", "y", "ddd", "D", "$$", "${0}!", "gamma\tdelta", "ok{", "x1x1")
		literal := strings.NewReplacer("$$", "$", "${0}", word).Replace(to)
		return make(regexp.QuoteMeta(word), to, func(s string) string { return strings.ReplaceAll(s, word, literal) })
	case 3: // nothing
		return make(regexp.QuoteMeta(word), "", func(s string) string { return strings.ReplaceAll(s, word, "") })
	case 4: // deletion of the text
		return make(regexp.QuoteMeta(word), "d", func(s string) string { return strings.ReplaceAll(s, word, "") })
	case 5: // groups
		re := pick(r, `([a-z]+)=([0-9]+)`, `(?P<k>[a-z]+)=(?P<v>[0-9]+)`)
		to := "$2:${1}"
		if strings.Contains(re, "?P") {
			to = pick(r, "${v}:${k}", "$v:$k", "${2}:$1")
		}
		return make(re, to, func(s string) string {
			var out strings.Builder
			for i := 0; i < len(s); {
				j := i
				for j < len(s) && s[j] >= 'a' && s[j] <= 'z' {
					j++
				}
				k := j + 1
				for j < len(s) && s[j] == '=' && k < len(s) && s[k] >= '0' && s[k] <= '9' {
					k++
				}
				switch {
				case j == i:
					out.WriteByte(s[i])
					i++
				case j < len(s) && s[j] == '=' && k > j+1:
					out.WriteString(s[j+1:k] + ":" + s[i:j])
					i = k
				default:
					out.WriteString(s[i:j])
					i = j
				}
			}
			return out.String()
		})
	case 6: // whole words
		w := pick(r, "alpha", "d", "KEY")
		return make(`\b`+w+`\b`, "<"+w+">", func(s string) string {
			var out strings.Builder
			for i := 0; i < len(s); {
				if strings.HasPrefix(s[i:], w) && (i == 0 || !isWordByte(s[i-1])) && (i+len(w) == len(s) || !isWordByte(s[i+len(w)])) {
					out.WriteString("<" + w + ">")
					i += len(w)
				} else {
					out.WriteByte(s[i])
					i++
				}
			}
			return out.String()
		})
	case 7: // deletion of the lines that start with
		return make("^"+regexp.QuoteMeta(word)+".*$", "d", func(s string) string {
			return linesWhere(s, func(l string) bool { return !strings.HasPrefix(l, word) })
		})
	case 8: // deletion of the lines that contain
		prefix := pick(r, "^.*", "(?m)^.*")
		return make(prefix+regexp.QuoteMeta(word)+".*$", "d", func(s string) string {
			return linesWhere(s, func(l string) bool { return !strings.Contains(l, word) })
		})
	case 9: // deletion of empty lines
		return make(pick(r, `^\s*$`, `^[ \t]*$`, `(?m)^\s*$`), "d", func(s string) string {
			return linesWhere(s, func(l string) bool { return strings.Trim(l, " \t") != "" })
		})
	case 10: // anchors are those of the text
		return make("^"+regexp.QuoteMeta(word), "START", func(s string) string {
			if strings.HasPrefix(s, word) {
				return "START" + s[len(word):]
			}
			return s
		})
	}
	// joins the lines
	return make(`\n`+regexp.QuoteMeta(word), "_", func(s string) string { return strings.ReplaceAll(s, "\n"+word, "_") })
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

func applySubs(list []sub, s string) string {
	for _, e := range list {
		s = e.apply(s)
	}
	return s
}

func subTexts(list []sub) (result []string) {
	for _, e := range list {
		result = append(result, e.text)
	}
	return
}

func genSubs(r *rand.Rand, max int) (result []sub) {
	for i := r.Intn(max + 1); i > 0; i-- {
		result = append(result, genSub(r))
	}
	return
}

func substText(r *rand.Rand) string {
	var out strings.Builder
	for i := 1 + r.Intn(7); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			out.WriteString(pick(r, "", "", " ", "\t", "  \t"))
		case 1:
			out.WriteString(pick(r, "abc=12", "k=3, v=4", "x=", "=5", "ab=1cd=2"))
		default:
			for k := 1 + r.Intn(4); k > 0; k-- {
				out.WriteString(pick(r, substWords...) + pick(r, " ", "", ",", "  "))
			}
		}
		if i > 1 || r.Intn(4) > 0 {
			out.WriteString("\n")
		}
	}
	return out.String()
}

// codeCall is the code used in the documents.
var codeCall = regexp.MustCompile("\\{\\{ printf `%s!` \\(substitute `([^`]*)`\\) \\}\\}|\\{\\{ \\.VALUE \\}\\}|\\{\\{ print `CO` `DE` \\}\\}")
var anyCode = regexp.MustCompile(`(?s)\{\{.*?\}\}|\{\{|\}\}`)

// substRender is the meaning of the code used here.
func substRender(text, value string, substitute func(string) string) string {
	return codeCall.ReplaceAllStringFunc(text, func(m string) string {
		switch {
		case strings.Contains(m, "VALUE"):
			return value
		case strings.Contains(m, "CO"):
			return "CODE"
		}
		return substitute(codeCall.FindStringSubmatch(m)[1]) + "!"
	})
}

// substitutionSuite: the expressions are applied in order on the source, and on the result when there is code.
func substitutionSuite(c *Ctx) {
	r := c.Rng
	list := genSubs(r, 4)
	value := pick(r, "alpha beta", "KEY", "d", "k=3", "other", "x1\nalpha\n\nend")
	src := substText(r)
	for i := r.Intn(4); i > 0; i-- {
		code := pick(r, "{{ printf `%s!` (substitute `"+strings.ReplaceAll(strings.TrimSpace(substText(r)), "\n", " ")+"`) }}", "{{ .VALUE }}", "{{ print `CO` `DE` }}")
		at := strings.LastIndexAny(src[:r.Intn(len(src)+1)], " ,\n") + 1
		src = src[:at] + code + src[at:]
	}
	if r.Intn(6) == 0 { // a substitution that makes code
		list = append(list, sub{"|MAKE|{{ .VALUE }}", func(s string) string { return strings.ReplaceAll(s, "MAKE", "{{ .VALUE }}") }})
		src += "MAKE\n"
		c.Event("code made")
	}
	if r.Intn(6) == 0 { // the code made in the result is not evaluated
		list = append(list, sub{"/CODE$/{{ .VALUE }}", func(s string) string {
			if strings.HasSuffix(s, "CODE") {
				return strings.TrimSuffix(s, "CODE") + "{{ .VALUE }}"
			}
			return s
		}})
		src += "{{ print `CO` `DE` }}"
		c.Event("code made by the result")
	}
	all := func(s string) string { return applySubs(list, s) }
	want := all(src)
	for _, m := range anyCode.FindAllString(want, -1) {
		if codeCall.FindString(m) != m {
			c.Event("altered code")
			return
		}
	}
	if anyCode.MatchString(want) {
		want = all(substRender(want, value, all))
		c.Event("documents with code")
	} else {
		c.Event("documents without code")
	}
	t := newTemplate(map[string]interface{}{"VALUE": value}, "", strictOptions(), subTexts(list)...)
	got, err := t.ProcessContent(src, "doc.txt")
	if err != nil || got != want {
		c.Fail("substitution", "with %q, document %q\ngives    %q (%v)\nexpected %q", subTexts(list), src, got, err, want)
	}
	c.Obs(src+strings.Join(subTexts(list), "\n"), want != src)
}

// substCliSuite: substitutions given to the command line, by the environment or both.
func substCliSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	env, flags := genSubs(r, 2), genSubs(r, 3)
	for _, list := range [][]sub{env, flags} {
		for k := range list {
			for strings.HasSuffix(list[k].text, " ") || strings.HasSuffix(list[k].text, "\t") {
				list[k] = genSub(r) // surrounding blanks are ignored
			}
		}
	}
	all := append(append([]sub(nil), env...), flags...)
	var args, environ []string
	if len(env) > 0 {
		environ = append(environ, "GOTEMPLATE_SUBSTITUTES="+strings.Join(subTexts(env), "\n"))
	}
	for _, s := range flags {
		switch r.Intn(3) {
		case 0:
			args = append(args, "-s", s.text)
		case 1:
			args = append(args, "--substitute", s.text)
		default:
			args = append(args, "--substitute="+s.text)
		}
	}
	if r.Intn(3) == 0 {
		args = append(args, pick(r, "-E", "--remove-empty-lines", "--remove-empty"))
		all = append(all, sub{`/^\s*$/d`, func(s string) string {
			return linesWhere(s, func(l string) bool { return strings.Trim(l, " \t") != "" })
		}})
	}
	files, want := map[string]string{}, map[string]string{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		name := fmt.Sprintf("f%d%s", i, pick(r, ".ext.gt", ".txt", ".ext.template"))
		text := substText(r)
		files[name] = text
		res := applySubs(all, text)
		switch {
		case strings.HasSuffix(name, ".txt"):
			if res == text {
				want[name] = text
			} else {
				want[name], want[name+".original"] = res, text
			}
		case res == text:
			want[name] = text
		default:
			want[strings.Split(name, ".")[0]+".generated.ext"] = res
			want[name] = text
		}
	}
	for n, t := range files {
		writeFile(filepath.Join(dir, n), t, 0644)
	}
	args = append(args, "-p", "*.txt")
	so, se, code := runCLI(dir, "", environ, args...)
	if code != 0 {
		c.Fail("cli-error", "%q %q exits with %d\n%s%s", environ, args, code, clip(so, 500), clip(se, 1000))
		return
	}
	got := map[string]string{}
	for n := range readTree(dir) {
		got[n] = string(must1(os.ReadFile(filepath.Join(dir, n))))
	}
	if js(got) != js(want) {
		c.Fail("cli", "%q %q on %s\ngives    %s\nexpected %s", environ, args, js(files), js(got), js(want))
	}
	c.Event("files", len(files))
	c.Obs(js(files)+js(args), true)
}

func init() {
	register(&Property{
		ID:   "P20",
		Rule: "substitutes are ordered rewriting rules /pattern/replacement applied on the source, then on the result of documents with code: literal text, groups, deletions of text (d), deletions of whole lines ($/d), empty lines, any separator, from the flag, the environment or the function substitute",
		Suites: []Suite{
			{Name: "documents", Quick: 20000, Thorough: 300000, Run: substitutionSuite, Need: []string{"documents with code", "documents without code"}},
			{Name: "cli", Quick: 300, Thorough: 6000, Run: substCliSuite},
		},
	})
}

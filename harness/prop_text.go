package main

// P18: text utilities (String class, arrays of strings, formatting functions) against independent models.

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

const textAlphabet = "%ab c1_.,-\n\té日😀\"'\\(){}½Ⅷ"

func textString(r *rand.Rand) string {
	switch r.Intn(5) {
	case 4:
		return randString(r, "abAB ", 0, 12)
	case 0:
		return randString(r, "ab ", 0, 12)
	case 1:
		words := make([]string, r.Intn(8))
		for i := range words {
			words[i] = safeWord(r)
		}
		return strings.Join(words, pick(r, " ", "\n", ", ", "  "))
	case 2:
		lines := make([]string, pick(r, r.Intn(5), r.Intn(5), 9+r.Intn(3)))
		for i := range lines {
			lines[i] = pick(r, "", "  ", "\t", "    ") + randString(r, "ab c", 0, 6)
		}
		return strings.Join(lines, "\n")
	}
	return randString(r, textAlphabet, 0, 14)
}

type textCase struct {
	name string
	// code is an expression of the Go template language using .s, .a and .n
	code string
	want interface{}
}

func anyList(l []string) []interface{} {
	res := make([]interface{}, len(l))
	for i := range l {
		res[i] = l[i]
	}
	return res
}

func identifierFields(s string) []string {
	res, cur := []string{}, ""
	for _, c := range s {
		if unicode.IsLetter(c) || unicode.IsNumber(c) || c == '_' {
			cur += string(c)
			continue
		}
		if cur != "" {
			res = append(res, cur)
		}
		cur = ""
	}
	if cur != "" {
		res = append(res, cur)
	}
	return res
}

func indexAllModel(s, sub string) []interface{} {
	res := []interface{}{}
	if sub == "" {
		return res
	}
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			res = append(res, i)
			i += len(sub)
		} else {
			i++
		}
	}
	return res
}

func centerModel(s string, n int) string {
	missing := n - utf8.RuneCountInString(s)
	if missing <= 0 {
		return s
	}
	return strings.Repeat(" ", missing/2) + s + strings.Repeat(" ", missing-missing/2)
}

// wrapModel wraps unindented ASCII lines: a line takes the next word as long as the result does not exceed the width by more than the separating space.
func wrapModel(s string, width int) string {
	var lines []string
	for _, line := range strings.Split(s, "\n") {
		cur := ""
		for _, w := range strings.Fields(line) {
			switch {
			case cur == "":
				cur = w
			case len(cur)+len(w) > width:
				lines = append(lines, cur)
				cur = w
			default:
				cur += " " + w
			}
		}
		lines = append(lines, cur)
	}
	return strings.Join(lines, "\n")
}

func indentModel(s, prefix string) string {
	return prefix + strings.ReplaceAll(s, "\n", "\n"+prefix)
}

func idModel(s, replacement string) string {
	res := ""
	for _, c := range s {
		if unicode.IsLetter(c) || unicode.Is(unicode.Nd, c) || c == '_' {
			res += string(c)
		} else {
			res += replacement
		}
	}
	for strings.Contains(res, replacement+replacement) {
		res = strings.ReplaceAll(res, replacement+replacement, replacement)
	}
	return res
}

func numberedModel(s string, space int) string {
	lines := strings.Split(s, "\n")
	if space <= 0 {
		space = len(strconv.Itoa(len(lines)))
	}
	for i := range lines {
		n := strconv.Itoa(i + 1)
		lines[i] = strings.Repeat(" ", max(0, space-len(n))) + n + " " + lines[i]
	}
	return strings.Join(lines, "\n")
}

// unIndentModel removes the blanks that start the first non blank line if they start every non blank line.
func unIndentModel(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) == 1 {
		return s
	}
	blank := func(l string) bool { return strings.TrimSpace(l) == "" }
	var prefix string
	first := true
	for _, l := range lines {
		if blank(l) {
			continue
		}
		if first {
			prefix, first = l[:len(l)-len(strings.TrimLeft(l, " \t"))], false
		} else if !strings.HasPrefix(l, prefix) {
			return s
		}
	}
	for i, l := range lines {
		if !blank(l) {
			lines[i] = l[len(prefix):]
		}
	}
	return strings.Join(lines, "\n")
}

// titleModel is a text made of letters and blanks whose words begin with their only capital letter.
func titleModel(s string) string {
	res := []byte(strings.ToLower(s))
	for i, c := range res {
		if c >= 'a' && c <= 'z' && (i == 0 || res[i-1] <= ' ') {
			res[i] = c - 'a' + 'A'
		}
	}
	return string(res)
}

func textCases(r *rand.Rand, s, a string, n int) textCase {
	methods := []textCase{
		{"Contains", "", strings.Contains(s, a)}, {"HasPrefix", "", strings.HasPrefix(s, a)}, {"HasSuffix", "", strings.HasSuffix(s, a)}, {"Index", "", strings.Index(s, a)}, {"LastIndex", "", strings.LastIndex(s, a)},
		{"Count", "", strings.Count(s, a)}, {"ContainsAny", "", strings.ContainsAny(s, a)}, {"IndexAny", "", strings.IndexAny(s, a)}, {"LastIndexAny", "", strings.LastIndexAny(s, a)}, {"Compare", "", strings.Compare(s, a)},
		{"EqualFold", "", strings.EqualFold(s, a)}, {"Split", "", anyList(strings.Split(s, a))}, {"SplitAfter", "", anyList(strings.SplitAfter(s, a))}, {"Trim", "", strings.Trim(s, a)}, {"TrimLeft", "", strings.TrimLeft(s, a)},
		{"TrimRight", "", strings.TrimRight(s, a)}, {"TrimPrefix", "", strings.TrimPrefix(s, a)}, {"TrimSuffix", "", strings.TrimSuffix(s, a)}, {"IndexAll", "", indexAllModel(s, a)}, {"Indent", "", indentModel(s, a)},
		{"Replace", "`b`", strings.ReplaceAll(s, a, "b")}, {"ReplaceN", "`b` .n", strings.Replace(s, a, "b", n)}, {"SplitN", ".n", anyList(strings.SplitN(s, a, n))}, {"SplitAfterN", ".n", anyList(strings.SplitAfterN(s, a, n))},
	}
	plain := []textCase{
		{"ToUpper", "", strings.ToUpper(s)}, {"ToLower", "", strings.ToLower(s)}, {"TrimSpace", "", strings.TrimSpace(s)}, {"Fields", "", anyList(strings.Fields(s))}, {"FieldsID", "", anyList(identifierFields(s))},
		{"Lines", "", anyList(strings.Split(s, "\n"))}, {"Quote", "", strconv.Quote(s)}, {"Escape", "", strings.TrimSuffix(strings.TrimPrefix(strconv.Quote(s), `"`), `"`)}, {"Len", "", len(s)},
		{"Center", ".n", centerModel(s, n)}, {"IndentN", ".m", indentModel(s, strings.Repeat(" ", abs(n)))}, {"Repeat", ".m", strings.Repeat(s, abs(n))}, {"AddLineNumber", ".n", numberedModel(s, n)}, {"Str", "", s},
	}
	if strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ \t\n") == "" {
		plain = append(plain, textCase{"Title", "", titleModel(s)}, textCase{"Title", "", titleModel(s)})
	}
	switch k := r.Intn(10); {
	case k < 3:
		m := pick(r, methods...)
		m.code = "((String .s)." + m.name + " .a " + m.code + ")"
		return m
	case k < 5:
		m := pick(r, plain...)
		m.code = "((String .s)." + m.name + " " + m.code + ")"
		return m
	}
	parts := strings.Split(s, " ")
	sorted := append([]string{}, parts...)
	sort.Strings(sorted)
	upper := strings.Split(strings.ToUpper(s), " ")
	trimmed := append([]string{}, parts...)
	indented := append([]string{}, parts...)
	formatted, quoted := append([]string{}, parts...), append([]string{}, parts...)
	for i := range trimmed {
		trimmed[i] = strings.Trim(trimmed[i], a)
		indented[i] = indentModel(indented[i], a)
		formatted[i] = "<" + formatted[i] + ">"
		quoted[i] = strconv.Quote(quoted[i])
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	replacement := pick(r, "_", "-", "", "*", "$", "$1", "|", "xy", "+", "?", ".", "(", "[", "^", `\`, "aa")
	idCode, idRep := "(id .s "+strconv.Quote(replacement)+")", replacement
	if replacement == "" {
		idCode, idRep = pick(r, "(id .s)", "(identifier .s ``)"), "_"
	}
	if strings.HasSuffix(s, "\n") { // center ignores the last newline
		return textCase{"splitLines", "(splitLines .s)", anyList(lines)}
	}
	return pick(r,
		textCase{"Split Sorted", "((String .s).Split ` `).Sorted", anyList(sorted)},
		textCase{"Split ToUpper", "((String .s).Split ` `).ToUpper", anyList(upper)},
		textCase{"Split Trim", "((String .s).Split ` `).Trim .a", anyList(trimmed)},
		textCase{"Split Indent", "((String .s).Split ` `).Indent .a", anyList(indented)},
		textCase{"Split Join", "((String .s).Split ` `).Join .a", strings.Join(parts, a)},
		textCase{"splitLines", "(splitLines .s)", anyList(lines)},
		textCase{"joinLines", "(joinLines .a .n .s)", a + "\n" + strconv.Itoa(n) + "\n" + s},
		textCase{"joinLines splitLines", "((splitLines .s) | join `\n`)", strings.TrimSuffix(s, "\n")},
		textCase{"concat", "(concat .s .n .a)", s + strconv.Itoa(n) + a},
		textCase{"center", "(center .n .s)", centerModel(s, n)},
		textCase{"indent", "(indent .m .s)", indentModel(s, strings.Repeat(" ", abs(n)))},
		textCase{"indent elements", "(indent .m (list .s .a 1))", indentModel(s+"\n"+a+"\n1", strings.Repeat(" ", abs(n)))},
		textCase{"nIndent elements", "(nIndent .m (list .s .a))", "\n" + indentModel(s+"\n"+a, strings.Repeat(" ", abs(n)))},
		textCase{"sIndent elements", "(sIndent .a (list .s true))", indentModel(s+"\ntrue", a)},
		textCase{"indent text and list", "(indent .m .s (list 1 2))", indentModel(s+"\n[1,2]", strings.Repeat(" ", abs(n)))},
		textCase{"indent list", "(indent .m .s .a)", indentModel(s+"\n"+a, strings.Repeat(" ", abs(n)))},
		textCase{"nIndent", "(nIndent .m .s)", "\n" + indentModel(s, strings.Repeat(" ", abs(n)))},
		textCase{"sIndent", "(sIndent .a .s)", indentModel(s, a)},
		textCase{"formatList", "(formatList `<%v>` (splitList ` ` .s))", anyList(formatted)},
		textCase{"formatList", "(formatList `%q` (splitList ` ` .s))", anyList(quoted)},
		textCase{"id", idCode, idModel(s, idRep)},
		textCase{"lenc", "(lenc .s)", utf8.RuneCountInString(s)},
		textCase{"Join", "((String .a).Join .s .n true)", s + a + strconv.Itoa(n) + a + "true"},
		textCase{"stripColor", "(stripColor (color `red` .s))", s},
		textCase{"stripColor", "(stripColor (colorln `bold` `blue` .s))", s + "\n"},
		textCase{"string find", "(find .s .a)", indexAllModel(s, a)},
	)
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func stringify(v interface{}) interface{} {
	switch v := v.(type) {
	case collections.StringArray:
		res := make([]interface{}, len(v))
		for i := range v {
			res[i] = string(v[i])
		}
		return res
	case []int:
		res := make([]interface{}, len(v))
		for i := range v {
			res[i] = v[i]
		}
		return res
	}
	return native(v)
}

func textFunctionsSuite(c *Ctx) {
	r := c.Rng
	s, a, n := textString(r), textString(r), r.Intn(14)-2
	switch r.Intn(4) {
	case 0, 1:
		a = randString(r, "ab ,.", 0, 2)
	case 2:
		if len(s) > 0 {
			i := r.Intn(len(s))
			a = strings.ToValidUTF8(s[i:min(len(s), i+1+r.Intn(3))], "b")
		}
	}
	tc := textCases(r, s, a, n)
	t := newTemplate(map[string]interface{}{"s": s, "a": a, "n": n, "m": abs(n)}, "", strictOptions())
	got, err := evaluate(t, tc.code)
	if err != nil || canonLoose(stringify(got)) != canonLoose(tc.want) {
		c.Fail("result", "%s with s=%q a=%q n=%d\ngives    %s (%v)\nexpected %s", tc.code, s, a, n, canonLoose(stringify(got)), err, canonLoose(tc.want))
	}
	c.Event("fn:" + tc.name)
	c.Obs(fmt.Sprintf("%s %q %q %d", tc.code, s, a, n), true)
}

var protectedString = regexp.MustCompile(`"♠\d+"`)

// textHelpersSuite: wrap, unindent, protection of the strings, selection of words and contexts.
func textHelpersSuite(c *Ctx) {
	r := c.Rng
	switch r.Intn(5) {
	case 0:
		lines := make([]string, 1+r.Intn(3))
		for i := range lines {
			words := make([]string, r.Intn(9))
			for j := range words {
				words[j] = randString(r, "abcd", 1, 7)
			}
			lines[i] = strings.Join(words, pick(r, " ", "  ", "\t"))
		}
		s, n := strings.TrimRight(strings.Join(lines, "\n"), "\n"), r.Intn(20) // the last newline is ignored
		t := newTemplate(map[string]interface{}{"s": s, "n": n}, "", strictOptions())
		code := pick(r, "wrap .n .s", "wrapped .n .s", "(String .s).Wrap .n")
		if got, err := evaluate(t, code); err != nil || canon(got) != canon(wrapModel(s, n)) {
			c.Fail("wrap", "%s of %q on %d\ngives    %q (%v)\nexpected %q", code, s, n, got, err, wrapModel(s, n))
		}
		c.Obs(fmt.Sprint("wrap", s, n), len(s) > 0)
	case 1:
		prefix := pick(r, "  ", "\t", "", "    ", " \t")
		lines := make([]string, 1+r.Intn(5))
		for i := range lines {
			if r.Intn(5) > 0 {
				lines[i] = prefix + pick(r, "", " ", "  ") + randString(r, "abc ", 1, 5) + "."
			} else if r.Intn(2) == 0 {
				lines[i] = pick(r, " ", "\t", "  ", "   ", "      ") // the blank lines do not count
			}
		}
		if r.Intn(4) == 0 {
			lines[r.Intn(len(lines))] = "out"
		}
		s := strings.Join(lines, "\n")
		noBlanks := func(s string) string {
			lines := strings.Split(s, "\n")
			for i := range lines {
				if strings.TrimSpace(lines[i]) == "" {
					lines[i] = ""
				}
			}
			return strings.Join(lines, "\n")
		}
		if got := collections.UnIndent(s); noBlanks(got) != noBlanks(unIndentModel(s)) {
			c.Fail("unindent", "%q\ngives    %q\nexpected %q", s, got, unIndentModel(s))
		}
		if in := indentModel(unIndentModel(s), "   "); collections.Indent(unIndentModel(s), "   ") != in {
			c.Fail("indent", "%q", s)
		}
		c.Obs("unindent"+s, len(lines) > 1)
	case 2:
		// protected strings: what is between quotes is hidden, and restored
		s, outside, n := "", "", 0
		for i := r.Intn(6); i > 0; i-- {
			text := randString(r, "ab c(){}\\', ", 0, 5)
			for strings.HasSuffix(text, `\`) {
				text = text[:len(text)-1]
			}
			str := pick(r, strconv.Quote(randString(r, "ab`\"\\ \né", 0, 6)), "`"+randString(r, "ab\"\\ \n", 0, 5)+"`")
			s += text + str
			outside += text + "\x00"
			n++
		}
		tail := randString(r, "ab c(){}, ", 0, 4)
		s, outside = s+tail, outside+tail
		got, array := collections.String(s).Protect()
		if hidden := protectedString.ReplaceAllString(got.Str(), "\x00"); hidden != outside || len(array) != n {
			c.Fail("protect", "%q is protected as %q with %q, expected %q", s, got, array, outside)
		}
		if back := got.RestoreProtected(array); back.Str() != s {
			c.Fail("restore", "%q is restored as %q", s, back)
		}
		c.Obs("protect"+s, n > 0)
	case 3:
		s := randString(r, "abc_1 ,.-(\n", 1, 14)
		accept := pick(r, "", ".", "_", ".-")
		pos := r.Intn(len(s))
		in := func(b byte) bool {
			return !strings.ContainsRune(" \n", rune(b)) && (!strings.ContainsRune(",.-(_", rune(b)) || strings.ContainsRune(accept, rune(b)))
		}
		b, e := pos, pos
		for b > 0 && in(s[pos]) && in(s[b-1]) {
			b--
		}
		for e < len(s) && in(s[e]) {
			e++
		}
		if !in(s[pos]) {
			b, e = pos, pos
		}
		word, start := collections.String(s).GetWordAtPosition(pos, accept)
		if word.Str() != s[b:e] || word != "" && start != b || collections.String(s).SelectWord(pos, accept) != word {
			c.Fail("word", "word of %q at %d (%q) is %q at %d, expected %q at %d", s, pos, accept, word, start, s[b:e], b)
		}
		c.Obs(fmt.Sprint("word", s, accept, pos), in(s[pos]))
	case 4:
		// the context of a position is the innermost pair of delimiters around it
		left, right := "(", ")"
		if r.Intn(2) == 0 {
			left, right = "{{", "}}"
		}
		type span struct{ b, e int }
		var spans []span
		s := ""
		var build func(depth int)
		build = func(depth int) {
			b := len(s)
			word := func() string { return pick(r, "", "", safeWord(r)) }
			s += left + word()
			for i := r.Intn(4); i > 0 && depth > 0; i-- {
				build(depth - 1)
				s += word()
			}
			s += right
			spans = append(spans, span{b, len(s)})
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			s += pick(r, "", safeWord(r))
			build(r.Intn(4))
		}
		s += pick(r, "", safeWord(r))
		sp := pick(r, spans...)
		pos := sp.b + len(left)
		if joined := collections.Concat(s, nil, pos, left); joined != s+"<nil>"+strconv.Itoa(pos)+left {
			c.Fail("concat", "Concat(%q, nil, %d, %q) gives %q", s, pos, left, joined)
		}
		got, start := collections.String(s).GetContextAtPosition(pos, left, right)
		if got.Str() != s[sp.b:sp.e] || start != sp.b || collections.String(s).SelectContext(pos, left, right) != got {
			c.Fail("context", "context of %q at %d is %q at %d, expected %q", s, pos, got, start, s[sp.b:sp.e])
		}
		c.Obs("context"+s, len(spans) > 1)
	}
}

var _ = template.StrictErrorCheck

func init() {
	register(&Property{
		ID:   "P18",
		Rule: "one evaluation is one text operation compared with a model; distinct by operation and arguments",
		Suites: []Suite{
			{Name: "functions", Quick: 25000, Thorough: 500000, Run: textFunctionsSuite, Need: []string{"fn:id", "fn:formatList", "fn:center", "fn:Replace"}},
			{Name: "lorem", Quick: 3000, Thorough: 60000, Run: loremSuite, Need: []string{"word", "sentence", "paragraph", "host", "email", "url", "invalid"}},
			{Name: "helpers", Quick: 30000, Thorough: 600000, Run: textHelpersSuite},
		},
	})
}

var (
	loremSentence = regexp.MustCompile(`^[A-Z][a-z]{0,12}(,? [a-z]{1,13})*\.$`)
	loremHost     = `[a-z]{4,14}\.(com|net|org)`
	loremForms    = map[string]*regexp.Regexp{
		"host":  regexp.MustCompile(`^` + loremHost + `$`),
		"email": regexp.MustCompile(`^[a-z]{4,9}@` + loremHost + `$`),
		"url":   regexp.MustCompile(`^http://www\.` + loremHost + `(/[a-z]{2,7}(/[a-z]{2,7}\.html)?)?$`),
	}
	loremNames = []struct{ kind, names string }{
		{"word", "word 1 Word"}, {"sentence", "words sentence 2 SENTENCE"}, {"paragraph", "para paragraph sentences 3 Para"},
		{"host", "host 4"}, {"email", "email 5 EMail"}, {"url", "url 6 URL"}, {"invalid", "poem 7 0 wordss"},
	}
)

// loremSuite: the random texts have the form and the size asked.
func loremSuite(c *Ctx) {
	r := c.Rng
	choice := loremNames[r.Intn(len(loremNames))]
	name := pick(r, strings.Fields(choice.names)...)
	low, high, args := 3, 10, []string{}
	if r.Intn(4) > 0 {
		low = 1 + r.Intn(14)
		args = append(args, fmt.Sprint(low))
		if r.Intn(4) > 0 {
			high = 1 + r.Intn(14)
			args = append(args, fmt.Sprint(high))
		}
	}
	if low > high {
		low, high = high, low
	}
	high = max(low, high-1) // the upper limit is excluded
	if _, err := strconv.Atoi(name); err != nil || r.Intn(2) == 0 {
		name = fmt.Sprintf("%q", name)
	}
	code := strings.TrimSpace(pick(r, "lorem ", "loremIpsum ") + name + " " + strings.Join(args, " "))
	if choice.kind == "sentence" && r.Intn(8) == 0 {
		code, low, high = `lorem ""`, 3, 9
	}
	c.Event(choice.kind)
	c.Obs(code, true)
	got, err := evaluate(newTemplate(nil, "", strictOptions()), code)
	text, isText := got.(string)
	if choice.kind == "invalid" {
		if err == nil {
			c.Fail("invalid", "%s gives %q instead of an error", code, text)
		}
		return
	}
	if err != nil || !isText {
		c.Fail("error", "%s gives %v (%v)", code, got, err)
		return
	}
	inside := func(what string, n, low, high int) {
		if n < low || n > high {
			c.Fail("size", "%s gives %q\nwith %d %s, expected %d to %d", code, text, n, what, low, high)
		}
	}
	switch choice.kind {
	case "word":
		if !regexp.MustCompile(`^[a-z]+$`).MatchString(text) {
			c.Fail("form", "%s gives %q", code, text)
		}
		inside("letters", len(text), min(low, 13), min(high, 13))
	case "sentence":
		if !loremSentence.MatchString(text) {
			c.Fail("form", "%s gives %q", code, text)
		}
		inside("words", len(strings.Fields(text)), low, high)
	case "paragraph":
		sentences := regexp.MustCompile(`[^.]+\.`).FindAllString(text, -1)
		for _, sentence := range sentences {
			if sentence = strings.TrimPrefix(sentence, " "); !loremSentence.MatchString(sentence) {
				c.Fail("form", "%s gives %q", code, text)
			}
			inside("words", len(strings.Fields(sentence)), 5, 21)
		}
		inside("sentences", len(sentences), low, high)
	default:
		if !loremForms[choice.kind].MatchString(text) {
			c.Fail("form", "%s gives %q", code, text)
		}
	}
}

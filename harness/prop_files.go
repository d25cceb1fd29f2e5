package main

// P09, P10, P11: what the command line does to a tree of files. The oracle is a model of the file system: the tree before
// the command, transformed by an independent implementation of the documented rules, must be the tree after it.

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

type fnode struct {
	content string
	mode    fs.FileMode
	dir     bool
	link    string
}

type ftree map[string]*fnode // by path relative to the scratch folder

func (t ftree) clone() ftree {
	out := ftree{}
	for k, v := range t {
		n := *v
		out[k] = &n
	}
	return out
}

func (t ftree) mkdir(p string) {
	for ; p != "." && p != "" && p != "/"; p = path.Dir(p) {
		if t[p] == nil {
			t[p] = &fnode{dir: true}
		}
	}
}

func (t ftree) file(p, content string, mode fs.FileMode) {
	t.mkdir(path.Dir(p))
	t[p] = &fnode{content: content, mode: mode}
}

func (t ftree) create(root string) {
	keys := sortedKeys(t)
	for _, k := range keys {
		if t[k].dir {
			must0(os.MkdirAll(filepath.Join(root, k), 0755))
		}
	}
	for _, k := range keys {
		n := t[k]
		switch p := filepath.Join(root, k); {
		case n.link != "":
			must0(os.Symlink(strings.Replace(n.link, "ROOT", root, 1), p))
		case !n.dir:
			writeFile(p, n.content, n.mode)
		}
	}
}

func (n *fnode) String() string {
	switch {
	case n.dir:
		return "folder"
	case n.link != "":
		return "link to " + n.link
	}
	return fmt.Sprintf("%v %q", n.mode, n.content)
}

func loadTree(root string) ftree {
	t := ftree{}
	must0(filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		must0(err)
		rel := must1(filepath.Rel(root, p))
		if rel == "." {
			return nil
		}
		switch {
		case i.IsDir():
			t[rel] = &fnode{dir: true}
		case i.Mode()&os.ModeSymlink != 0:
			t[rel] = &fnode{link: strings.Replace(must1(os.Readlink(p)), root, "ROOT", 1)}
		default:
			t[rel] = &fnode{content: string(must1(os.ReadFile(p))), mode: i.Mode()}
		}
		return nil
	}))
	return t
}

// diffTrees describes the differences.
func diffTrees(got, want ftree) (diff []string) {
	names := map[string]bool{}
	for k := range got {
		names[k] = true
	}
	for k := range want {
		names[k] = true
	}
	for _, k := range sortedKeys(names) {
		g, w := "nothing", "nothing"
		if got[k] != nil {
			g = got[k].String()
		}
		if want[k] != nil {
			w = want[k].String()
		}
		if g != w {
			diff = append(diff, fmt.Sprintf("%s: %s, expected %s", k, g, w))
		}
	}
	return
}

var processUmask = func() fs.FileMode {
	m := syscall.Umask(022)
	syscall.Umask(m)
	return fs.FileMode(m)
}()

// The contents: each line has a known rendering, so that the rendering of any file of the model is known.
type lineKind struct {
	src, out string
	code     bool
}

var lineKinds = []lineKind{
	{src: "text %s", out: "text %s"},
	{src: "user@example.com %s", out: "user@example.com %s"},
	{src: "  - item: {a: [%s]} 100%", out: "  - item: {a: [%s]} 100%"},
	{src: "@(1 + 2); %s", out: "3 %s", code: true},
	{src: "{{ add 4 5 }} %s", out: "9 %s", code: true},
	{src: "a @val; b %s", out: "a VAL b %s", code: true},
	{src: "{{ .val | lower }} %s", out: "val %s", code: true},
	{src: `{{ range list 1 2 }}<{{ . }}>{{ end }} %s`, out: "<1><2> %s", code: true},
	{src: "é @l[1]; %s", out: "é 8 %s", code: true},
}

var blankLines = []lineKind{
	{src: "{{ $x := 1 }}", out: "", code: true},
	{src: "{{ if false }}no{{ end }}  ", out: "  ", code: true},
	{src: "", out: ""},
}

var errorKinds = []string{"{{ fail `boom` }} %s", "{{ div 1 0 }} %s", "{{ index (list 1) 5 }} %s", "{{ nofunction 1 }} %s", "{{ (add 1 }} %s", "{{ .d.unknown }} %s", "@undefined; %s"}

type content struct {
	text   string // source
	result string
	code   bool
	fail   bool
	bang   bool // begins with a shebang gotemplate
	strict bool // contains gotemplate!
}

// scenario is a tree, the arguments and what is known of the contents.
type scenario struct {
	r        *rand.Rand
	tree     ftree
	contents map[string]content
	n        int
	// configuration
	cwd, source, target string // relative to the scratch folder
	overwrite, print    bool
	strictAll, follow   bool
	depth               int
	patterns            []string
	excludes            []exclusion
	explicit            []string // relative to the source folder
	codeArgs            int
	missing             []string
	sub                 bool
	faults              []string
}

type exclusion struct {
	pattern string
	match   func(rel string) bool // path relative to the source folder
}

func (s *scenario) marker() string { s.n++; return fmt.Sprintf("m%dx", s.n) }

// content generates the text of a file.
func (s *scenario) content(kind string) content {
	r := s.r
	var c content
	add := func(k lineKind) {
		m := s.marker()
		c.text += strings.ReplaceAll(k.src, "%s", m) + "\n"
		c.result += strings.ReplaceAll(k.out, "%s", m) + "\n"
		c.code = c.code || k.code
	}
	lines := func(kinds []lineKind, n int) {
		for ; n > 0; n-- {
			add(pick(r, kinds...))
		}
	}
	switch kind {
	case "blank":
		if r.Intn(4) > 0 {
			lines(blankLines, 1+r.Intn(3))
		}
	case "plain":
		lines(lineKinds[:3], 1+r.Intn(3))
	case "error":
		lines(lineKinds, r.Intn(3))
		c.text += strings.ReplaceAll(pick(r, errorKinds...), "%s", s.marker()) + "\n"
		if r.Intn(4) == 0 {
			c.text += "# force-gotemplate!\n"
			c.strict = true
		}
		lines(lineKinds, r.Intn(3))
		c.code, c.fail, c.result = true, true, ""
	case "shebang":
		c.bang = true
		c.text = pick(r, "#!/usr/bin/env gotemplate\n", "#! gotemplate\n", "#!/usr/local/bin/gotemplate -x\n")
		c.code = false
		lines(lineKinds, 2)
		add(lineKinds[3])
	case "script":
		first := pick(r, "#!/bin/bash\n", "#!/usr/bin/env python3\n", "#! /bin/sh\n")
		c.text, c.result = first, first
		if r.Intn(3) == 0 {
			// The result is a script, not its source
			first = pick(r, "#!/bin/bash", "#! /usr/bin/env python3")
			c.text, c.result = pick(r, "{{ print \""+first+"\" }}\n", "@print(\""+first+"\");\n", "{{/* script */}}{{ \""+first+"\" }}\n"), first+"\n"
			c.code = true
		}
		lines(lineKinds, 1+r.Intn(3))
	default:
		lines(lineKinds, 1+r.Intn(4))
		if r.Intn(3) == 0 {
			lines(blankLines, 1)
			lines(lineKinds, 1)
		}
	}
	if r.Intn(6) == 0 && kind != "error" && kind != "shebang" && !s.print {
		c.text, c.result = strings.TrimSuffix(c.text, "\n"), strings.TrimSuffix(c.result, "\n")
	}
	if s.sub && kind != "error" && r.Intn(2) == 0 {
		c.text, c.result = c.text+"\nSUB me\n", c.result+"\nDONE me\n"
	}
	s.contents[c.text] = c
	return c
}

func isTemplateName(p string) bool {
	return strings.HasSuffix(p, ".gt") || strings.HasSuffix(p, ".template")
}

func isScript(content string) bool {
	first := strings.SplitN(strings.TrimSpace(content), "\n", 2)[0]
	return strings.HasPrefix(first, "#!") && len(strings.Fields(first[2:])) > 0 && len(strings.Fields(first[2:])) <= 2
}

// render gives the result of a content that is known or that has no code.
func (s *scenario) render(text string, strict bool) (result string, failed, changed, bang bool) {
	c, known := s.contents[text]
	if !known {
		c = content{text: text, result: text}
		if s.sub {
			c.result = strings.ReplaceAll(text, "SUB me", "DONE me")
		}
	}
	if c.fail {
		if strict || c.strict || s.strictAll {
			return "", true, false, false
		}
		return text, false, false, c.bang
	}
	return c.result, false, c.result != text, c.bang
}

// discovered returns the files (relative to the source folder) that are processed.
func (s *scenario) discovered(t ftree) (files []string) {
	patterns := append([]string{}, s.patterns...)
	if len(s.explicit)+s.codeArgs+len(s.missing) == 0 {
		patterns = append(patterns, "*.gt", "*.template")
	}
	found := map[string]bool{}
	folders := map[string]bool{}
	var walk func(folder string, depth int)
	walk = func(folder string, depth int) {
		if folders[folder] {
			return
		}
		folders[folder] = true
		for p, n := range t {
			if rel := relTo(folder, p); !n.dir && n.link == "" && rel != "" {
				for _, pattern := range patterns {
					if must1(path.Match(pattern, rel)) {
						found[p] = true
					}
				}
			}
			if depth < s.depth && path.Dir(p) == folder {
				if n.dir {
					walk(p, depth+1)
				} else if n.link != "" && s.follow {
					if to := t.resolve(p); t[to] != nil && t[to].dir {
						walk(to, depth+1)
					}
				}
			}
		}
	}
	walk(s.source, 0)
	for p := range found {
		rel := must1(filepath.Rel(s.source, p))
		skip := false
		for _, e := range s.excludes {
			skip = skip || e.match(rel)
		}
		if !skip {
			files = append(files, rel)
		}
	}
	sort.Strings(files)
	return
}

// resolve gives the actual path of a link.
func (t ftree) resolve(p string) string {
	for i := 0; i < 10 && t[p] != nil && t[p].link != ""; i++ {
		if to := t[p].link; strings.HasPrefix(to, "ROOT") {
			p = strings.TrimPrefix(strings.TrimPrefix(to, "ROOT"), "/")
		} else {
			p = path.Join(path.Dir(p), to)
		}
	}
	return p
}

func relTo(folder, p string) string {
	if folder == "." {
		return p
	}
	if strings.HasPrefix(p, folder+"/") {
		return p[len(folder)+1:]
	}
	return ""
}

type expectation struct {
	lines    []string // stdout
	exit     int
	failed   []string
	written  int
	processd int
	blocked  int
}

// model transforms the tree.
func (s *scenario) model(t ftree) (e expectation) {
	files := s.discovered(t)
	for _, f := range s.explicit {
		skip := false
		for i := range files {
			skip = skip || files[i] == f
		}
		for _, x := range s.excludes {
			skip = skip || x.match(f)
		}
		if !skip {
			files = append(files, f)
		}
	}
	inPlace := s.source == s.target
	overwrite := s.overwrite || !inPlace
	show := func(text string) {
		for _, l := range strings.Split(text, "\n") {
			if l != "" {
				e.lines = append(e.lines, l)
			}
		}
	}
	fail := func(f string) { e.exit = 1; e.failed = append(e.failed, f) }
	blockedFile := func(f string) { e.exit = 1; e.blocked++ }
	for _, f := range files {
		src := path.Join(s.source, f)
		node := t[src]
		if node == nil {
			fail(f)
			continue
		}
		e.processd++
		isTmpl := isTemplateName(f)
		result, failed, changed, bang := s.render(node.content, isTmpl)
		if failed {
			fail(f)
			continue
		}
		target := path.Join(s.target, strings.TrimSuffix(strings.TrimSuffix(f, ".gt"), ".template"))
		ext := path.Ext(target)
		if isTmpl {
			if strings.TrimSpace(result)+ext == "" {
				continue
			}
			if !overwrite {
				target = strings.TrimSuffix(target, ext) + ".generated" + ext
			}
		}
		if s.print || bang {
			show(result)
			continue
		}
		if inPlace && !changed {
			continue
		}
		mode := node.mode
		if isScript(result) {
			mode = 0755
		}
		if !inPlace {
			blocked := false
			for p := path.Dir(target); p != "."; p = path.Dir(p) {
				blocked = blocked || t[p] != nil && !t[p].dir
			}
			if blocked {
				blockedFile(f)
				continue
			}
			t.mkdir(path.Dir(target))
		} else if !isTmpl && !overwrite {
			if o := t[src+".original"]; o != nil && o.dir {
				blockedFile(f)
				continue
			}
			t[src+".original"] = node
			delete(t, src)
		}
		if old := t[target]; old != nil && (old.dir || old.link != "") {
			blockedFile(f)
			continue
		} else if old != nil {
			mode = old.mode
		} else {
			mode &^= processUmask
		}
		t[target] = &fnode{content: result, mode: mode}
		e.written++
		if isTmpl && overwrite && inPlace {
			delete(t, src)
		}
	}
	for range s.missing {
		e.exit = 1
	}
	for i := 0; i < s.codeArgs; i++ {
		show(fmt.Sprintf("code %d", i*2))
	}
	sort.Strings(e.lines)
	return
}

// args builds the command line.
func (s *scenario) args(root string) (args []string) {
	r := s.r
	var flags, files []string
	flag := func(f ...string) { flags = append(flags, f...) }
	folder := func(name, rel string) {
		p := must1(filepath.Rel(s.cwd, rel))
		switch r.Intn(4) {
		case 0:
			p = filepath.Join(root, rel)
		case 1:
			p = "./" + p
		}
		flag(name, p)
	}
	if s.source != s.cwd || r.Intn(5) == 0 {
		folder("--source", s.source)
	}
	if s.target != s.source || r.Intn(5) == 0 {
		folder("--target", s.target)
	}
	if s.overwrite {
		flag(pick(r, "-o", "--overwrite"))
	}
	if s.print {
		flag(pick(r, "-P", "--print"))
	}
	if s.strictAll {
		flag(pick(r, "-S", "--strict", "--strict-error-validation"))
	}
	if s.follow {
		flag(pick(r, "-f", "--follow-symlinks"))
	}
	if s.depth >= 1000 {
		flag(pick(r, "-r", "--recursive"))
	} else if s.depth > 0 {
		flag(pick(r, "-R", "--recursion-depth"), fmt.Sprint(s.depth))
		if r.Intn(3) == 0 {
			flag("-r")
		}
	}
	for i := 0; i < len(s.patterns); i++ {
		p := s.patterns[i]
		if i+1 < len(s.patterns) && r.Intn(2) == 0 {
			i++
			p += pick(r, ",", ", ") + s.patterns[i]
		}
		flag(pick(r, "-p", "--patterns"), p)
	}
	for i := 0; i < len(s.excludes); i++ {
		p := s.excludes[i].pattern
		if strings.HasPrefix(p, "ROOT") {
			p = root + p[4:]
		}
		if i+1 < len(s.excludes) && r.Intn(2) == 0 && !strings.HasPrefix(s.excludes[i+1].pattern, "ROOT") {
			i++
			p += "," + s.excludes[i].pattern
		}
		flag(pick(r, "-e", "--exclude"), p)
	}
	if s.sub {
		flag("-s", pick(r, "/SUB me/DONE me", "|SUB (me)|DONE $1", "#(?i)\\bsub\\b#DONE"))
	}
	flag("-V", "val=VAL", "-V", "l=[7, 8]", "-V", `d={"a": 1}`)
	files = append(files, s.explicit...)
	files = append(files, s.missing...)
	for i := range files {
		if strings.HasPrefix(files[i], "-") || r.Intn(5) == 0 {
			files[i] = pick(r, "./", filepath.Join(root, s.source)+"/") + files[i]
		}
	}
	for i := 0; i < s.codeArgs; i++ {
		files = append(files, pick(r, fmt.Sprintf("code @(%d * 2);", i), fmt.Sprintf("code {{ mul %d 2 }}", i)))
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	switch r.Intn(3) {
	case 0:
		return append(flags, files...)
	case 1:
		return append(files, flags...)
	}
	return append(append([]string{"run"}, files...), flags...)
}

var folderNames = []string{"sub", "a b", "x[1]", "é", ".hidden", "d.gtx", "{y}", "v1.2", "st*r", "deep", "k", "z?"}
var extensions = []string{".txt", ".json", ".conf", ".yaml", "", ".sh", ".md"}

// newScenario generates the folders and the files.
func newScenario(r *rand.Rand) *scenario {
	s := &scenario{r: r, tree: ftree{}, contents: map[string]content{}, cwd: pick(r, "w", "w", "w/in n", "w[a]/x*{1}", "w/é"), sub: r.Intn(4) == 0}
	s.tree.mkdir(s.cwd)
	s.source = s.cwd
	if r.Intn(3) == 0 {
		s.source = pick(r, s.cwd+"/src", "other/src", s.cwd+"/s[0]", s.cwd+"/a/b c", s.cwd+"/a*b", s.cwd+"/{xy}?", s.cwd+"/b\\s")
	}
	s.tree.mkdir(s.source)
	s.target = s.source
	return s
}

func (s *scenario) folders(n int) (folders []string) {
	folders = []string{s.source}
	for ; n > 0; n-- {
		f := path.Join(pick(s.r, folders...), pick(s.r, folderNames...))
		if s.tree[f] == nil {
			s.tree.mkdir(f)
			folders = append(folders, f)
		}
	}
	return
}

var fileModes = []fs.FileMode{0644, 0644, 0600, 0640, 0755, 0700, 0664, 0444}

func (s *scenario) fileName(template bool) string {
	r := s.r
	s.n++
	name := fmt.Sprintf("%sf%d", pick(r, "", "", "", ".", "a b-", "x[1]", "é", "p.q."), s.n) + pick(r, extensions...)
	if strings.HasPrefix(name, ".") && path.Ext(name) == name {
		name = name[1:]
	}
	if template {
		name += pick(r, ".gt", ".gt", ".template")
	}
	return name
}

var contentKinds = []string{"", "", "", "plain", "blank", "script", "shebang"}

func (s *scenario) run(c *Ctx, times int) (ok bool) {
	root := c.Dir()
	s.tree.create(root)
	want := s.tree.clone()
	args := s.args(root)
	for i := 1; i <= times; i++ {
		e := s.model(want)
		stdout, stderr, code := runCLI(filepath.Join(root, s.cwd), "", []string{"TMPDIR=" + root}, args...)
		var lines []string
		for _, l := range strings.Split(stdout, "\n") {
			if l != "" {
				lines = append(lines, l)
			}
		}
		sort.Strings(lines)
		describe := func() string {
			return fmt.Sprintf("run %d of %q in %s\nbefore: %s\nstderr: %s", i, args, s.cwd, js(diffTrees(s.tree, ftree{})), clip(stderr, 1500))
		}
		if code != e.exit {
			c.Fail("exit code", "exit code %d, expected %d (failures: %q)\n%s", code, e.exit, e.failed, describe())
			return false
		}
		if js(lines) != js(e.lines) {
			c.Fail("output", "stdout (sorted) %q\nexpected %q\n%s", lines, e.lines, describe())
			return false
		}
		got := loadTree(root)
		if diff := diffTrees(got, want); len(diff) > 0 {
			c.Fail("files", "%s\n%s", clip(strings.Join(diff, "\n"), 1500), describe())
			return false
		}
		for _, f := range e.failed {
			if base := path.Base(f); !strings.Contains(stderr, base) {
				c.Fail("message", "%q is not mentioned in stderr\n%s", base, describe())
				return false
			}
		}
		c.Event("files processed", e.processd)
		c.Event("files written", e.written)
		c.Event("files in error", len(e.failed))
		c.Event("files that cannot be written", e.blocked)
		c.Event("lines printed", len(lines))
		c.Obs(js(args)+js(diffTrees(s.tree, ftree{}))+fmt.Sprint(i), e.processd > 0)
	}
	return true
}

// mappingSuite: where the result of each file goes, with which mode, what happens to the source.
func mappingSuite(c *Ctx) {
	r := c.Rng
	s := newScenario(r)
	folders := s.folders(r.Intn(4))
	if len(folders) > 1 {
		s.depth = pick(r, 0, 1, 2, 1<<16, 1<<16)
	}
	s.overwrite = r.Intn(3) == 0
	s.print = r.Intn(6) == 0
	if r.Intn(2) == 0 {
		s.target = pick(r, "out", s.cwd+"/out", "o/p q/r", s.source+"/tgt")
	}
	var named []string
	for i := 2 + r.Intn(6); i > 0; i-- {
		folder, template := pick(r, folders...), r.Intn(3) > 0
		name := s.fileName(template)
		ct := s.content(pick(r, contentKinds...))
		s.tree.file(path.Join(folder, name), ct.text, pick(r, fileModes...))
		named = append(named, must1(filepath.Rel(s.source, path.Join(folder, name))))
	}
	switch r.Intn(4) {
	case 0:
		s.patterns = pick(r, []string{"*.txt"}, []string{"*f[0-9]*", "*.md"}, []string{"*.conf", "*.yaml", "*.sh"})
	case 1:
		r.Shuffle(len(named), func(i, j int) { named[i], named[j] = named[j], named[i] })
		s.explicit = append(s.explicit, named[:1+r.Intn(len(named))]...)
		s.codeArgs = r.Intn(3)
		if r.Intn(3) == 0 {
			s.patterns = []string{"*.gt"}
		}
	}
	if len(s.patterns) > 0 && s.patterns[0] != "*.gt" && strings.HasPrefix(s.target, s.source+"/") {
		s.target = "out" // the results must not match the patterns
	}
	// Files already there
	for _, f := range named {
		if r.Intn(4) == 0 {
			base := strings.TrimSuffix(strings.TrimSuffix(f, ".gt"), ".template")
			ext := path.Ext(base)
			p := pick(r, path.Join(s.target, base), path.Join(s.target, strings.TrimSuffix(base, ext)+".generated"+ext), path.Join(s.source, f+".original"))
			if s.tree[p] == nil {
				s.tree.file(p, "old "+s.marker()+"\n", pick(r, fileModes...))
			}
		}
	}
	if s.run(c, 2) {
		if s.target == s.source {
			c.Event("same folder")
		} else {
			c.Event("other folder")
		}
	}
}

// printedSuite: what is printed of a single result is this result, to the last byte.
func printedSuite(c *Ctx) {
	r := c.Rng
	s := newScenario(r)
	s.sub = false
	ct := s.content(pick(r, "", "", "", "plain", "script", "shebang"))
	name, args := s.fileName(true), []string{"--ignore-missing-import", "-V", "val=VAL", "-V", "l=[7, 8]", "-V", `d={"a": 1}`}
	tail := pick(r, "", "", "\n", "\n\n", " ", "   ", "\t", "\n  ", " \n", "\r\n", "\n\t\n", "$", "%", "%d", "%%\n", "é ")
	lead := ""
	if !ct.bang && !isScript(ct.text) {
		lead = pick(r, "", "", " ", "\t", "%s ", "é")
	}
	text, want := lead+strings.TrimSuffix(ct.text, "\n")+tail, lead+strings.TrimSuffix(ct.result, "\n")+tail
	how, stdin := pick(r, "print", "stdin", "argument", "bang"), ""
	if how == "bang" {
		if ct.bang {
			name = strings.TrimSuffix(strings.TrimSuffix(name, ".gt"), ".template")
		} else {
			how = "print"
		}
	} else if ct.bang {
		how = "print"
	}
	if strings.Contains(name, ".tf") {
		name = strings.ReplaceAll(name, ".tf", ".txt")
	}
	switch how {
	case "print":
		args = append(args, "-P", name)
	case "bang":
		args = append(args, name)
	case "stdin":
		stdin = text
		if !ct.code {
			how, args = "print", append(args, "-P", name)
			stdin = ""
		}
	case "argument":
		if !ct.code || strings.HasPrefix(text, "-") || isScript(ct.text) {
			how, args = "print", append(args, "-P", name)
		} else {
			args = append(args, text)
		}
	}
	if (how == "stdin" || how == "argument") && !strings.HasSuffix(want, "\n") {
		want += "\n" // code that is not in a file is rendered as lines
	}
	cwd := filepath.Join(c.Dir(), "w")
	must0(os.MkdirAll(cwd, 0755))
	if how == "print" || how == "bang" {
		writeFile(filepath.Join(cwd, name), text, 0644)
	}
	stdout, stderr, code := runCLI(cwd, stdin, nil, args...)
	if code != 0 || stdout != want {
		c.Fail("printed "+how, "%q of %q gives %q (exit code %d), expected %q\nstderr: %s", args, text, stdout, code, want, clip(stderr, 800))
		return
	}
	c.Event("printed with "+how, 1)
	c.Obs(how+text, ct.code)
}

// failuresSuite: what cannot be processed or written does not prevent the processing of the rest.
func failuresSuite(c *Ctx) {
	r := c.Rng
	s := newScenario(r)
	folders := s.folders(r.Intn(3))
	s.depth = 1 << 16
	s.overwrite = r.Intn(3) == 0
	s.print = r.Intn(6) == 0
	s.strictAll = r.Intn(3) == 0
	if r.Intn(2) == 0 {
		s.target = pick(r, "out", s.cwd+"/out", "o/p q/r")
	}
	s.patterns = []string{"*.txt", "*.conf", "*.sh", "*.md"}
	inPlace := s.target == s.source
	var named []string
	for i := 3 + r.Intn(6); i > 0; i-- {
		folder, template := pick(r, folders...), r.Intn(2) > 0
		name := s.fileName(template)
		kind := pick(r, "error", "error", "", "", "plain", "script", "shebang")
		ct := s.content(kind)
		src := path.Join(folder, name)
		s.tree.file(src, ct.text, pick(r, fileModes...))
		f := must1(filepath.Rel(s.source, src))
		named = append(named, f)
		if r.Intn(4) > 0 {
			continue
		}
		// Something is in the way
		base := strings.TrimSuffix(strings.TrimSuffix(f, ".gt"), ".template")
		target := path.Join(s.target, base)
		if inPlace && template && !s.overwrite {
			ext := path.Ext(base)
			target = path.Join(s.target, strings.TrimSuffix(base, ext)+".generated"+ext)
		}
		// ... which must not be found by the patterns
		hidden := !strings.HasPrefix(target, s.source+"/") || strings.Contains(".yaml.json", path.Ext(target))
		for p := path.Dir(target); p != "."; p = path.Dir(p) {
			hidden = hidden && (s.tree[p] == nil || s.tree[p].dir)
		}
		switch r.Intn(3) {
		case 0:
			if hidden && s.tree[target] == nil {
				s.tree.file(path.Join(target, "keep"), "kept", 0644)
				s.faults = append(s.faults, "target is a folder")
			}
		case 1:
			if dir := path.Dir(target); !inPlace && hidden && dir != s.target && s.tree[dir] == nil && dir != "." && dir != s.source {
				s.tree.file(dir, "in the way", 0644)
				s.faults = append(s.faults, "folder is a file")
			} else if inPlace && !template && s.tree[src+".original"] == nil {
				s.tree.file(path.Join(src+".original", "keep"), "kept", 0644)
				s.faults = append(s.faults, "original is a folder")
			}
		case 2:
			if hidden && s.tree[target] == nil {
				s.tree.mkdir(path.Dir(target))
				if t := s.tree[path.Dir(target)]; t.dir {
					s.tree[target] = &fnode{link: "/dev/full"}
					s.faults = append(s.faults, "device is full")
				}
			}
		}
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(named), func(i, j int) { named[i], named[j] = named[j], named[i] })
		s.explicit = append(s.explicit, named[:1+r.Intn(len(named))]...)
		for i := r.Intn(3); i > 0; i-- {
			s.missing = append(s.missing, fmt.Sprintf("missing%d%s", i, pick(r, ".txt", ".gt", "")))
		}
		s.codeArgs = r.Intn(2)
	}
	if s.run(c, 1) {
		for _, f := range s.faults {
			c.Event(f)
		}
		c.Event("missing files", len(s.missing))
	}
}

// setupSuite: when what the command requires is missing or invalid, nothing is processed and the exit code says it.
func setupSuite(c *Ctx) {
	r := c.Rng
	s := newScenario(r)
	s.print, s.sub = r.Intn(3) == 0, false
	for i := 1 + r.Intn(4); i > 0; i-- {
		s.tree.file(path.Join(s.source, s.fileName(true)), s.content("").text, 0644)
	}
	if r.Intn(2) == 0 {
		s.target = "out"
	}
	s.tree.file("imports/good.json", `{"imported": 1}`, 0644)
	s.tree.file("imports/bad.json", pick(r, "a: [1, 2\nb: \"x", "{{{"), 0644)
	root := c.Dir()
	s.tree.create(root)
	args := s.args(root)
	imports := filepath.Join(root, "imports")
	blocked, missingSource, badFlag := false, false, false
	ignore := pick(r, "", "", "--ignore-missing-import", "--ignore-missing-paths", "--ignore-missing-source")
	if ignore != "" {
		args = append(args, ignore)
	}
	for i := r.Intn(3); i >= 0; i-- {
		switch r.Intn(9) {
		case 0:
			args = append(args, pick(r, "-i", "--import"), filepath.Join(imports, pick(r, "none.json", "none.yml", "no/where.hcl")))
			blocked = blocked || ignore == "" || ignore == "--ignore-missing-source"
			c.Event("missing import")
		case 1:
			args = append(args, "--import-if-exist", filepath.Join(imports, pick(r, "none.json", "good.json")))
		case 2:
			args = append(args, pick(r, "-i", "--import", "--import-if-exist"), filepath.Join(imports, "bad.json"))
			blocked = true
			c.Event("invalid import")
		case 3:
			args = append(args, "-s", pick(r, "/[/x", "x", "/(a/b", "/a"))
			blocked = true
			c.Event("invalid substitution")
		case 4:
			if strings.Contains(js(args), `"--source"`) {
				break
			}
			args = append(args, "--source", filepath.Join(root, "nowhere"))
			missingSource = true
			c.Event("missing source")
		case 5:
			if len(s.patterns)+len(s.excludes)+len(s.explicit) > 0 || len(s.discovered(s.tree)) == 0 {
				break
			}
			args = append(args, pick(r, "-e", "--exclude", "-p", "--patterns"), pick(r, "[", "a[b", "*[", "x[a-"))
			blocked = true
			c.Event("invalid pattern")
		case 6:
			args = append(args, pick(r, "--no-such-flag", "--recursion-depth=x", "--jobs=3"))
			badFlag = true
			c.Event("invalid flag")
		default:
			args = append(args, pick(r, "-i", "--import"), filepath.Join(imports, "good.json"))
		}
	}
	want := s.tree.clone()
	var e expectation
	switch {
	case badFlag:
		e.exit = 1
	case missingSource:
		e.exit = 1
		if ignore == "--ignore-missing-source" || ignore == "--ignore-missing-paths" {
			e.exit = 0
		}
	case blocked:
		e.exit = 1
	default:
		e = s.model(want)
	}
	stdout, stderr, code := runCLI(filepath.Join(root, s.cwd), "", []string{"TMPDIR=" + root}, args...)
	var lines []string
	for _, l := range strings.Split(stdout, "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	sort.Strings(lines)
	if (code != 0) != (e.exit != 0) || code < 0 || code > 5 {
		c.Fail("exit code", "exit code %d, expected %d for %q\nstderr: %s", code, e.exit, args, clip(stderr, 1500))
	} else if !badFlag && js(lines) != js(e.lines) {
		c.Fail("output", "stdout (sorted) %q\nexpected %q for %q\nstderr: %s", lines, e.lines, args, clip(stderr, 1500))
	} else if diff := diffTrees(loadTree(root), want); len(diff) > 0 {
		c.Fail("files", "%s\nfor %q\nstderr: %s", clip(strings.Join(diff, "\n"), 1500), args, clip(stderr, 1500))
	} else if code != 0 && strings.TrimSpace(stderr) == "" {
		c.Fail("message", "exit code %d without any message for %q", code, args)
	}
	c.Obs(js(args)+js(diffTrees(s.tree, ftree{})), true)
}

// discoverySuite: each file that matches is processed, once, and nothing else.
func discoverySuite(c *Ctx) {
	r := c.Rng
	s := newScenario(r)
	s.print = true
	s.sub = false
	folders := s.folders(1 + r.Intn(8))
	s.depth = pick(r, 0, 1, 2, 3, 1<<16, 1<<16)
	links := r.Intn(2) == 0
	if links {
		// Links between the folders, and to a folder out of the source
		s.follow = r.Intn(3) > 0
		s.depth = pick(r, 0, 1<<16, 1<<16, 1<<16)
		all := append([]string{"links/l1", "links/l1/l2", "links/l3"}, folders...)
		s.tree.mkdir("links/l1/l2")
		s.tree.mkdir("links/l3")
		for i := 1 + r.Intn(5); i > 0; i-- {
			at, to := path.Join(pick(r, all...), fmt.Sprintf("ln%d", i)), pick(r, all...)
			link := "ROOT/" + to
			if r.Intn(2) == 0 {
				link = must1(filepath.Rel(path.Dir(at), to))
			}
			s.tree[at] = &fnode{link: link}
			c.Event("links")
		}
		folders = all
	}
	var named []string
	for i := 3 + r.Intn(10); i > 0; i-- {
		p := path.Join(pick(r, folders...), s.fileName(r.Intn(2) == 0))
		s.tree.file(p, s.content("").text, 0644)
		if strings.HasPrefix(p, s.source+"/") {
			named = append(named, relTo(s.source, p))
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		p := pick(r, "*.txt", "*.json", "*f*[24680].*", "f?", "f1?*", "*.m?", "*.gt", "f*", "sub/*.txt", "k/f*", "*/f*", ".f*")
		if len(named) > 0 && r.Intn(4) == 0 {
			p = globQuote(path.Base(pick(r, named...)))
		}
		if p == "*/f*" && links {
			continue // a link to a folder is matched by *
		}
		s.patterns = append(s.patterns, p)
	}
	for i := r.Intn(3) * r.Intn(2); i > 0; i-- {
		if e, ok := genExclusion(r, s.source, named); ok {
			s.excludes = append(s.excludes, e)
			c.Event("exclusions")
		}
	}
	if r.Intn(5) == 0 && len(named) > 0 && !s.follow {
		s.explicit = []string{pick(r, named...)}
	}
	if r.Intn(10) == 0 && !s.follow {
		s.codeArgs = 1
	}
	s.run(c, 1)
}

func globQuote(p string) string {
	return strings.NewReplacer(`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`, "{", `\{`, "}", `\}`).Replace(p)
}

func genExclusion(r *rand.Rand, source string, named []string) (e exclusion, ok bool) {
	if len(named) == 0 {
		return
	}
	f := pick(r, named...)
	base, dir := path.Base(f), path.Dir(f)
	if strings.Contains(f, ",") {
		return
	}
	switch r.Intn(6) {
	case 0:
		return exclusion{globQuote(f), func(rel string) bool { return rel == f }}, true
	case 1:
		ext := path.Ext(f)
		if ext == "" || strings.ContainsAny(ext, "[]") {
			return
		}
		return exclusion{"*" + ext, func(rel string) bool { return !strings.Contains(rel, "/") && strings.HasSuffix(rel, ext) }}, true
	case 2:
		ext := path.Ext(f)
		if ext == "" || strings.ContainsAny(ext, "[]") {
			return
		}
		return exclusion{"**/*" + ext, func(rel string) bool { return !strings.HasPrefix(rel, "../") && strings.HasSuffix(rel, ext) }}, true
	case 3:
		if dir == "." {
			return
		}
		return exclusion{globQuote(dir) + "/**", func(rel string) bool { return strings.HasPrefix(rel, dir+"/") }}, true
	case 4:
		return exclusion{"**/" + globQuote(base), func(rel string) bool { return path.Base(rel) == base && !strings.HasPrefix(rel, "../") }}, true
	}
	return exclusion{"ROOT/" + globQuote(source+"/"+f), func(rel string) bool { return rel == f }}, true
}

func init() {
	register(&Property{
		ID:   "P09",
		Rule: "one evaluation is one run of the command line on a generated tree; distinct by tree, arguments and rank of the run; a run that processes no file does not count",
		Suites: []Suite{
			{Name: "mapping", Quick: 1500, Thorough: 40000, Run: mappingSuite, Need: []string{"same folder", "other folder", "files written", "lines printed"}},
			{Name: "printed", Quick: 1500, Thorough: 40000, Run: printedSuite, Need: []string{"printed with print", "printed with stdin", "printed with argument", "printed with bang"}},
		},
	})
	register(&Property{
		ID:   "P10",
		Rule: "one evaluation is one run of the command line on a generated tree; distinct by tree and arguments; a run that processes no file does not count",
		Suites: []Suite{
			{Name: "failures", Quick: 1500, Thorough: 40000, Run: failuresSuite, Need: []string{"target is a folder", "folder is a file", "original is a folder", "device is full", "missing files", "files in error"}},
			{Name: "setup", Quick: 600, Thorough: 10000, Run: setupSuite, Need: []string{"missing import", "invalid import", "invalid substitution", "missing source", "invalid pattern", "invalid flag"}},
		},
	})
	register(&Property{
		ID:   "P11",
		Rule: "one evaluation is one run of the command line on a generated tree; distinct by tree and arguments; a run that processes no file does not count",
		Suites: []Suite{
			{Name: "discovery", Quick: 1500, Thorough: 40000, Run: discoverySuite, Need: []string{"links", "exclusions", "lines printed"}},
		},
	})
}

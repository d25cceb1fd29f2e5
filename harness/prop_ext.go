package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// P26: git, network, terraform and terminal integrations.

func runGit(dir string, args ...string) (string, error) {
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CEILING_DIRECTORIES=" + filepath.Dir(dir),
		"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b.c", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b.c",
		"GIT_AUTHOR_DATE=2020-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2020-01-01T00:00:00Z"}
	out, err := cmd.Output()
	return strings.TrimSuffix(string(out), "\n"), err
}

// gitSuite: the git functions say what git says, at any point of the life of a repository.
func gitSuite(c *Ctx) {
	r := c.Rng
	dir := filepath.Join(c.Dir(), pick(r, "repo", "my repo", "dépôt"))
	must0(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	var trace []string
	git := func(args ...string) (string, error) {
		trace = append(trace, strings.Join(args, " "))
		return runGit(dir, args...)
	}
	git("init", "-q", "-b", pick(r, "main", "master", "release/1.0"))
	branches, commits := 0, 0
	for step := 0; step < 7; step++ {
		switch r.Intn(9) {
		case 0, 1, 2:
			git("commit", "-q", "--allow-empty", "-m", fmt.Sprintf("commit %d", commits))
			commits++
		case 3:
			branches++
			git("checkout", "-q", "-b", fmt.Sprintf("%s-%d", pick(r, "feature/x", "b", "fix/a/b", "éà"), branches))
		case 4:
			git("checkout", "-q", "--detach")
		case 5:
			git("pack-refs", "--all")
		case 6:
			git("remote", "add", pick(r, "origin", "origin", "upstream"), pick(r, "https://example.com/a.git", "git@github.com:a/b.git", "../other", "ssh://host:22/x"))
		case 7:
			git("tag", fmt.Sprintf("v%d", step))
		case 8:
			git("remote", "set-url", "--add", "origin", "https://mirror/a.git")
		}
		if step < 3 && r.Intn(3) > 0 {
			continue
		}
		path := dir
		kind := "repository"
		if r.Intn(8) == 0 {
			kind, path = "sub folder", filepath.Join(dir, "sub")
		} else if r.Intn(12) == 0 {
			kind, path = "missing", filepath.Join(dir, "missing")
		}
		checks := []struct{ fn, want string }{{"currentCommit", ""}, {"currentBranch", ""}, {"origin", ""}}
		if kind == "repository" {
			if s, err := runGit(dir, "rev-parse", "--verify", "-q", "HEAD"); err == nil {
				checks[0].want = s
				if s, err := runGit(dir, "symbolic-ref", "-q", "--short", "HEAD"); err == nil {
					checks[1].want = s
				}
			}
			if s, err := runGit(dir, "config", "--get-all", "remote.origin.url"); err == nil {
				checks[2].want, _, _ = strings.Cut(s, "\n")
			}
		}
		for _, k := range checks {
			t := newTemplate(map[string]interface{}{"path": path}, "", strictOptions())
			got, err := render(t, pick(r, "{{ "+k.fn+" .path }}", "@"+k.fn+"(path)", "{{ .path | "+k.fn+" }}"))
			if k.want == "" {
				c.Event("git error")
				if err == nil {
					c.Fail("git-error", "%s gives %q, but git gives an error for the %s after\n%s", k.fn, got, kind, strings.Join(trace, "\n"))
				}
				continue
			}
			c.Event("git " + k.fn)
			if err != nil || got != k.want {
				c.Fail("git", "%s gives %q (%v), git says %q for the %s after\n%s", k.fn, got, err, k.want, kind, strings.Join(trace, "\n"))
			}
		}
	}
	c.Obs(strings.Join(trace, "\n"), commits > 0)
}

type servedPage struct {
	status      int
	body, title string
	items       []string
}

var (
	pageServer *httptest.Server
	pages      sync.Map
)

func startServer(*Ctx) {
	pageServer = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		v, ok := pages.Load(q.URL.RequestURI())
		if !ok {
			w.WriteHeader(404)
			return
		}
		p := v.(servedPage)
		w.Header().Set("X-Title", p.title)
		w.Header().Set("X-Method", q.Method)
		w.WriteHeader(p.status)
		io.WriteString(w, p.body)
	}))
}

// httpSuite: httpGet and httpDoc give what the server answers.
func httpSuite(c *Ctx) {
	r := c.Rng
	p := servedPage{status: pick(r, 200, 200, 200, 201, 404, 500), title: safeWord(r)}
	for i := r.Intn(4); i > 0; i-- {
		p.items = append(p.items, safeWord(r))
	}
	p.body = "<html><head><title>" + p.title + "</title></head><body><ul>"
	for i, x := range p.items {
		p.body += fmt.Sprintf("<li class=\"c%d\">%s</li>\n", i, x)
	}
	p.body += "</ul></body></html>"
	uri := fmt.Sprintf("/p%d%s", r.Intn(1e9), pick(r, "", "?a=1", "?a=b%20c&d=2", "/x/y.html"))
	pages.Store(uri, p)
	defer pages.Delete(uri)
	url := pageServer.URL + uri
	missing := r.Intn(8) == 0
	if missing {
		url = strings.Replace(pageServer.URL, "127.0.0.1:", "127.0.0.1:1", 1)[:len("http://127.0.0.1:1")] // nothing listens on port 1
	}
	checks := []struct{ code, want string }{
		{"{{ (httpGet .url).StatusCode }}", fmt.Sprint(p.status)},
		{"{{ (httpGet .url).Header.Get `X-Title` }}", p.title},
		{"{{ (httpGet .url).Header.Get `X-Method` }}", "GET"},
		{"@httpGet(url).StatusCode", fmt.Sprint(p.status)},
	}
	for _, fn := range []string{"httpDoc", "httpDocument", "curl"} {
		checks = append(checks, []struct{ code, want string }{
			{"{{ (" + fn + " .url).Find(`title`).Text }}", p.title},
			{"{{ ((" + fn + " .url).Find `title`).Text }}", p.title},
			{"{{ ((" + fn + " .url).Find `li`).Length }}", fmt.Sprint(len(p.items))},
			{"@" + fn + "(url).Find(`li`).Length()", fmt.Sprint(len(p.items))},
			{"{{ ((" + fn + " .url).Find `li`).Text }}", strings.Join(p.items, "")},
		}...)
	}
	k := checks[r.Intn(len(checks))]
	if strings.Contains(k.code, "(`title`)") || strings.Contains(k.code, "Length()") {
		k = checks[0]
	}
	if r.Intn(4) == 0 {
		k.code = strings.NewReplacer("httpGet .url", ".url | httpGet", "httpDoc .url", ".url | httpDoc").Replace(k.code)
	}
	t := newTemplate(map[string]interface{}{"url": url}, "", strictOptions())
	got, err := render(t, k.code)
	if missing {
		c.Event("no server")
		if err == nil {
			c.Fail("http-error", "%s gives %q but nothing answers at %s", k.code, got, url)
		}
	} else if err != nil || got != k.want {
		c.Fail("http", "%s gives %q (%v), the server answered %+v", k.code, got, err, p)
	} else {
		c.Event("pages")
	}
	c.Obs(k.code+uri+p.body, true)
}

// terraformSuite: terraform fmt is executed in the folders of the terraform files that have been written, and only there.
func terraformSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	src := filepath.Join(dir, "src")
	logf := filepath.Join(dir, "terraform.log")
	failing := r.Intn(6) == 0
	script := "#!/bin/sh\nprintf '%s|%s\\n' \"$PWD\" \"$*\" >> " + logf + "\n"
	if failing {
		script += "echo invalid >&2\nexit 3\n"
	} else {
		script += "for f in *.tf *.tfvars *.tf.json; do test -f \"$f\" && sed -i 's/  *= */ =/' \"$f\"; done\nexit 0\n"
	}
	installed := r.Intn(8) > 0
	if installed {
		writeFile(filepath.Join(dir, "bin", "terraform"), script, 0755)
	}
	target, args := src, []string{"-r"}
	if r.Intn(2) == 0 {
		target = filepath.Join(dir, "out")
		args = append(args, "--target", target)
	}
	print := r.Intn(6) == 0
	if print {
		args = append(args, "--print")
	}
	expected := map[string]bool{}
	results, tfPrinted := map[string]string{}, []string(nil)
	names := map[string]bool{}
	desc := ""
	for i := 1 + r.Intn(6); i > 0; i-- {
		ext := pick(r, ".tf", ".tfvars", ".tf.json", ".txt", ".json", ".tfstate", "")
		name := fmt.Sprintf("%s%d%s", pick(r, "main", "x.tf.", "tf"), i, ext)
		folder := pick(r, ".", "a", "a/b", "c d")
		p := filepath.Join(folder, name)
		if names[p] {
			continue
		}
		names[p] = true
		kind := pick(r, "gt", "gt", "error", "template")
		content := fmt.Sprintf("v    = @(%d+1);\n", i)
		result := fmt.Sprintf("v    = %d\n", i+1)
		if kind == "error" {
			content, kind, result = "@undefinedFunction(1)\n", "gt", ""
		}
		writeFile(filepath.Join(src, p+"."+kind), content, 0644)
		desc += p + "." + kind + " " + content
		out := strings.TrimSuffix(p, filepath.Ext(p)) + ".generated" + filepath.Ext(p)
		if filepath.Ext(p) == "" {
			out = p + ".generated"
		}
		if target != src {
			out = p
		}
		if result == "" {
			continue
		}
		for _, e := range []string{".tf", ".tfvars", ".tf.json"} {
			if !strings.HasSuffix(out, e) {
				continue
			}
			if print {
				tfPrinted = append(tfPrinted, out)
			} else {
				expected[filepath.Dir(filepath.Join(target, out))] = true
			}
			if installed && !failing {
				result = fmt.Sprintf("v =%d\n", i+1) // what our terraform does
			}
		}
		results[out] = result
	}
	so, se, code := runCLI(src, "", []string{"PATH=" + filepath.Join(dir, "bin") + ":/usr/bin:/bin"}, args...)
	b, _ := os.ReadFile(logf)
	seen, temporary := map[string]int{}, 0
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if l == "" {
			continue
		}
		folder, what, _ := strings.Cut(l, "|")
		if strings.Contains(folder, "/gotemplate-") && strings.HasPrefix(folder, src) { // TMPDIR is src
			temporary++
		} else {
			seen[folder]++
		}
		if what != "fmt" {
			c.Fail("terraform", "terraform %s has been executed\n%s", what, desc)
		}
	}
	if !installed {
		tfPrinted, expected = nil, map[string]bool{}
	}
	exp, got := sortedKeys(expected), sortedKeys(seen)
	sort.Strings(got)
	if fmt.Sprint(exp) != fmt.Sprint(got) {
		c.Fail("terraform", "terraform fmt executed in %v, expected %v\n%v\n%s\nexit %d %s%s", got, exp, args, desc, code, clip(so, 1000), clip(se, 2000))
	}
	for folder, n := range seen {
		if !failing && n != 2 {
			c.Fail("terraform", "terraform fmt executed %d times in %s", n, folder)
		}
	}
	if (temporary > 0) != (len(tfPrinted) > 0) {
		c.Fail("terraform", "terraform fmt executed %d times in temporary folders, printed files %v\n%v\n%s", temporary, tfPrinted, args, desc)
	}
	var lines []string
	for _, out := range sortedKeys(results) {
		if print {
			lines = append(lines, results[out])
			continue
		}
		if b, err := os.ReadFile(filepath.Join(target, out)); err != nil || string(b) != results[out] {
			c.Fail("terraform", "%s contains %q (%v), expected %q\n%v\n%s", out, b, err, results[out], args, desc)
		}
	}
	printed := strings.SplitAfter(so, "\n")
	if n := len(printed); print && printed[n-1] == "" {
		printed = printed[:n-1]
	}
	sort.Strings(lines)
	sort.Strings(printed)
	if print && strings.Join(lines, "") != strings.Join(printed, "") {
		c.Fail("terraform", "printed %q, expected %q\n%v\n%s\n%s", printed, lines, args, desc, se)
	}
	if strings.Contains(se, "goroutine ") {
		c.Fail("terraform", "%s", clip(se, 3000))
	}
	if len(exp) > 0 {
		c.Event("terraform fmt")
		if failing {
			c.Event("terraform failing")
		}
	}
	c.Obs(fmt.Sprint(args, installed, failing)+desc, len(exp) > 0)
}

// colorSuite: colours are rendered only if they are wanted.
func colorSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	names := []string{"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"}
	src, plain, colored := "", "", ""
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := r.Intn(len(names))
		code := 30 + n
		name := names[n]
		switch r.Intn(4) {
		case 0:
			name, code = "Bg"+strings.Title(name), 40+n
		case 1:
			name, code = "FgHi"+strings.Title(name), 90+n
		case 2:
			name = strings.ToUpper(name)
		}
		codes := []string{fmt.Sprint(code)}
		fn := pick(r, "color", "colored", "enhanced")
		call, text := fmt.Sprintf("%q", name), safeWord(r)
		if r.Intn(3) == 0 {
			call, codes = call+` "underline"`, append(codes, "4")
		}
		if r.Intn(3) == 0 {
			call += fmt.Sprintf(` "%%s=%%d" %q 5`, text)
			text += "=5"
		} else {
			call += fmt.Sprintf(` %q`, text)
		}
		strip := r.Intn(4) == 0
		code1 := fn + " " + call
		full := "\x1b[" + strings.Join(codes, ";") + "m" + text
		if strip {
			code1, full = pick(r, "stripColor", "stripansi", "stripANSI")+" ("+code1+")", text
		}
		src += "[{{ " + code1 + " }}]\n"
		plain += "[" + text + "]\n"
		colored += "[" + full + "]\n"
	}
	writeFile(filepath.Join(dir, "a.gt"), src, 0644)
	args, want := []string{"-P", "a.gt"}, plain
	switch r.Intn(4) {
	case 0:
		args = append(args, "--no-color")
	case 1, 2:
		args, want = append(args, "--color"), colored
	}
	so, se, code := runCLI(dir, "", nil, args...)
	// the sequence that ends the attributes depends on them
	for {
		i := strings.Index(so, "\x1b[0")
		if i < 0 {
			break
		}
		j := strings.IndexByte(so[i:], 'm')
		so = so[:i] + so[i+j+1:]
	}
	for _, off := range []string{"\x1b[24m"} {
		so = strings.ReplaceAll(so, off, "")
	}
	if so != want || code != 0 {
		c.Fail("color", "%v on %q gives\n%q\nexpected\n%q\nexit %d %s", args, src, so, want, code, se)
	}
	c.Event("color " + fmt.Sprint(args[2:]))
	c.Obs(fmt.Sprint(args)+src, true)
}

func init() {
	register(&Property{
		ID:   "P26",
		Rule: "one evaluation is one history of a git repository, one served page, or one command line; distinct by content",
		Suites: []Suite{
			{Name: "git", Quick: 250, Thorough: 6000, Run: gitSuite, Need: []string{"git error", "git currentBranch", "git currentCommit", "git origin"}},
			{Name: "http", Quick: 2000, Thorough: 40000, Run: httpSuite, Once: startServer, Need: []string{"pages", "no server"}},
			{Name: "terraform", Quick: 400, Thorough: 8000, Run: terraformSuite, Need: []string{"terraform fmt", "terraform failing"}},
			{Name: "color", Quick: 300, Thorough: 5000, Run: colorSuite},
		},
	})
}

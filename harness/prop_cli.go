package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// ---- P19: spelling of the command line -------------------------------------------------------

type cliOption struct {
	long   string
	alias  []string // other names
	short  string
	env    string
	values []string // empty for a switch
	many   bool
	off    bool // the switch is given by --no-long
}

func (o *cliOption) names() []string { return append([]string{o.long}, o.alias...) }

// spell gives the arguments, or the environment, for the option.
func (o *cliOption) spell(r *rand.Rand, values []string, allowEnv bool) (args, env []string) {
	if allowEnv && o.env != "" && r.Intn(3) == 0 {
		switch {
		case o.off:
			return nil, []string{o.env + "=" + pick(r, "false", "0", "f", "False")}
		case len(values) == 0:
			return nil, []string{o.env + "=" + pick(r, "true", "1", "t", "True")}
		}
		return nil, []string{o.env + "=" + strings.Join(values, "\n")}
	}
	if len(values) == 0 {
		if o.short != "" && r.Intn(2) == 0 {
			return []string{"-" + o.short}, nil
		}
		return []string{iifs(o.off, "--no-", "--") + pick(r, o.names()...)}, nil
	}
	for _, v := range values {
		name := "--" + pick(r, o.names()...)
		switch {
		case o.short != "" && r.Intn(3) == 0:
			args = append(args, "-"+o.short, v)
		case o.short != "" && r.Intn(3) == 0 && !strings.HasPrefix(v, "="):
			args = append(args, "-"+o.short+v)
		case r.Intn(2) == 0:
			args = append(args, name, v)
		default:
			args = append(args, name+"="+v)
		}
	}
	return
}

func cliOptions(r *rand.Rand) (list []cliOption) {
	add := func(chance int, o cliOption) {
		if r.Intn(chance) == 0 {
			list = append(list, o)
		}
	}
	several := func(n int, values ...string) (result []string) {
		for i := 1 + r.Intn(n); i > 0; i-- {
			result = append(result, pick(r, values...))
		}
		return
	}
	add(2, cliOption{long: "import", short: "i", env: "GOTEMPLATE_IMPORT", values: several(3, "a.json", "b.yml", "c.hcl", "@d.json"), many: true})
	add(5, cliOption{long: "import-if-exist", alias: []string{"iie"}, env: "GOTEMPLATE_IMPORT_IF_EXIST", values: several(2, "a.json", "none.yml"), many: true})
	add(2, cliOption{long: "var", short: "V", env: "GOTEMPLATE_VAR", values: several(3, "x=1", "y=text", "w=[1,2]", "a.json", "name=a.json", "x=2", "m={k=1}", "@d.json"), many: true})
	add(5, cliOption{long: "type", short: "t", env: "GOTEMPLATE_TYPE", values: several(1, "Json", "Yaml", "hcl", "Y", "j")})
	add(3, cliOption{long: "patterns", short: "p", env: "GOTEMPLATE_PATTERNS", values: several(2, "*.txt", "*.md", "@*.tpl"), many: true})
	add(4, cliOption{long: "exclude", short: "e", env: "GOTEMPLATE_EXCLUDE", values: several(2, "two*", "*.md", "sub/*", "one*", "@*"), many: true})
	add(4, cliOption{long: "overwrite", short: "o", env: "GOTEMPLATE_OVERWRITE"})
	add(3, cliOption{long: "substitute", short: "s", env: "GOTEMPLATE_SUBSTITUTE", values: several(3, "/text/TEXT", "/[0-9]/N", "|a.*e|<$0>", "/^$/d", "@text@TEXT"), many: true})
	add(4, cliOption{long: "remove-empty-lines", alias: []string{"remove-empty", "rel", "re"}, short: "E", env: "GOTEMPLATE_REMOVE_EMPTY_LINES"})
	if r.Intn(2) == 0 {
		add(2, cliOption{long: "recursive", short: "r", env: "GOTEMPLATE_RECURSIVE"})
	} else {
		add(2, cliOption{long: "recursion-depth", alias: []string{"rd"}, short: "R", env: "GOTEMPLATE_RECURSION_DEPTH", values: several(1, "1", "2", "3")})
	}
	add(4, cliOption{long: "source", alias: []string{"s"}, env: "GOTEMPLATE_SOURCE", values: several(1, "sub", ".", "nowhere", "@sub")})
	add(3, cliOption{long: "target", alias: []string{"t"}, env: "GOTEMPLATE_TARGET", values: several(1, "out", "sub", "../../out", "@out")})
	add(4, cliOption{long: "follow-symlinks", alias: []string{"fs"}, short: "f", env: "GOTEMPLATE_FOLLOW_SYMLINKS"})
	add(4, cliOption{long: "print", short: "P", env: "GOTEMPLATE_PRINT"})
	add(8, cliOption{long: "disable", short: "d", env: "GOTEMPLATE_DISABLE"})
	add(3, cliOption{long: "accept-no-value", alias: []string{"no-value", "anv", "nv"}, env: "GOTEMPLATE_NO_VALUE"})
	add(4, cliOption{long: "strict-error-validation", alias: []string{"strict", "sev"}, short: "S", env: "GOTEMPLATE_STRICT_ERROR"})
	add(5, cliOption{long: "strict-assignations-validation", alias: []string{"sav"}, env: "GOTEMPLATE_STRICT_ASSIGNATIONS_VALIDATION", values: several(1, "on", "off", "warning")})
	add(6, cliOption{long: "delimiters", alias: []string{"del", "d"}, env: "GOTEMPLATE_DELIMITERS", values: several(1, "[[,]],@", ",,§", "<<,>>,%")})
	add(6, cliOption{long: "ignore-razor", alias: []string{"ir"}, values: several(2, "x", "other", "y"), many: true})
	add(4, cliOption{long: "ignore-missing-import", alias: []string{"imi"}, env: "GOTEMPLATE_IGNORE_MISSING_IMPORT"})
	add(4, cliOption{long: "ignore-missing-source", alias: []string{"ims"}, env: "GOTEMPLATE_IGNORE_MISSING_SOURCE"})
	add(6, cliOption{long: "ignore-missing-paths", alias: []string{"imp"}, env: "GOTEMPLATE_IGNORE_MISSING_PATHS"})
	for _, addon := range []string{"math", "sprig", "data", "razor", "logging", "utils", "runtime", "extension", "net", "os", "git"} {
		add(12, cliOption{long: addon, env: "GOTEMPLATE_" + strings.ToUpper(addon), off: true})
	}
	return
}

func cliFolder(r *rand.Rand) map[string]string {
	lines := []string{"x is @x", "y={{ .y }}", "{{ add 1 2 }} text", "@other;", "@upper(\"abc\")", "", "plain text 42", "@for (i := to(3)) @i @end", "{{ .name }}", "{{ toYaml .m }}", "[[ 1 ]] §x <<2>> %x", "@x := 5", "{{ own 1 }}", "{{ define `T` }}t{{ end }}", "{{ .missing }}", "@sum(1, 2)", "{{ if .x }}yes{{ end }}", "  ", "@json(`{\"a\": 1}`)", "{{ now | len }}", "{{ trim \" a \" }}", "@exists(\"a.json\")", "@substr(0, 2, username())", "{{ currentCommit `.` }}", "@typeOf(httpGet)"}
	files := map[string]string{"a.json": `{"x": 10, "name": "json", "m": {"k": 3}}`, "b.yml": "y: yaml\nm:\n  j: 4\n", "c.hcl": "x = 12\nname = \"hcl\"\n", "@d.json": `{"y": "at"}`, "defs.gte": "@func(\"own\", \"include\", \"own @.ARGS;\", dict())\n"}
	for _, name := range []string{"one.gt", "two.ext.gt", "three.txt", "four.md", "sub/one.gt", "sub/five.template", "sub/deep/six.txt.gt", "sub/deep/seven.txt", "@at.gt", "@at.tpl", "@sub/one.gt"} {
		if r.Intn(3) == 0 {
			continue
		}
		text := ""
		for i := 1 + r.Intn(4); i > 0; i-- {
			text += pick(r, lines...) + "\n"
		}
		files[name] = text
	}
	return files
}

func spellingSuite(c *Ctx) {
	r := c.Rng
	dir := c.Dir()
	options := cliOptions(r)
	files := cliFolder(r)
	var templates []string
	for i := r.Intn(4) - 1; i > 0; i-- {
		templates = append(templates, pick(r, "one.gt", "three.txt", "sub/one.gt", "@(1 + 2)", "{{ add 1 .x }}", "@at.gt", "@at.tpl", "two.ext.gt", "missing.gt"))
	}
	type result struct {
		stdout, stderr string
		code           int
		tree           map[string]string
	}
	run := func(name string, plain bool) (result, string) {
		// both runs have the same paths
		work := filepath.Join(dir, "work")
		must0(os.RemoveAll(work))
		must0(os.RemoveAll(filepath.Join(dir, "out")))
		for n, t := range files {
			writeFile(filepath.Join(work, "in", n), t, 0644)
		}
		must0(os.Symlink("sub", filepath.Join(work, "in", "link")))
		var args, env []string
		groups := [][]string{}
		if plain {
			args = append(args, "run")
			args = append(args, templates...)
			for i := range options {
				o := &options[i]
				if len(o.values) == 0 {
					args = append(args, iifs(o.off, "--no-", "--")+o.long)
				}
				for _, v := range o.values {
					args = append(args, "--"+o.long+"="+v)
				}
			}
		} else {
			for _, i := range r.Perm(len(options)) {
				a, e := options[i].spell(r, options[i].values, true)
				groups, env = append(groups, a), append(env, e...)
			}
			flags := []string{}
			for _, g := range groups {
				flags = append(flags, g...)
			}
			var switches string // -Pro
			for i := 0; i < len(flags); i++ {
				if len(flags[i]) == 2 && strings.Contains("oErfPdS", flags[i][1:]) && flags[i][0] == '-' && (i == 0 || !strings.HasPrefix(flags[i-1], "-") || strings.Contains(flags[i-1], "=") || len(flags[i-1]) == 2 && strings.Contains("oErfPdS", flags[i-1][1:])) && r.Intn(2) == 0 {
					switches += flags[i][1:]
					flags = append(flags[:i:i], flags[i+1:]...)
					i--
				}
			}
			if switches != "" {
				flags = append(flags, "-"+switches)
			}
			command := []string{}
			if r.Intn(2) == 0 {
				command = []string{"run"}
			}
			switch {
			case r.Intn(2) == 0:
				args = append(append(command, templates...), flags...)
			default:
				args = append(append(command, flags...), templates...)
			}
		}
		so, se, code := runCLI(filepath.Join(work, "in"), "", append(env, "HOME="+dir, "TMPDIR="+dir), args...)
		res := result{so, stripTime(se), code, map[string]string{}}
		for n := range readTree(dir) {
			if b, err := os.ReadFile(filepath.Join(dir, n)); err == nil {
				res.tree[n] = string(b)
			}
		}
		return res, fmt.Sprintf("%q %q", env, args)
	}
	want, first := run("a", true)
	for i := 0; i < 2; i++ {
		got, second := run("b", false)
		if js(got.tree) != js(want.tree) || got.code != want.code || got.stdout != want.stdout || got.stderr != want.stderr {
			c.Fail("spelling", "on %s\n%s\nexit %d stdout %q\nstderr %q\nfiles %s\n%s\nexit %d stdout %q\nstderr %q\nfiles %s", js(files), first, want.code, want.stdout, clip(want.stderr, 1500), js(want.tree), second, got.code, got.stdout, clip(got.stderr, 1500), js(got.tree))
			return
		}
		c.Event("spellings")
	}
	switch {
	case strings.Contains(want.stdout, "usage: gotemplate"):
		c.Fail("usage", "%s\nis refused: %s", first, clip(want.stdout, 300))
	case want.stdout != "" || len(want.tree) > len(files)+1:
		c.Event("work done")
	}
	c.Event(fmt.Sprintf("exit %d", want.code))
	c.Obs(first, len(options) > 0)
}

func init() {
	register(&Property{
		ID:   "P19",
		Rule: "an option means the same whatever its spelling (long name, alias, short name, grouped switches, value joined or not, environment variable), its place and the presence of the command name: same files, same output, same messages and same exit code",
		Suites: []Suite{
			{Name: "spelling", Quick: 1200, Thorough: 25000, Run: spellingSuite, Need: []string{"work done", "exit 0", "exit 1"}},
		},
	})
}

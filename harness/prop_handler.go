package main

import (
	"errors"
	"fmt"
	"path"
	"path/filepath"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// ---- P27: library calls that process files, with and without a handler -------------------------

// handlerCall is what a handler received and what it did.
type handlerCall struct {
	name, original, result, status string
	changed                        bool
}

var errHandler = errors.New("handler says no")

// handlerSuite: the handler sees each document exactly once, in order, and what it decides is what is done.
func handlerSuite(c *Ctx) {
	r := c.Rng
	root := c.Dir()
	s := &scenario{r: r, contents: map[string]content{}, strictAll: r.Intn(4) == 0}
	s.source = pick(r, "src", "src", "a/b", "d.x")
	s.target = s.source
	if r.Intn(2) == 0 {
		s.target = pick(r, "out", "out/deep", "src2")
	}
	s.overwrite, s.print = r.Intn(2) == 0, r.Intn(8) == 0
	t := ftree{}
	t.mkdir(s.source)
	type doc struct {
		name, rel string // as given and relative to the source
		code      string
	}
	var docs []doc
	for n := 1 + r.Intn(5); n > 0; n-- {
		switch r.Intn(10) {
		case 0:
			docs = append(docs, doc{name: fmt.Sprintf("code @(%d * 2)", len(docs)), code: fmt.Sprintf("code %d", len(docs)*2)})
		case 1:
			rel := fmt.Sprintf("missing%d.gt", len(docs))
			docs = append(docs, doc{name: filepath.Join(root, s.source, rel), rel: rel})
		default:
			f := pick(r, "", "", "sub/", "sub/in/", "x.d/") + fmt.Sprintf("f%d", len(docs)) + pick(r, ".gt", ".txt", ".ext.gt", ".template", ".conf.template", "", ".gt.template", ".yml", ".generated.gt")
			t.file(path.Join(s.source, f), s.content(pick(r, "", "", "", "plain", "error", "script", "blank", "shebang")).text, pick(r, fileModes...))
			docs = append(docs, doc{name: filepath.Join(root, s.source, f), rel: f})
		}
	}
	t.create(root)

	opts := template.DefaultOptions()
	opts[template.Overwrite], opts[template.OutputStdout], opts[template.StrictErrorCheck] = s.overwrite, s.print, s.strictAll
	engine := must1(template.NewTemplate(filepath.Join(root, s.source), collections.AsDictionary(map[string]interface{}{"val": "VAL", "l": []interface{}{7, 8}, "d": map[string]interface{}{"a": 1}}), "", opts))
	var printed strings.Builder
	print, println := template.Print, template.Println
	template.Print = func(a ...interface{}) (int, error) { return printed.WriteString(fmt.Sprint(a...)) }
	template.Println = func(a ...interface{}) (int, error) { return printed.WriteString(fmt.Sprintln(a...)) }
	defer func() { template.Print, template.Println = print, println }()

	// What the handler does for each document: nothing or a decision
	mode := r.Intn(3) // no handler, handler that only looks, handler that decides
	decisions := make([]string, len(docs))
	if mode == 2 {
		for i := range decisions {
			decisions[i] = pick(r, "", "text", "text", "text only", "same text", "claims", "denies", "error", "forgives", "forgives text", "empties")
		}
	}
	var calls []handlerCall
	var order []int // the documents for which a call is expected
	want := t.clone()
	var wantFiles, wantCalls []string
	var wantPrinted string
	wantErrors := 0
	for i, d := range docs {
		var name, original, result string
		var failed, changed, bang, isTmpl bool
		if d.code != "" {
			name, original, result, changed = ".", d.name, d.code, true
		} else {
			node := want[path.Join(s.source, d.rel)]
			if node == nil {
				wantErrors++
				continue
			}
			isTmpl = isTemplateName(d.rel)
			name, original = d.name, node.content
			result, failed, changed, bang = s.render(node.content, isTmpl)
			bang = strings.HasPrefix(node.content, "#!") && strings.Contains(strings.SplitN(node.content, "\n", 2)[0], "gotemplate")
			_ = bang
		}
		order = append(order, i)
		if failed {
			wantCalls = append(wantCalls, fmt.Sprintf("%s %q failed", name, original))
		} else {
			wantCalls = append(wantCalls, fmt.Sprintf("%s %q %q %v", name, original, result, changed))
		}
		c.Event("documents")
		switch decisions[i] {
		case "text", "forgives text":
			if decisions[i] == "text" && failed {
				break
			}
			result, changed, failed = fmt.Sprintf("handled %d\n", i), true, false
		case "text only":
			// The handler changes the text without saying so
			result = fmt.Sprintf("handled %d\n", i)
		case "claims":
			changed = true
		case "error":
			failed = true
		case "forgives":
			if failed {
				result, failed = "", false
				changed = true
			}
		case "empties":
			if !failed {
				result, changed = "", true
			}
		}
		if failed {
			wantErrors++
			continue
		}
		if d.code != "" {
			if strings.TrimRight(result, " \t") != "" {
				wantPrinted += strings.TrimSuffix(result, "\n") + "\n"
			}
			continue
		}
		src := path.Join(s.source, d.rel)
		target := path.Join(s.target, strings.TrimSuffix(strings.TrimSuffix(d.rel, ".gt"), ".template"))
		ext := path.Ext(target)
		if isTmpl {
			if strings.TrimSpace(result)+ext == "" {
				continue
			}
			if !s.overwrite {
				target = strings.TrimSuffix(target, ext) + ".generated" + ext
			}
		}
		if s.print || bang {
			wantPrinted += result
			continue
		}
		if s.source == s.target && !changed {
			continue
		}
		perm := want[src].mode
		if isScript(result) {
			perm = 0755
		}
		if s.source != s.target {
			want.mkdir(path.Dir(target))
		} else if !isTmpl && !s.overwrite {
			want[src+".original"] = want[src]
			delete(want, src)
		}
		if old := want[target]; old != nil {
			perm = old.mode
		} else {
			perm &^= processUmask
		}
		want[target] = &fnode{content: result, mode: perm}
		wantFiles = append(wantFiles, target)
		if isTmpl && s.overwrite && s.source == s.target {
			delete(want, src)
		}
	}

	handler := func(name, original string, result *string, changed bool, status error) (bool, error) {
		call := handlerCall{name: name, original: original, result: *result, changed: changed}
		if status != nil {
			call.status = status.Error()
		}
		calls = append(calls, call)
		if len(calls) > len(order) {
			return false, status
		}
		i := order[len(calls)-1]
		switch decisions[i] {
		case "text", "forgives text":
			if status == nil || decisions[i] == "forgives text" {
				*result = fmt.Sprintf("handled %d\n", i)
				return true, nil
			}
		case "text only":
			*result = fmt.Sprintf("handled %d\n", i)
		case "same text":
			same := *result
			*result = same
		case "claims":
			return true, status
		case "error":
			return true, errHandler
		case "forgives":
			if status != nil {
				*result = ""
				return true, nil
			}
		case "empties":
			if status == nil {
				*result = ""
				return true, nil
			}
		}
		return false, status
	}
	names := make([]string, len(docs))
	for i := range docs {
		names[i] = docs[i].name
	}
	source, target := filepath.Join(root, s.source), filepath.Join(root, s.target)
	argSource, argTarget := source, target
	if r.Intn(3) == 0 {
		argSource = "" // the folder of the engine
	}
	if s.source == s.target && r.Intn(3) == 0 {
		argTarget = ""
	}
	var files []string
	var err error
	api := "ProcessTemplatesWithHandler"
	switch {
	case mode > 0:
		files, err = engine.ProcessTemplatesWithHandler(argSource, argTarget, handler, names...)
	case r.Intn(2) == 0:
		api = "ProcessTemplates"
		files, err = engine.ProcessTemplates(argSource, argTarget, names...)
	default:
		files, err = engine.ProcessTemplatesWithHandler(argSource, argTarget, nil, names...)
	}
	what := fmt.Sprintf("%s of %q (%q → %q, overwrite %v, print %v, strict %v), handler %d %q", api, names, argSource, argTarget, s.overwrite, s.print, s.strictAll, mode, decisions)
	clean := func(x string) string { return strings.ReplaceAll(x, root, "ROOT") }
	if mode > 0 {
		got := []string{}
		for _, call := range calls {
			if call.status != "" {
				got = append(got, fmt.Sprintf("%s %q failed", call.name, call.original))
			} else {
				got = append(got, fmt.Sprintf("%s %q %q %v", call.name, call.original, call.result, call.changed))
			}
		}
		if strings.Join(got, "\n") != strings.Join(wantCalls, "\n") {
			c.Fail("handler-calls", "%s\ncalled with\n%s\nexpected\n%s", clean(what), clean(strings.Join(got, "\n")), clean(strings.Join(wantCalls, "\n")))
		}
		c.Event(fmt.Sprintf("handler calls mode %d", mode))
	}
	if d := diffTrees(loadTree(root), want); len(d) > 0 {
		c.Fail("handler-files", "%s\n%s", clean(what), strings.Join(d, "\n"))
	}
	if printed.String() != wantPrinted {
		c.Fail("handler-printed", "%s\nprinted  %q\nexpected %q", clean(what), printed.String(), wantPrinted)
	}
	for i := range files {
		files[i], _ = filepath.Rel(root, files[i])
	}
	if strings.Join(files, "|") != strings.Join(wantFiles, "|") {
		c.Fail("handler-result", "%s\nreturned %q\nexpected %q", clean(what), files, wantFiles)
	}
	if (err != nil) != (wantErrors > 0) {
		c.Fail("handler-error", "%s\nerror %v, expected %d documents in error", clean(what), err, wantErrors)
	}
	for i, d := range decisions {
		if d == "error" && mode == 2 && !strings.HasPrefix(docs[i].rel, "missing") && (err == nil || !strings.Contains(err.Error(), errHandler.Error())) {
			c.Fail("handler-error", "%s\nthe error of the handler is not reported: %v", clean(what), err)
		}
	}
	c.Obs(fmt.Sprint(docs, decisions, s.overwrite, s.print, mode), len(wantFiles) > 0)
}

func init() {
	register(&Property{
		ID: "P27", Rule: "handlers see and decide each document once",
		Assumptions: []string{"the handler does not modify the files itself"},
		Suites: []Suite{
			{Name: "handlers", Quick: 4000, Thorough: 80000, Run: handlerSuite, Need: []string{"documents", "handler calls mode 1", "handler calls mode 2"}},
		},
	})
}

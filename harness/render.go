package main

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/template"
)

// newTemplate builds a template engine on a native context.
func newTemplate(ctx map[string]interface{}, delims string, opts template.OptionsSet, subs ...string) *template.Template {
	if opts == nil {
		opts = template.DefaultOptions()
	}
	if ctx == nil {
		ctx = map[string]interface{}{}
	}
	return must1(template.NewTemplate("", collections.AsDictionary(ctx), delims, opts, subs...))
}

func strictOptions(extra ...template.Options) template.OptionsSet {
	o := template.DefaultOptions()
	o[template.StrictErrorCheck] = true
	for _, e := range extra {
		o[e] = true
	}
	return o
}

// render renders content in a new strict engine; a panic is reported as an error of its own kind.
func render(t *template.Template, content string) (result string, err error) {
	defer func() {
		if rec := recover(); rec != nil {
			err = fmt.Errorf("PANIC %v", rec)
		}
	}()
	return t.ProcessContent(content, "monitored")
}

// evaluate renders an expression written in the Go template language and gives its value.
func evaluate(t *template.Template, expression string) (result interface{}, err error) {
	called := false
	t.AddFunctions(map[string]interface{}{"captureValue": func(v interface{}) string { result, called = v, true; return "" }}, "verif", template.FuncOptions{})
	if _, err = render(t, "{{ captureValue ("+expression+") }}"); err == nil && !called {
		err = fmt.Errorf("not evaluated")
	}
	return
}

package main

import (
	"strings"
)

func countFeatures(c *Ctx, g *rgen) {
	for f := range g.feat {
		c.Event(f)
	}
}

// compareSpellings renders the two spellings and compares both with the reference.
func compareSpellings(c *Ctx, g *rgen, b both) {
	want, err := refRender(b.gt, g.ctx)
	if err != nil {
		c.Event("discarded (the reference reports an error)")
		c.Obs(b.rz, false)
		return
	}
	if strings.Contains(want, "<no value>") || strings.Contains(want, "<nil>") || strings.Contains(want, "NaN") || strings.Contains(want, "Inf") {
		c.Event("discarded (undefined value)")
		return
	}
	t := newTemplate(deepCopy(g.ctx).(map[string]interface{}), "", strictOptions())
	got, err := render(t, b.rz)
	if err != nil || got != want {
		c.Fail("razor", "razor template\n%s\ncontext %s\nrenders %q (%v)\nwant    %q\ngo template\n%s", b.rz, js(g.ctx), got, err, want, b.gt)
	}
	t = newTemplate(deepCopy(g.ctx).(map[string]interface{}), "", strictOptions())
	got, err = render(t, strings.ReplaceAll(b.gt, "@", "@@")) // the marks in strings would be converted
	if err != nil || got != want {
		c.Fail("gotemplate", "go template\n%s\ncontext %s\nrenders %q (%v)\nwant    %q", b.gt, js(g.ctx), got, err, want)
	}
	if c.Index%4 == 0 { // the same document with other delimiters
		tr := strings.NewReplacer("{{", "⟦", "}}", "⟧", "@", "§")
		t = newTemplate(deepCopy(g.ctx).(map[string]interface{}), "⟦,⟧,§", strictOptions())
		got, err = render(t, tr.Replace(b.rz))
		want = strings.ReplaceAll(must1(refRender(strings.ReplaceAll(b.gt, "@", "§"), g.ctx)), "{{", "⟦")
		if err != nil || got != want {
			c.Fail("razor-delimiters", "razor template\n%s\ncontext %s\nrenders %q (%v)\nwant    %q", tr.Replace(b.rz), js(g.ctx), got, err, want)
		}
		c.Event("custom delimiters")
	}
	countFeatures(c, g)
	c.Obs(b.rz, true)
}

// expressionSuite: lines that hold one expression each.
func expressionSuite(c *Ctx) {
	g := newRgen(c.Rng)
	var b both
	for i := 0; i < 4; i++ {
		kind := pick(c.Rng, "int", "int", "int", "num", "bool", "bool", "str", "ilist")
		e := g.gen(kind, 2+c.Rng.Intn(3))
		b.rz += "[ @(" + e.rz + ");\n"
		b.gt += "[ {{ " + e.gt + " }}\n"
	}
	compareSpellings(c, g, b)
}

func programSuite(c *Ctx) {
	g := newRgen(c.Rng)
	b := g.lines(2+c.Rng.Intn(6), 3)
	compareSpellings(c, g, b)
}

func init() {
	register(&Property{
		ID:   "P02",
		Rule: "one evaluation is one template of four razor expressions; distinct by text, expressions that the reference rejects do not count",
		Suites: []Suite{
			{Name: "expressions", Quick: 12000, Thorough: 400000, Run: expressionSuite},
		},
	})
	register(&Property{
		ID:   "P03",
		Rule: "one evaluation is one generated program rendered in razor, in Go template and by text/template; distinct by text, programs that the reference rejects do not count",
		Suites: []Suite{
			{Name: "programs", Quick: 10000, Thorough: 400000, Run: programSuite},
		},
	})
}

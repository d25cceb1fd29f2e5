package main

import (
	"bytes"
	gojson "encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
)

// ---- P22: concurrent use of independent engines ---------------------------------------------

// together starts n functions at once, under a random number of processors and random delays,
// and reports those that do not end.
func together(r *rand.Rand, n int, f func(i int, delay func())) bool {
	procs := pick(r, 1, 2, 4, 8)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	start, done := make(chan bool), make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		own := rand.New(rand.NewSource(r.Int63()))
		go func(i int) {
			defer wg.Done()
			<-start
			f(i, func() {
				switch own.Intn(4) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(own.Intn(200)) * time.Microsecond)
				}
			})
		}(i)
	}
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
		return true
	case <-time.After(2 * time.Minute):
		return false
	}
}

type engineSpec struct {
	g      *rgen
	ctx    map[string]interface{}
	o      template.OptionsSet
	delims string
	subs   []string
	docs   []document
}

// firstDifference shows where b parts from a.
func firstDifference(a, b outcome) string {
	x, y, name := a.text, b.text, "text"
	if x == y {
		x, y, name = a.err, b.err, "error"
	}
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	at := max(0, i-40)
	return fmt.Sprintf("%s at %d: %q and %q", name, i, clip(x[min(at, len(x)):], 200), clip(y[min(at, len(y)):], 200))
}

func (e *engineSpec) make() *template.Template {
	return newTemplate(freshContext(e.ctx), e.delims, copyOptions(e.o), e.subs...)
}

// registryLine uses the table of functions of the engine.
func registryLine(r *rand.Rand) string {
	f := pick(r, "add", "sum", "include", "base64", "b64enc", "upper", "html", "call", "printf", "toYaml", "yaml", "lorem", "color", "trunc", "set", "range", "bitwise_or", "center", "nindent")
	return pick(r, "{{ with function `"+f+"` }}{{ .Name }} {{ .RealName }} {{ .Group }} {{ .Aliases }} {{ .Arguments }} {{ .Result }} {{ .IsAlias }}{{ end }}",
		"{{ range categories }}{{ .Name }}={{ .Functions }};{{ end }}", "{{ len functions }} {{ len aliases }} {{ len allFunctions }}",
		"{{ range allFunctions }}{{ (function .).Signature }}{{ end }}", "{{ completeExamples }}{{ range functions }}{{ range (function .).Examples }}{{ .Result }}{{ end }}{{ end }}",
		"{{ range functions }}{{ (function .).Description }}{{ end }}", "{{ range aliases }}{{ (function .).Name }}:{{ (function .).RealName }} {{ end }}",
		"{{ func `own` `include` `{{ add .a .b }}` (dict `args` (list `a` `b`)) }}{{ own 1 2 }}", "{{ alias `mine` `include` `{{ join \",\" .ARGS }}` 1 2 }}{{ mine 3 }}{{ (function `mine`).Name }}",
		"{{ localAlias `up` `upper` }}{{ up `x` }}", "{{ getMethods .mapA | len }} {{ getSignature .listA | len }}", "{{ run `echo hello` }}", "{{ substitute `hello` }}", "{{ ellipsis `add` .nums }}", "{{ color `red` `x` }}", "{{ data `{a = 1}` }}{{ toYaml . }}{{ hcl `a = [1,2]` }}{{ xml `<a>1</a>` }}", "{{ assertWarning true `x` }}", "{{ formatList `%v-` .listA }}", "{{ now | date `2006` | len }}", "{{ env `HOME` }}", "{{ ternary 1 2 true }}", "{{ regexFind `a+` `baaa` }}")
}

func newEngineSpec(r *rand.Rand) *engineSpec {
	e := &engineSpec{o: engineOptions(r)}
	e.g, e.ctx = newEngineCase(r)
	if r.Intn(2) == 0 {
		e.delims = pick(r, "[[,]],§", "<<,>>", ",,§", "⟦,⟧,§", fmt.Sprintf("[[,]],%c", 0x4e00+r.Intn(2000)))
	}
	if r.Intn(3) == 0 {
		e.subs = []string{"/hello/bye", "/X+/y"}
	}
	if r.Intn(3) == 0 {
		e.o[pick(r, template.Razor, template.Math, template.Sprig, template.Logging, template.Runtime, template.Utils)] = false
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		d := genDocument(r, e.g, pick(r, 0, 1, 2), pick(r, 0, 0, 1))
		for r.Intn(2) == 0 {
			d.text += registryLine(r) + "\n"
		}
		if e.delims != "" && r.Intn(4) > 0 {
			p := append(strings.Split(e.delims, ","), "")
			d.text = strings.NewReplacer("{{", iifs(p[0] != "", p[0], "{{"), "}}", iifs(p[1] != "", p[1], "}}"), "@", iifs(p[2] != "", p[2], "@")).Replace(d.text)
		}
		e.docs = append(e.docs, d)
	}
	return e
}

func (e *engineSpec) run(delay func()) (result []outcome) {
	t := e.make()
	for _, d := range e.docs {
		delay()
		result = append(result, process(t, d))
	}
	return
}

// concurrentEngines: engines working at the same time give what each gives alone.
func concurrentEngines(c *Ctx) {
	r := c.Rng
	n := 2 + r.Intn(7)
	list := make([]*engineSpec, n)
	results, alone := make([][]outcome, n), make([][]outcome, n)
	for i := range list {
		list[i] = newEngineSpec(r)
		if i > 0 && r.Intn(4) == 0 { // same document at the same time
			list[i].docs = list[i-1].docs
			list[i].ctx, list[i].g = list[i-1].ctx, list[i-1].g
		}
	}
	// the first use of a process is concurrent
	if !together(r, n, func(i int, delay func()) { results[i] = list[i].run(delay) }) {
		c.Fail("blocked", "%d engines working together do not end", n)
		return
	}
	for i, e := range list {
		alone[i] = e.run(func() {})
		for j := range alone[i] {
			c.Event("documents")
			if alone[i][j] != results[i][j] {
				c.Fail("engines", "%s\ndocument %q\ngives alone    %s\nand with others %s\ndelimiters %q", firstDifference(alone[i][j], results[i][j]), e.docs[j].text, alone[i][j], results[i][j], e.delims)
			}
			c.Obs(e.docs[j].text, true)
		}
	}
	c.Event("engines", n)
}

func coldSpecs(seed int64) []*engineSpec {
	r := rand.New(rand.NewSource(seed))
	list := make([]*engineSpec, 2+r.Intn(7))
	for i := range list {
		list[i] = newEngineSpec(r)
	}
	return list
}

// coldEngines is the body of a process where engines are made and used for the first time by several goroutines.
func coldEngines(seed int64) {
	list := coldSpecs(seed)
	results := make([][][2]string, len(list))
	if !together(rand.New(rand.NewSource(seed)), len(list), func(i int, delay func()) {
		for _, o := range list[i].run(delay) {
			results[i] = append(results[i], [2]string{o.text, o.err})
		}
	}) {
		fmt.Println("blocked")
		os.Exit(3)
	}
	os.Stdout.Write(must1(gojson.Marshal(results)))
}

// coldStart: a new process whose first engines are concurrent.
func coldStart(c *Ctx) {
	seed := c.Rng.Int63()
	list := coldSpecs(seed)
	cmd := exec.Command(must1(os.Executable()), "cold", "P22", fmt.Sprint(seed))
	cmd.Stderr = new(bytes.Buffer)
	out, err := cmd.Output()
	if err != nil {
		c.Fail("process", "a process that starts with %d concurrent engines ends with %v: %s", len(list), err, clip(cmd.Stderr.(*bytes.Buffer).String(), 3000))
		return
	}
	var results [][][2]string
	must0(gojson.Unmarshal(out, &results))
	for i, e := range list {
		for j, a := range e.run(func() {}) {
			c.Event("documents")
			got := outcome{strings.ToValidUTF8(results[i][j][0], "?"), strings.ToValidUTF8(results[i][j][1], "?")}
			a = outcome{strings.ToValidUTF8(a.text, "?"), strings.ToValidUTF8(a.err, "?")}
			if a != got {
				c.Fail("cold", "%s\ndocument %q\ngives alone     %s\nand with others %s\ndelimiters %q", firstDifference(a, got), e.docs[j].text, a, got, e.delims)
			}
			c.Obs(e.docs[j].text, true)
		}
	}
	c.Event("processes")
}

// concurrentCollections: conversions and operations on collections owned by
// each goroutine.
func concurrentCollections(c *Ctx) {
	r := c.Rng
	n := 2 + r.Intn(7)
	values := make([]interface{}, n)
	seeds := make([]int64, n)
	work := make([][]string, n)
	alone := make([][]string, n)
	for i := range values {
		values[i] = genMap(r, 2, engineOpts)
		seeds[i] = r.Int63()
	}
	run := func(i int, delay func()) (log []string) {
		own := rand.New(rand.NewSource(seeds[i]))
		add := func(name string, v interface{}, err error) {
			log = append(log, fmt.Sprintf("%s: %s %v", name, js(v), err))
			delay()
		}
		for k := 3 + own.Intn(6); k > 0; k-- {
			name, text, err, out := "", "", error(nil), interface{}(nil)
			_, failure := Try(func() {
				v := deepCopy(values[i])
				switch own.Intn(8) {
				case 0:
					name, text = "yaml", js(v)
					err = yaml.Unmarshal([]byte(text), &out)
				case 1:
					name, text = "json", js(v)
					err = json.Unmarshal([]byte(text), &out)
				case 2:
					name = "hcl"
					b, e := hcl.MarshalIndent(v, "", " ")
					must0(e)
					err = hcl.Unmarshal(b, &out)
				case 3:
					name = "xml"
					b, e := xml.Marshal(v)
					out, err = string(b), e
				case 4:
					name = "convert"
					err = collections.ConvertData(js(v), &out)
				case 5:
					name = "dictionary"
					d := collections.AsDictionary(v)
					d.Set("added", d.Len())
					out = d.Merge(collections.CreateDictionary().Set("other", d.KeysAsString())).Native()
				case 6:
					name = "list"
					out = collections.AsList(collections.AsDictionary(v).GetKeys()).Reverse().Append(3).Unique().AsArray()
				case 7:
					name = "bash"
					out = collections.ToBash(v)
				}
			})
			if failure != "" {
				err = fmt.Errorf("%v", failure)
			}
			add(name, out, err)
		}
		return
	}
	if !together(r, n, func(i int, delay func()) { work[i] = run(i, delay) }) {
		c.Fail("blocked", "%d goroutines do not end", n)
		return
	}
	for i := range work {
		alone[i] = run(i, func() {})
		for j := range alone[i] {
			c.Event("operations")
			if alone[i][j] != work[i][j] {
				c.Fail("collections", "operation on %s\ngives alone     %s\nand with others %s", js(values[i]), alone[i][j], work[i][j])
			}
		}
		c.Obs(js(values[i]), true)
	}
}

// concurrentStart: engines made while others work, and Razor conversions with ever new delimiters.
func concurrentStart(c *Ctx) {
	r := c.Rng
	n := 3 + r.Intn(6)
	specs := make([]*engineSpec, n)
	for i := range specs {
		specs[i] = newEngineSpec(r)
		specs[i].delims = fmt.Sprintf("[[,]],%c", 0x5000+r.Intn(20000))
		specs[i].o[template.Razor] = true
		specs[i].docs = nil
		p := strings.Split(specs[i].delims, ",")
		text := strings.NewReplacer("{{", "[[", "}}", "]]", "@", p[2]).Replace(genDocument(r, specs[i].g, 0, 0).text)
		specs[i].docs = []document{{"doc", text}}
	}
	results := make([][]outcome, n)
	if !together(r, n, func(i int, delay func()) {
		delay()
		results[i] = specs[i].run(delay)
	}) {
		c.Fail("blocked", "%d engines do not end", n)
		return
	}
	for i, e := range specs {
		a := e.run(func() {})
		c.Event("documents")
		if a[0] != results[i][0] {
			c.Fail("start", "%s\ndocument %q\ngives alone     %s\nand with others %s\ndelimiters %q", firstDifference(a[0], results[i][0]), e.docs[0].text, a[0], results[i][0], e.delims)
		}
		c.Obs(e.docs[0].text, true)
	}
}

func init() {
	register(&Property{
		ID:   "P22",
		Race: true,
		Rule: "2 to 8 engines, each with its own context, options, delimiters and substitutes, work at the same time (start barrier, random delays, 1 to 8 processors, a -race build): each document gives what it gives alone, nothing blocks, and the race detector sees no unordered access to the state they share; the same for conversions and operations on collections owned by one goroutine",
		Assumptions: []string{
			"an engine, and a collection, is used by one goroutine at a time",
			"process-wide configuration (default collection helpers, log levels, current folder) is not changed while engines work",
		},
		Suites: []Suite{
			{Name: "engines", Quick: 120, Thorough: 3000, Run: concurrentEngines},
			{Name: "start", Quick: 80, Thorough: 2000, Run: concurrentStart},
			{Name: "cold", Quick: 60, Thorough: 1000, Run: coldStart},
			{Name: "collections", Quick: 200, Thorough: 5000, Run: concurrentCollections},
		},
	})
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	stdtemplate "text/template"
)

// ---- reference engine -------------------------------------------------------------------
//
// The reference is Go's own text/template with a small function map written here. It only
// ever sees the Go template spelling of a program.

type rlist []interface{}
type rdict map[string]interface{}

func (l rlist) String() string { return string(must1(json.Marshal([]interface{}(l)))) }
func (d rdict) String() string { return string(must1(json.Marshal(map[string]interface{}(d)))) }

func toRef(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		l := rlist{}
		for _, x := range v {
			l = append(l, toRef(x))
		}
		return l
	case map[string]interface{}:
		d := rdict{}
		for k, x := range v {
			d[k] = toRef(x)
		}
		return d
	}
	return v
}

func refArg(v interface{}) interface{} {
	switch v := v.(type) {
	case int64:
		return int(v)
	case rlist:
		l := make([]interface{}, len(v))
		for i := range v {
			l[i] = refArg(v[i])
		}
		return l
	}
	return v
}

func refArgs(args []interface{}) []interface{} {
	res := make([]interface{}, len(args))
	for i := range args {
		res[i] = refArg(args[i])
	}
	return res
}

// refPick: one element of a list (negative positions count from the end) or of a map
func refPick(v, key interface{}) (interface{}, error) {
	switch v := v.(type) {
	case rlist:
		i, ok := refInt(refArg(key))
		if ok && i < 0 {
			i += int64(len(v))
		}
		if !ok || i < 0 || i >= int64(len(v)) {
			return nil, errRef
		}
		return v[i], nil
	case rdict:
		return v[fmt.Sprint(key)], nil
	}
	return nil, errRef
}

// refRange: the elements between two positions; -1 is the end, reversed limits reverse the result
func refRange(v interface{}, from, to interface{}) (interface{}, error) {
	switch v := v.(type) {
	case rlist:
		a, ok1 := refInt(refArg(from))
		b, ok2 := refInt(refArg(to))
		if !ok1 || !ok2 {
			return nil, errRef
		}
		n := int64(len(v))
		if a < 0 {
			a += n + 1
		}
		if b < 0 {
			b += n + 1
		}
		rev := b < a
		if rev {
			a, b = b, a
		}
		clampTo := func(x int64) int64 {
			if x < 0 {
				return 0
			}
			if x > n {
				return n
			}
			return x
		}
		res := append(rlist{}, v[clampTo(a):clampTo(b)]...)
		if rev {
			for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
				res[i], res[j] = res[j], res[i]
			}
		}
		return res, nil
	case rdict:
		a, b := fmt.Sprint(from), fmt.Sprint(to)
		rev := a > b
		if rev {
			a, b = b, a
		}
		keys := sortedKeys(v)
		if rev {
			sort.Sort(sort.Reverse(sort.StringSlice(keys)))
		}
		res := rlist{}
		for _, k := range keys {
			if k >= a && k <= b {
				res = append(res, v[k])
			}
		}
		return res, nil
	}
	return nil, errRef
}

var refFuncs = func() stdtemplate.FuncMap {
	m := stdtemplate.FuncMap{
		"list": func(a ...interface{}) rlist { return append(rlist{}, a...) },
		"dict": func(a ...interface{}) rdict {
			d := rdict{}
			for i := 0; i+1 < len(a); i += 2 {
				d[fmt.Sprint(a[i])] = a[i+1]
			}
			return d
		},
		"formatList": func(f string, v interface{}) rlist {
			l, ok := v.(rlist)
			if !ok {
				l = rlist{v}
			}
			out := rlist{}
			for _, x := range l {
				out = append(out, fmt.Sprintf(f, x))
			}
			return out
		},
		"spaceIndent": func(margin string, v interface{}) string {
			l, ok := v.(rlist)
			if !ok {
				l = rlist{v}
			}
			out := []string{}
			for _, x := range l {
				out = append(out, fmt.Sprint(x))
			}
			return margin + strings.ReplaceAll(strings.Join(out, "\n"), "\n", "\n"+margin)
		},
		"set": func(d rdict, k string, v interface{}) string { d[k] = v; return "" },
		"get": func(d rdict, k string) interface{} { return d[k] },
		"slice": func(v interface{}, a ...interface{}) (interface{}, error) {
			switch len(a) {
			case 0:
				return v, nil
			case 1:
				return refPick(v, a[0])
			case 2:
				return refRange(v, a[0], a[1])
			}
			return nil, errRef
		},
		"extract": func(v interface{}, a ...interface{}) (interface{}, error) {
			if len(a) == 1 {
				return refPick(v, a[0])
			}
			res := rlist{}
			for _, k := range a {
				x, err := refPick(v, k)
				if err != nil {
					return nil, err
				}
				res = append(res, x)
			}
			return res, nil
		},
		"upper": strings.ToUpper, "lower": strings.ToLower,
		"join": func(sep string, l rlist) string {
			s := []string{}
			for _, x := range l {
				s = append(s, fmt.Sprint(x))
			}
			return strings.Join(s, sep)
		},
		"iif": func(c bool, a, b interface{}) interface{} {
			if c {
				return a
			}
			return b
		},
		"power": func(a ...interface{}) (interface{}, error) { return mathTable["pow"].ref(refArgs(a)) },
		"to": func(n interface{}) rlist {
			i, _ := refInt(refArg(n))
			res := rlist{}
			if i >= 1 {
				for k := int64(1); k <= i; k++ {
					res = append(res, k)
				}
			} else {
				for k := int64(1); k >= i; k-- {
					res = append(res, k)
				}
			}
			return res
		},
	}
	for _, n := range []string{"add", "mul", "sub", "div", "mod", "min", "max", "band", "bor", "bxor", "bclear", "lshift", "rshift"} {
		ref := mathTable[n].ref
		m[n] = func(a ...interface{}) (interface{}, error) {
			v, err := ref(refArgs(a))
			if f, ok := v.(float64); ok && f != f {
				return nil, errRef // what follows from NaN (maximum, bits, comparisons) is not specified
			}
			return v, err
		}
	}
	return m
}()

// refRender renders a Go template with the standard library.
func refRender(src string, ctx map[string]interface{}) (string, error) {
	t, err := stdtemplate.New("ref").Funcs(refFuncs).Parse(src)
	if err != nil {
		return "", err
	}
	data := toRef(deepCopy(ctx)).(rdict)
	data["NEWLINE"] = "\n"
	var sb strings.Builder
	if err = t.Execute(&sb, data); err != nil {
		return "", err
	}
	return sb.String(), nil
}

// ---- expressions ------------------------------------------------------------------------

// ex is an expression with its two spellings. prec is the precedence of its outermost razor
// operator (the one of Go: 1 || .. 5 *, 6 unary, 7 operand).
type ex struct {
	rz   string
	prec int
	gt   string // a Go template operand or a call (parenthesised by arg)
	call bool   // gt is a call
	risk bool   // holds a character that requires to be alone on its line
}

func (e ex) arg() string {
	if e.call {
		return "(" + e.gt + ")"
	}
	return e.gt
}

type rvar struct {
	name  string
	kind  string
	local bool
}

type rgen struct {
	r     *rand.Rand
	vars  []rvar
	ctx   map[string]interface{}
	nest  int
	fresh int
	feat  map[string]bool
	inDot bool
}

func (g *rgen) use(f string) { g.feat[f] = true }

var binOps = []struct {
	fn    string
	prec  int
	forms []string
}{
	{"add", 4, []string{"+", "+", " add "}},
	{"sub", 4, []string{"-", "-", " sub "}},
	{"bor", 4, []string{"|", " bor "}},
	{"bxor", 4, []string{"^", " bxor "}},
	{"mul", 5, []string{"*", "*", " mul "}},
	{"div", 5, []string{"/", "÷", " div "}},
	{"mod", 5, []string{"%", " mod "}},
	{"lshift", 5, []string{"<<", "«", " lshift "}},
	{"rshift", 5, []string{">>", "»", " rshift "}},
	{"band", 5, []string{"&", " band "}},
	{"bclear", 5, []string{"&^", " bclear "}},
	{"eq", 3, []string{"==", " eq "}},
	{"ne", 3, []string{"!=", "<>", "≠", " ne "}},
	{"lt", 3, []string{"<", " lt "}},
	{"le", 3, []string{"<=", "≦", " le "}},
	{"gt", 3, []string{">", " gt "}},
	{"ge", 3, []string{">=", "≧", " ge "}},
	{"and", 2, []string{"&&", " and "}},
	{"or", 1, []string{"||", " or "}},
}

func opIndex(fn string) int {
	for i := range binOps {
		if binOps[i].fn == fn {
			return i
		}
	}
	panic(fn)
}

func (g *rgen) sp() string {
	return pick(g.r, "", " ", " ", " ", "  ")
}

// wrap adds the parentheses required to use e as an operand of precedence min, or redundant ones.
func (g *rgen) wrap(e ex, min int) string {
	if e.prec < min || g.r.Intn(8) == 0 {
		return "(" + strings.Repeat(" ", g.r.Intn(2)) + e.rz + strings.Repeat(" ", g.r.Intn(2)) + ")"
	}
	return e.rz
}

func (g *rgen) binary(fn string, a, b ex) ex {
	op := binOps[opIndex(fn)]
	form := pick(g.r, op.forms...)
	x, y := g.wrap(a, op.prec), g.wrap(b, op.prec+1)
	if strings.HasPrefix(y, "-") && g.r.Intn(2) == 0 {
		y = "(" + y + ")"
	}
	if !strings.HasPrefix(form, " ") {
		s := pick(g.r, "", " ", " ", " ", "  ")
		if strings.HasPrefix(y, "-") || strings.HasPrefix(y, "!") || strings.HasPrefix(y, "*") {
			s = " "
		}
		form = s + form + s
	}
	g.use("op " + strings.TrimSpace(form))
	return ex{rz: x + form + y, prec: op.prec, gt: fn + " " + a.arg() + " " + b.arg(), call: true, risk: a.risk || b.risk}
}

func (g *rgen) variable(kind string) (ex, bool) {
	var c []rvar
	for _, v := range g.vars {
		if v.kind == kind {
			c = append(c, v)
		}
	}
	if len(c) == 0 {
		return ex{}, false
	}
	v := c[g.r.Intn(len(c))]
	switch {
	case v.local:
		return ex{rz: "$" + v.name, prec: 7, gt: "$" + v.name}, true
	case !g.inDot && g.r.Intn(3) == 0:
		return ex{rz: "." + v.name, prec: 7, gt: "." + v.name}, true
	case g.r.Intn(3) == 0:
		return ex{rz: "$." + v.name, prec: 7, gt: "$." + v.name}, true
	}
	return ex{rz: v.name, prec: 7, gt: "$." + v.name}, true
}

func (g *rgen) intLit(max int) ex {
	n := g.r.Intn(max + 1)
	s := strconv.Itoa(n)
	return ex{rz: s, prec: 7, gt: s}
}

func call(fn string, args ...ex) ex {
	rz, gt := []string{}, fn
	risk := false
	for _, a := range args {
		rz = append(rz, a.rz)
		gt += " " + a.arg()
		risk = risk || a.risk
	}
	return ex{rz: fn + "(" + strings.Join(rz, ", ") + ")", prec: 7, gt: gt, call: true, risk: risk}
}

func (g *rgen) strLit(plain bool) ex {
	alpha := "abcXYZ 019.,:_-+*/%=<>!?()[]#&|^~$é"
	risk := false
	if !plain && g.r.Intn(4) == 0 {
		alpha += ";'{}"
		risk = true
	}
	s := randString(g.r, alpha, 0, 8)
	s = strings.ReplaceAll(s, "${", "$ {")
	s = strings.ReplaceAll(s, "{{", "{ {")
	s = strings.ReplaceAll(s, "}}", "} }")
	if strings.HasPrefix(s, "<<") { // inline content mark
		s = " " + s
	}
	if risk && g.r.Intn(2) == 0 {
		g.use("razor mark in string")
		s += "@" + pick(g.r, "alpha", "x", "count", "and") + pick(g.r, "", " ", ";", ";z", " b", "@y;")
	}
	q := strconv.Quote(s)
	if g.r.Intn(10) == 0 {
		q = `"` + s + pick(g.r, `\"`, `\\`, `\t`, `\u00e9`) + `"`
		g.use("escape in string")
	}
	return ex{rz: q, prec: 7, gt: q, risk: risk}
}

// gen produces an expression of a kind: int, num, str, bool, ilist, slist, dict
func (g *rgen) gen(kind string, depth int) ex {
	r := g.r
	if r.Intn(3) == 0 || depth <= 0 {
		if e, ok := g.variable(kind); ok && r.Intn(3) > 0 {
			return e
		}
	}
	if depth <= 0 {
		switch kind {
		case "int":
			if r.Intn(6) == 0 {
				n := strconv.Itoa(-1 - r.Intn(20))
				return ex{rz: n, prec: 6, gt: n}
			}
			return g.intLit(pick(r, 3, 10, 100))
		case "num":
			s := strconv.FormatFloat(float64(r.Intn(400)*2+1)/8, 'f', -1, 64)
			return ex{rz: s, prec: 7, gt: s}
		case "str":
			return g.strLit(false)
		case "bool":
			if e, ok := g.variable(kind); ok {
				return e
			}
			return g.binary("lt", g.gen("int", 0), g.gen("int", 0))
		case "ilist":
			n := 1 + r.Intn(4)
			args := []ex{}
			for i := 0; i < n; i++ {
				args = append(args, g.intLit(20))
			}
			return call("list", args...)
		case "slist":
			args := []ex{}
			for i := 1 + r.Intn(3); i > 0; i-- {
				args = append(args, g.strLit(true))
			}
			return call("list", args...)
		}
		return call("dict", ex{rz: `"a"`, prec: 7, gt: `"a"`}, g.intLit(9), ex{rz: `"b"`, prec: 7, gt: `"b"`}, g.strLit(true))
	}
	d := depth - 1
	switch kind {
	case "int":
		switch k := r.Intn(16); {
		case k < 8:
			fn := pick(r, "add", "sub", "mul", "mod", "band", "bor", "bxor", "bclear")
			if fn == "mod" {
				return g.binary(fn, g.gen("int", d), g.intLitNZ())
			}
			return g.binary(fn, g.gen("int", d), g.gen("int", d))
		case k == 8:
			return g.binary(pick(r, "lshift", "rshift"), g.gen("int", d), g.intLit(6))
		case k == 9:
			return call(pick(r, "add", "max", "min", "mul", "sub"), g.gen("int", d), g.gen("int", d))
		case k == 10:
			g.use("len")
			return call("len", g.gen(pick(r, "ilist", "slist"), d))
		case k == 11: // negation
			e := g.gen("int", d)
			if !e.call && e.prec == 6 { // a negative number
				g.use("negation of a negative number")
				return ex{rz: "-(" + e.rz + ")", prec: 6, gt: "sub 0 " + e.gt, call: true}
			}
			if e.call {
				g.use("unary minus")
				return ex{rz: "-(" + e.rz + ")", prec: 6, gt: "sub 0 " + e.arg(), call: true, risk: e.risk}
			}
			return e
		case k == 12: // element of a list
			e := g.gen("ilist", d)
			i := pick(r, "0", "0", "-1")
			if n := g.listLen(e); n > 0 {
				i = strconv.Itoa(r.Intn(2*n) - n)
			}
			g.use("index in expression")
			return ex{rz: g.wrap(e, 7) + "[" + i + "]", prec: 7, gt: "slice " + e.arg() + " " + i, call: true, risk: e.risk}
		case k == 13:
			e := g.intLit(5)
			f := g.intLit(4)
			g.use("power")
			return ex{rz: "(" + e.rz + " ** " + f.rz + ")", prec: 7, gt: "power " + e.gt + " " + f.gt, call: true}
		case k == 14:
			g.use("field in expression")
			if r.Intn(2) == 0 {
				if e, ok := g.variable("dlist"); ok {
					g.use("field of an element in expression")
					i := strconv.Itoa(r.Intn(2*g.listLen(e)) - g.listLen(e))
					res := ex{rz: e.rz + "[" + i + "].x", prec: 7, gt: "(slice " + e.gt + " " + i + ").x"}
					if r.Intn(3) == 0 {
						j := pick(r, "0", "1", "2", "-1")
						return ex{rz: e.rz + "[" + i + "].y[" + j + "]", prec: 7, gt: "slice (slice " + e.gt + " " + i + ").y " + j, call: true}
					}
					return res
				}
			}
			for _, v := range g.vars {
				if v.kind == "dict" && !v.local {
					return ex{rz: v.name + ".c.x", prec: 7, gt: "$." + v.name + ".c.x"}
				}
			}
		}
		return g.gen("int", 0)
	case "num":
		switch r.Intn(4) {
		case 0:
			return g.binary("div", g.gen("int", d), g.intLitNZ())
		case 1:
			return g.binary(pick(r, "add", "sub", "mul"), g.gen("num", d), g.gen(pick(r, "int", "num"), d))
		case 2:
			return g.binary(pick(r, "add", "sub", "mul"), g.gen("int", d), g.gen("num", d))
		}
		return g.gen("num", 0)
	case "str":
		switch r.Intn(6) {
		case 0:
			return call(pick(r, "upper", "lower"), g.gen("str", d))
		case 1:
			return call("join", g.strLit(true), g.gen("slist", d))
		case 2:
			return call("printf", ex{rz: `"%s/%v"`, prec: 7, gt: `"%s/%v"`}, g.gen("str", d), g.gen("bool", d))
		case 3:
			return call("printf", ex{rz: `"%v-%v"`, prec: 7, gt: `"%v-%v"`}, g.gen("int", d), g.gen("str", d))
		case 4:
			g.use("iif")
			return call("iif", g.gen("bool", d), g.gen("str", d), g.gen("str", d))
		}
		return g.gen("str", 0)
	case "bool":
		switch r.Intn(6) {
		case 0, 1:
			k := pick(r, "int", "int", "str")
			return g.binary(pick(r, "eq", "ne", "lt", "le", "gt", "ge"), g.gen(k, d), g.gen(k, d))
		case 2, 3:
			return g.binary(pick(r, "and", "or"), g.gen("bool", d), g.gen("bool", d))
		case 4:
			e := g.gen("bool", d)
			g.use("not")
			return ex{rz: "!" + g.wrap(e, 7), prec: 6, gt: "not " + e.arg(), call: true, risk: e.risk}
		}
		return g.gen("bool", 0)
	case "ilist":
		switch r.Intn(4) {
		case 0:
			n := 1 + r.Intn(3)
			args := []ex{}
			for i := 0; i < n; i++ {
				args = append(args, g.gen("int", d))
			}
			return call("list", args...)
		case 1:
			return call("to", g.intLitNZ())
		case 2:
			e := g.gen("ilist", d)
			a, b, form := g.limits(e)
			g.use("slice in expression")
			return ex{rz: g.wrap(e, 7) + form, prec: 7, gt: "slice " + e.arg() + " " + a + " " + b, call: true, risk: e.risk}
		}
		return g.gen("ilist", 0)
	case "slist":
		if r.Intn(2) == 0 {
			return call("list", g.gen("str", d), g.gen("str", d))
		}
		return g.gen("slist", 0)
	}
	if r.Intn(2) == 0 {
		return call("dict", ex{rz: `"a"`, prec: 7, gt: `"a"`}, g.gen("int", d), ex{rz: `"b"`, prec: 7, gt: `"b"`}, g.gen("str", d))
	}
	return g.gen("dict", 0)
}

// listLen gives the number of elements of a variable of the context, 0 if it is not known.
func (g *rgen) listLen(e ex) int {
	for _, v := range g.vars {
		if !v.local && (e.gt == "."+v.name || e.gt == "$."+v.name) {
			if l, ok := g.ctx[v.name].([]interface{}); ok {
				return len(l)
			}
		}
	}
	return 0
}

// limits gives the limits of a slice with one of their spellings.
func (g *rgen) limits(e ex) (a, b, form string) {
	r := g.r
	a, b = pick(r, "0", "1", "-1"), pick(r, "1", "2", "-1", "0")
	if r.Intn(2) == 0 {
		n := max(g.listLen(e), 3)
		a, b = strconv.Itoa(r.Intn(2*n)-n), strconv.Itoa(r.Intn(2*n)-n)
	}
	if r.Intn(3) == 0 {
		b = pick(r, "-1", "0")
	}
	form = "[" + a + ":" + b + "]"
	switch {
	case b == "-1" && !strings.HasPrefix(a, "-") && r.Intn(2) == 0:
		form = "[" + a + ":]"
		g.use("slice to the end")
	case b == "0" && strings.HasPrefix(a, "-") && r.Intn(2) == 0:
		form = "[" + a + ":]" // from a negative position, the elements are those before it, reversed
		g.use("slice from a negative position")
	case a == "0" && r.Intn(2) == 0:
		form = "[:" + b + "]"
	}
	return
}

func (g *rgen) intLitNZ() ex {
	s := strconv.Itoa(1 + g.r.Intn(12))
	return ex{rz: s, prec: 7, gt: s}
}

var trickyNames = []string{"x", "total", "mapping", "rangeVal", "funcs", "typed", "structure", "default1", "défaut", "n1", "Total", "endgame", "iffy", "elsewhere", "within", "forum", "blocks", "definition", "value_2", "A", "été", "m2m", "subtotal", "orange", "android", "nota", "equal"}

func newRgen(r *rand.Rand) *rgen {
	g := &rgen{r: r, ctx: map[string]interface{}{}, feat: map[string]bool{}}
	names := append([]string{}, trickyNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	next := func(kind string, v interface{}) {
		n := names[0]
		names = names[1:]
		g.ctx[n] = v
		g.vars = append(g.vars, rvar{name: n, kind: kind})
	}
	next("int", r.Intn(50))
	next("int", -r.Intn(50))
	next("num", float64(r.Intn(100)*2+1)/4)
	next("str", randString(r, "abc XYZ-é", 1, 8))
	next("bool", r.Intn(2) == 0)
	next("bool", r.Intn(2) == 0)
	l := []interface{}{}
	for i := 1 + r.Intn(pick(r, 5, 5, 16)); i > 0; i-- {
		l = append(l, r.Intn(30))
	}
	next("ilist", l)
	ds := []interface{}{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		ds = append(ds, map[string]interface{}{"x": r.Intn(40), "y": []interface{}{r.Intn(9), 2, 3}})
	}
	next("dlist", ds)
	next("slist", []interface{}{"un", "deux", "trois"}[:1+r.Intn(3)])
	next("dict", map[string]interface{}{"a": r.Intn(9), "b": "bee", "c": map[string]interface{}{"x": r.Intn(40), "y": []interface{}{1, 2}}})
	return g
}

func (g *rgen) name(kind string) string {
	for _, v := range g.vars {
		if v.kind == kind && !v.local {
			return v.name
		}
	}
	panic(kind)
}

func (g *rgen) word() string {
	return randString(g.r, "abcdefgh", 1, 6)
}

func (g *rgen) text() string {
	n := 1 + g.r.Intn(3)
	w := []string{}
	for i := 0; i < n; i++ {
		w = append(w, g.word()+pick(g.r, "", "", ",", ":", "!", "?", ".", "'s", " =", " -", " 50%"))
	}
	return strings.Join(w, " ")
}

// both is a fragment of program in its two spellings.
type both struct{ rz, gt string }

func (g *rgen) reduce() (mark, left, right string) {
	switch g.r.Intn(6) {
	case 0:
		g.use("left space eater")
		return "-", "{{- ", " }}"
	case 1:
		g.use("right space eater")
		return "_-", "{{ ", " -}}"
	case 2:
		g.use("both space eaters")
		return "--", "{{- ", " -}}"
	}
	return "", "{{ ", " }}"
}

// inline prints an expression within a line; alone says that nothing follows on the line.
func (g *rgen) inline(alone bool) both {
	r := g.r
	mark, left, right := g.reduce()
	end := ";"
	if alone && r.Intn(2) == 0 {
		end = ""
	}
	one := func(rz, gt string) both { return both{"@" + mark + rz + end, left + gt + right} }
	switch r.Intn(16) {
	case 0: // global variable
		g.use("@var")
		n := g.name(pick(r, "int", "str", "num", "bool", "ilist", "dict"))
		return one(n, "$."+n)
	case 1:
		g.use("@.var")
		if !g.inDot {
			n := g.name(pick(r, "int", "str"))
			return one("."+n, "."+n)
		}
	case 2:
		g.use("@(var)")
		n := g.name(pick(r, "int", "str"))
		return one("("+n+")", "$."+n)
	case 3: // local
		if e, ok := g.localVar(); ok {
			if r.Intn(2) == 0 {
				g.use("@{local}")
				return one("{"+e+"}", "$"+e)
			}
			g.use("@$local")
			return one("$"+e, "$"+e)
		}
	case 4:
		g.use("@var.field")
		n := g.name("dict")
		f := pick(r, "a", "b", "c.x", "c.y")
		return one(n+"."+f, "$."+n+"."+f)
	case 5:
		g.use("@var[index]")
		if e, ok := g.variable(pick(r, "ilist", "ilist", "dlist")); ok {
			i := pick(r, "0", "-1")
			if n := g.listLen(e); n > 0 {
				i = strconv.Itoa(r.Intn(2*n) - n)
			}
			return one(e.rz+"["+i+"]", "slice "+e.gt+" "+i)
		}
	case 6:
		g.use("@var[from:to]")
		if e, ok := g.variable("ilist"); ok {
			a, b, form := g.limits(e)
			return one(e.rz+form, "slice "+e.gt+" "+a+" "+b)
		}
	case 7:
		g.use("@var[keys]")
		n := g.name("dict")
		if r.Intn(2) == 0 {
			return one(n+`["a","b"]`, "extract $."+n+` "a" "b"`)
		}
		return one(n+`["a":"b"]`, "slice $."+n+` "a" "b"`)
	case 8:
		g.use("@func(args)[index]")
		e := g.gen("ilist", 1)
		if (strings.HasPrefix(e.rz, "list(") || strings.HasPrefix(e.rz, "to(")) && strings.HasSuffix(e.rz, ")") {
			return one(e.rz+"[0]", "slice "+e.arg()+" 0")
		}
	case 9:
		g.use("@func(args).field")
		e := g.gen("int", 1)
		if !e.risk {
			return one(`dict("k", `+e.rz+`).k`, `(dict "k" `+e.arg()+`).k`)
		}
	case 10, 11:
		e := call(pick(r, "add", "max", "min"), g.gen("int", 2), g.gen("int", 1))
		if !e.risk || alone {
			g.use("@func(args)")
			return one(e.rz, e.gt)
		}
	}
	e := g.gen(pick(r, "int", "int", "num", "str", "bool", "ilist", "slist", "dict"), 1+r.Intn(3))
	if e.risk && !alone {
		e = g.gen("int", 1)
		if e.risk {
			e = g.intLit(9)
		}
	}
	g.use("@(expr)")
	pad := g.sp()
	return one("("+pad+e.rz+pad+")", e.gt)
}

func (g *rgen) localVar() (string, bool) {
	var c []string
	for _, v := range g.vars {
		if v.local {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return pick(g.r, c...), true
}

func (g *rgen) newLocal() string {
	g.fresh++
	return fmt.Sprintf("%s%d", pick(g.r, "loc", "idx", "Item", "typ", "mapp", "v_"), g.fresh)
}

// lines produces a sequence of n lines (each ends with a newline).
func (g *rgen) lines(n, depth int) (out both) {
	mark := len(g.vars)
	for i := 0; i < n; i++ {
		b := g.line(depth)
		out.rz += b.rz
		out.gt += b.gt
	}
	// what was declared locally goes out of scope
	var kept []rvar
	for i, v := range g.vars {
		if i < mark || !v.local {
			kept = append(kept, v)
		}
	}
	g.vars = kept
	return
}

func (g *rgen) indent() string { return pick(g.r, "", "", "  ", "    ") }

func (g *rgen) line(depth int) both {
	r := g.r
	ind := g.indent()
	k := r.Intn(24)
	if depth <= 0 && k >= 12 && k <= 17 {
		k = 2
	}
	switch k {
	case 0:
		t := g.text()
		return both{ind + t + "\n", ind + t + "\n"}
	case 1, 2, 3:
		// text expression text expression
		var b both
		b.rz, b.gt = ind, ind
		for i := 1 + r.Intn(3); i > 0; i-- {
			t := g.text() + pick(r, " ", ": ", " (", ` "`, "> ")
			x := g.inline(false)
			b.rz += t + x.rz
			b.gt += t + x.gt
		}
		t := pick(r, "", ".", " "+g.word(), ")", `"`)
		return both{b.rz + t + "\n", b.gt + t + "\n"}
	case 4, 5:
		x := g.inline(true)
		return both{ind + x.rz + "\n", ind + x.gt + "\n"}
	case 6: // local assignment
		kind := pick(r, "int", "str", "bool", "num", "ilist")
		e := g.gen(kind, 2)
		n := g.newLocal()
		g.use("local assignment")
		form := pick(r, "@{"+n+"} := "+e.rz, "@$"+n+" := "+e.rz, "@{"+n+"} := "+e.rz+";", "@{"+n+"} := "+e.rz)
		if e.risk {
			form = "@{" + n + "} := " + e.rz
		} else if r.Intn(4) == 0 {
			form = "@{" + n + " := " + e.rz + "}"
			g.use("@{local := expr}")
		}
		g.vars = append(g.vars, rvar{n, kind, true})
		return both{ind + form + "\n", ind + "{{- $" + n + " := " + e.gt + " }}\n"}
	case 7: // global assignment
		kind := pick(r, "int", "str", "num", "bool")
		e := g.gen(kind, 2)
		n := g.name(kind)
		g.use("global assignment")
		op := pick(r, ":=", "=")
		end := pick(r, "", ";")
		if e.risk {
			end = ""
		}
		return both{ind + "@" + pick(r, "", "$.") + n + " " + op + " " + e.rz + end + "\n", ind + "{{- set $ \"" + n + "\" " + e.arg() + " }}\n"}
	case 8: // assignment operator
		ops := []string{"+", "-", "*", "%", "&", "|", "^", "&^", "<<", ">>", "«", "»", "/", "÷"}
		fns := []string{"add", "sub", "mul", "mod", "band", "bor", "bxor", "bclear", "lshift", "rshift", "lshift", "rshift", "div", "div"}
		i := r.Intn(len(ops) - 2)
		e := g.gen("int", 1)
		if strings.HasSuffix(fns[i], "shift") {
			e = g.intLit(4)
		}
		if e.risk {
			e = g.intLit(9)
		}
		g.use("assignment operator " + ops[i] + "=")
		if l, ok := g.localOf("int"); ok && r.Intn(2) == 0 {
			form := pick(r, "@{"+l+"} "+ops[i]+"= "+e.rz, "@$"+l+" "+ops[i]+"= "+e.rz)
			return both{ind + form + "\n", ind + "{{- $" + l + " = " + fns[i] + " $" + l + " " + e.arg() + " }}\n"}
		}
		n := g.name("int")
		return both{ind + "@" + n + " " + ops[i] + "= " + e.rz + "\n", ind + "{{- set $ \"" + n + "\" (" + fns[i] + " $." + n + " " + e.arg() + ") }}\n"}
	case 9: // comments
		t := g.text()
		m, left, right := g.reduce()
		left, right = strings.TrimRight(left, " "), strings.TrimLeft(right, " ")
		cl, cr := left, right
		if left == "{{-" {
			cl += " "
		}
		if right == "-}}" {
			cr = " " + cr
		}
		switch r.Intn(6) {
		case 0:
			g.use("line comment @#")
			return both{ind + "@" + m + "# " + t + "\n", ind + cl + "/* " + t + " */" + cr + "\n"}
		case 1:
			g.use("line comment @//")
			return both{ind + "@" + m + "// " + t + "\n", ind + cl + "/* " + t + " */" + cr + "\n"}
		case 2:
			g.use("block comment")
			return both{ind + "@" + m + "/* " + t + "\n" + t + " */\n", ind + cl + "/* " + t + "\n" + t + " */" + cr + "\n"}
		case 3:
			g.use("real comment ##")
			x := g.text()
			return both{ind + x + " " + pick(r, "##", "///") + "@ " + t + " @(1+2)\n", ind + x + "{{- \"\" }}\n"}
		case 4:
			g.use("pseudo comment")
			x := g.inline(true)
			return both{ind + pick(r, "#! ", "//! ") + x.rz + "\n", strings.TrimRight(ind, " ") + x.gt + "\n"}
		default:
			g.use("pseudo block comment")
			x := g.inline(false)
			return both{ind + "/*@ " + x.rz + " @*/\n", ind + " " + x.gt + " \n"}
		}
	case 10: // raw content inside of quotes
		g.use(`"<<`)
		e := g.gen("int", 1)
		if e.risk {
			e = g.intLit(3)
		}
		w := g.word()
		return both{ind + w + `: "<<@(` + e.rz + `);",` + "\n", ind + w + ": {{ " + e.gt + " }},\n"}
	case 11: // new line
		g.use("@<")
		n := g.name("int")
		w := g.text()
		return both{ind + w + "   @<" + n + ";\n", ind + w + "{{- $.NEWLINE }}{{ $." + n + " }}\n"}
	case 12, 13: // if
		g.use("if")
		c := g.header("bool")
		b := g.openBlock("if", c.rz, c.gt)
		out := both{ind + b.rz, ind + b.gt}
		body := g.lines(1+r.Intn(2), depth-1)
		out.rz += body.rz
		out.gt += body.gt
		for i := r.Intn(3); i > 1; i-- {
			g.use("else if")
			c := g.header("bool")
			b := g.openBlock(pick(r, "else if", "elseif"), c.rz, c.gt)
			body := g.lines(1, depth-1)
			out.rz += ind + b.rz + body.rz
			out.gt += ind + strings.Replace(b.gt, "elseif", "else if", 1) + body.gt
		}
		if r.Intn(2) == 0 {
			g.use("else")
			m, l, rr := g.reduce()
			body := g.lines(1, depth-1)
			out.rz += ind + "@" + m + "else\n" + body.rz
			out.gt += ind + l + "else" + rr + "\n" + body.gt
		}
		e := g.endBlock("if", "")
		return both{out.rz + ind + e.rz, out.gt + ind + e.gt}
	case 14, 15, 16: // loops
		g.use("foreach")
		kw := pick(r, "for", "foreach", "for each", "range")
		kind := pick(r, "ilist", "slist", "dict")
		var rz, gt, vk string
		if kind == "dict" {
			n := g.name("dict")
			rz, gt, vk = n, "$."+n, ""
		} else {
			e := g.header(kind)
			rz, gt, vk = e.rz, e.gt, map[string]string{"ilist": "int", "slist": "str"}[kind]
		}
		mark := len(g.vars)
		wasDot := g.inDot
		g.inDot = true
		switch r.Intn(3) {
		case 0:
			v := g.newLocal()
			rz, gt = "$"+v+" := "+rz, "$"+v+" := "+gt
			if vk != "" {
				g.vars = append(g.vars, rvar{v, vk, true})
			} else {
				g.vars = append(g.vars, rvar{v, "any", true})
			}
		case 1:
			k, v := g.newLocal(), g.newLocal()
			rz, gt = "$"+k+", $"+v+" := "+rz, "$"+k+", $"+v+" := "+gt
			g.vars = append(g.vars, rvar{k, pick(r, "any"), true})
			g.vars = append(g.vars, rvar{v, "any", true})
		default:
			g.use("@. in loop")
		}
		b := g.openBlock(kw, rz, "")
		m := b.gt
		body := g.lines(1+r.Intn(2), depth-1)
		g.vars = append([]rvar{}, g.vars[:mark]...)
		g.inDot = wasDot
		e := g.endBlock(pick(r, "for", "foreach", "for each", "range", ""), "")
		_ = m
		return both{ind + b.rz + body.rz + ind + e.rz, ind + strings.Replace(b.gt, "\x00", "range "+gt, 1) + body.gt + ind + e.gt}
	case 17: // with
		g.use("with")
		n := g.name("dict")
		wasDot := g.inDot
		g.inDot = true
		b := g.openBlock("with", n+".c", "$."+n+".c")
		body := g.lines(1, depth-1)
		g.inDot = wasDot
		e := g.endBlock("with", "")
		x := both{ind + "@.x;\n", ind + "{{ .x }}\n"}
		return both{ind + b.rz + x.rz + body.rz + ind + e.rz, ind + b.gt + x.gt + body.gt + ind + e.gt}
	case 18: // single line if
		g.use("single line if")
		c := g.header("bool")
		t := g.word()
		if r.Intn(2) == 0 {
			return both{ind + "@if (" + c.rz + ") { " + t + " }\n", ind + "{{ if " + c.gt + " }}" + t + " {{ end }}\n"}
		}
		return both{ind + "@if (" + c.rz + ") " + t + "; " + g.tail("z") + "\n", ind + "{{ if " + c.gt + " }}" + t + "{{ end }} z\n"}
	case 19: // space eater
		g.use("@-")
		a, b := g.text(), g.word()
		return both{ind + a + "   @-;  " + b + "\n", ind + a + `   {{- "" -}}  ` + b + "\n"}
	case 20: // literals
		g.use("@@")
		w := g.word()
		return both{ind + w + " @@ " + w + "\n", ind + w + " {{ \"@\" }} " + w + "\n"}
	case 22:
		return g.fieldAssign(ind)
	case 23:
		return g.autoText(ind)
	default:
		g.use("@{{")
		w := g.word()
		return both{ind + w + " @{{ " + w + "\n", ind + w + " {{ \"{{\" }} " + w + "\n"}
	}
}

// fieldAssign assigns a field of a dictionary (global, context or local).
func (g *rgen) fieldAssign(ind string) both {
	r := g.r
	d := g.name("dict")
	f := pick(r, "a", "a", "c.x")
	obj, field := "$."+d, f
	if i := strings.Index(f, "."); i > 0 {
		obj, field = obj+"."+f[:i], f[i+1:]
	}
	e := g.gen("int", 2)
	if e.risk {
		e = g.intLit(9)
	}
	end := pick(r, "\n", ";\n")
	if r.Intn(3) == 0 { // local dictionary
		l := g.newLocal()
		g.use("local field assignment")
		v := g.intLit(9)
		out := both{ind + "@{" + l + "} := dict(\"k\", " + v.rz + ")\n", ind + "{{- $" + l + " := dict \"k\" " + v.gt + " }}\n"}
		op := pick(r, "+:add", "-:sub", "*:mul", "|:bor", "&:band", "^:bxor", "&^:bclear")
		sym, fn := op[:strings.Index(op, ":")], op[strings.Index(op, ":")+1:]
		form := pick(r, "@{"+l+".k} "+sym+"= "+e.rz+end, "@$"+l+".k "+sym+"= "+e.rz+end)
		out.rz += ind + form
		out.gt += ind + "{{- set $" + l + " \"k\" (" + fn + " $" + l + ".k " + e.arg() + ") }}\n"
		out.rz += ind + pick(r, "@$"+l+".k;", "@{"+l+".k}", "@($"+l+".k + 0);") + "\n"
		out.gt += ind + "{{ $" + l + ".k }}\n"
		return out
	}
	mark := pick(r, "@", "@$.")
	if r.Intn(2) == 0 {
		g.use("field assignment")
		return both{ind + mark + d + "." + f + pick(r, " := ", " = ", ":=", "=") + e.rz + end, ind + "{{- set " + obj + " \"" + field + "\" " + e.arg() + " }}\n"}
	}
	g.use("field assignment operator")
	op := pick(r, "+:add", "-:sub", "*:mul", "|:bor", "&:band", "^:bxor", "&^:bclear")
	sym, fn := op[:strings.Index(op, ":")], op[strings.Index(op, ":")+1:]
	return both{ind + mark + d + "." + f + " " + sym + "= " + e.rz + end, ind + "{{- set " + obj + " \"" + field + "\" (" + fn + " $." + d + "." + f + " " + e.arg() + ") }}\n"}
}

// autoText is a line repeated (autoWrap) or used as margin (autoIndent) for each element of a list.
func (g *rgen) autoText(ind string) both {
	r := g.r
	before := ind + g.text() + pick(r, " ", " \"", " 50% ", " %d ", ": ", " é ", " - $x ")
	e := g.gen(pick(r, "ilist", "slist", "int"), 1)
	if e.risk || strings.Contains(e.gt, "@") {
		e = g.intLit(9)
	}
	m := pick(r, "", "", "-")
	nl := pick(r, "", "<")
	if r.Intn(2) == 0 {
		g.use("autoIndent")
		return both{before + "@" + m + pick(r, "autoIndent", "aindent", "aIndent") + "(" + e.rz + ")\n", "{{- $.NEWLINE }}{{- spaceIndent `" + before + "` " + e.arg() + " }}\n"}
	}
	g.use("autoWrap")
	after := pick(r, "", "", " end", "%", "\" x", ", \\t (y)", " 20 %s ;")
	sep, l := "", ""
	if nl != "" {
		sep, l = "\\n", "{{- $.NEWLINE }}"
	}
	esc := func(s string) string { return strings.ReplaceAll(s, "%", "%%") }
	return both{before + "@" + nl + m + pick(r, "autoWrap", "awrap", "aWrap") + "(" + e.rz + ")" + after + "\n",
		l + "{{" + m + " join \"" + sep + "\" (formatList " + strconv.Quote(esc(before)+"%v"+esc(after)) + " " + e.arg() + ") }}\n"}
}

func (g *rgen) tail(s string) string { return s }

func (g *rgen) localOf(kind string) (string, bool) {
	for i := len(g.vars) - 1; i >= 0; i-- {
		if v := g.vars[i]; v.local && v.kind == kind && !strings.HasPrefix(v.name, "\x00") {
			return v.name, true
		}
	}
	return "", false
}

// header is an expression that can be used in the parentheses of a command.
func (g *rgen) header(kind string) ex {
	for i := 0; ; i++ {
		e := g.gen(kind, g.r.Intn(3))
		if !e.risk {
			return e
		}
		if i > 20 {
			panic("header")
		}
	}
}

func (g *rgen) openBlock(kw, rz, gt string) both {
	m, l, rr := g.reduce()
	body := kw + " " + gt
	if gt == "" {
		body = "\x00"
	}
	return both{"@" + m + kw + pick(g.r, "", " ") + "(" + pick(g.r, "", " ") + rz + pick(g.r, "", " ") + ")\n", l + body + rr + "\n"}
}

func (g *rgen) endBlock(kw, _ string) both {
	m, l, rr := g.reduce()
	return both{"@" + m + pick(g.r, "end", "end "+kw, "end"+kw, "end;", "end "+kw+";") + "\n", l + "end" + rr + "\n"}
}

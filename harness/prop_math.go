package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/coveooss/gotemplate/v3/template"
)

// ---- reference arithmetic ---------------------------------------------------------------

func refNum(v interface{}) (float64, bool) {
	switch v := v.(type) {
	case int:
		return float64(v), true
	case int64:
		return float64(v), true
	case float64:
		return v, true
	case string:
		f, err := strconv.ParseFloat(v, 64)
		return f, err == nil
	}
	return 0, false
}

func refInt(v interface{}) (int64, bool) {
	switch v := v.(type) {
	case int:
		return int64(v), true
	case float64:
		if v == math.Floor(v) && math.Abs(v) < 1e15 {
			return int64(v), true
		}
		return 0, false
	case string:
		i, err := strconv.ParseInt(v, 10, 64)
		return i, err == nil
	}
	return 0, false
}

// refSimplify: the integral results that fit in 64 bits are integers
func refSimplify(f float64) interface{} {
	if f == math.Floor(f) && math.Abs(f) < 9.2233720368547758e18 {
		return int64(f)
	}
	return f
}

// show gives the text that a template must render for a value.
func show(v interface{}) string {
	switch v := v.(type) {
	case []interface{}:
		b, _ := json.Marshal(v)
		return string(b)
	default:
		return fmt.Sprint(v)
	}
}

var errRef = fmt.Errorf("error expected")

func refMap(a interface{}, f func(interface{}) (interface{}, error)) (interface{}, error) {
	l, isList := a.([]interface{})
	if !isList {
		return f(a)
	}
	if len(l) == 1 {
		return f(l[0])
	}
	res := []interface{}{}
	for _, v := range l {
		x, err := f(v)
		if err != nil {
			return nil, err
		}
		res = append(res, x)
	}
	return res, nil
}

func refUnary(fn func(float64) float64) func(args []interface{}) (interface{}, error) {
	return func(args []interface{}) (interface{}, error) {
		return refMap(args[0], func(v interface{}) (interface{}, error) {
			f, ok := refNum(v)
			if !ok {
				return nil, errRef
			}
			return refSimplify(fn(f)), nil
		})
	}
}

func refBinary(fn func(a, b float64) (float64, error)) func(args []interface{}) (interface{}, error) {
	return func(args []interface{}) (interface{}, error) {
		b, ok := refNum(args[1])
		if !ok {
			return nil, errRef
		}
		return refMap(args[0], func(v interface{}) (interface{}, error) {
			f, ok := refNum(v)
			if !ok {
				return nil, errRef
			}
			x, err := fn(f, b)
			return refSimplify(x), err
		})
	}
}

func noErr(fn func(a, b float64) float64) func(a, b float64) (float64, error) {
	return func(a, b float64) (float64, error) { return fn(a, b), nil }
}

// fold applies + or * on two or more operands that may all be numbers, or a list and a number.
func refFold(mul bool) func(args []interface{}) (interface{}, error) {
	op := func(a, b float64) float64 {
		if mul {
			return a * b
		}
		return a + b
	}
	return func(args []interface{}) (interface{}, error) {
		if l, isList := args[0].([]interface{}); isList {
			if len(args) == 1 {
				args = l
			} else {
				return refBinary(noErr(op))(args)
			}
		}
		res := 0.0
		if mul {
			res = 1
		}
		for _, a := range args {
			f, ok := refNum(a)
			if !ok {
				return nil, errRef
			}
			res = op(res, f)
		}
		return refSimplify(res), nil
	}
}

func refBits(fn func(a, b int64) int64) func(args []interface{}) (interface{}, error) {
	return func(args []interface{}) (interface{}, error) {
		var res int64
		for i, a := range args {
			x, ok := refInt(a)
			if !ok {
				return nil, errRef
			}
			if i == 0 {
				res = x
			} else {
				res = fn(res, x)
			}
		}
		return res, nil
	}
}

func refShift(left bool) func(args []interface{}) (interface{}, error) {
	return func(args []interface{}) (interface{}, error) {
		n, ok := refInt(args[1])
		if !ok || n < 0 {
			return nil, errRef
		}
		return refMap(args[0], func(v interface{}) (interface{}, error) {
			x, ok := refInt(v)
			if !ok {
				return nil, errRef
			}
			if left {
				return x << uint(n), nil
			}
			return x >> uint(n), nil
		})
	}
}

func flatNums(args []interface{}) ([]float64, bool) {
	if len(args) == 1 {
		if l, isList := args[0].([]interface{}); isList {
			args = l
		}
	}
	res := []float64{}
	for _, a := range args {
		f, ok := refNum(a)
		if !ok {
			return nil, false
		}
		res = append(res, f)
	}
	return res, true
}

func refExtreme(useMin bool) func(args []interface{}) (interface{}, error) {
	return func(args []interface{}) (interface{}, error) {
		if nums, ok := flatNums(args); ok {
			sort.Float64s(nums)
			if useMin {
				return refSimplify(nums[0]), nil
			}
			return refSimplify(nums[len(nums)-1]), nil
		}
		strs := []string{}
		for _, a := range args {
			strs = append(strs, fmt.Sprint(a))
		}
		sort.Strings(strs)
		if useMin {
			return strs[0], nil
		}
		return strs[len(strs)-1], nil
	}
}

func refAvg(args []interface{}) (interface{}, error) {
	nums, ok := flatNums(args)
	if !ok {
		return nil, errRef
	}
	sum := 0.0
	for _, n := range nums {
		sum += n
	}
	// the sum is an integer when it can be
	return refSimplify(sum / float64(len(nums))), nil
}

type mathFn struct {
	arity string // 1, 1l (also list), 2, 2l, n, nl, bits, shift
	ref   func([]interface{}) (interface{}, error)
}

var mathTable = map[string]mathFn{
	"add": {"n", refFold(false)}, "sum": {"n", refFold(false)},
	"mul": {"n", refFold(true)}, "product": {"n", refFold(true)},
	"sub":      {"2l", refBinary(noErr(func(a, b float64) float64 { return a - b }))},
	"subtract": {"2l", refBinary(noErr(func(a, b float64) float64 { return a - b }))},
	"div": {"2l", refBinary(func(a, b float64) (float64, error) {
		if b == 0 {
			return 0, errRef
		}
		return a / b, nil
	})},
	"mod": {"2l", refBinary(noErr(math.Mod))}, "pow": {"2l", refBinary(noErr(math.Pow))},
	"dim": {"2l", refBinary(noErr(math.Dim))}, "hypot": {"2l", refBinary(noErr(math.Hypot))},
	"atan2": {"2l", refBinary(noErr(math.Atan2))}, "rem": {"2", refBinary(noErr(math.Remainder))},
	"avg": {"n", refAvg}, "min": {"n", refExtreme(true)}, "max": {"n", refExtreme(false)},
	"band":   {"bits", refBits(func(a, b int64) int64 { return a & b })},
	"bor":    {"bits", refBits(func(a, b int64) int64 { return a | b })},
	"bxor":   {"bits", refBits(func(a, b int64) int64 { return a ^ b })},
	"bclear": {"bits", refBits(func(a, b int64) int64 { return a &^ b })},
	"lshift": {"shift", refShift(true)}, "rshift": {"shift", refShift(false)},
	"rad": {"1l", refUnary(func(a float64) float64 { return a * math.Pi / 180 })},
	"deg": {"1l", refUnary(func(a float64) float64 { return a * 180 / math.Pi })},
}

func init() {
	for n, f := range map[string]func(float64) float64{
		"abs": math.Abs, "ceil": math.Ceil, "roundUp": math.Ceil, "cbrt": math.Cbrt, "exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "floor": math.Floor,
		"trunc": math.Trunc, "truncate": math.Trunc, "sqrt": math.Sqrt, "gamma": math.Gamma, "j0": math.J0, "j1": math.J1, "y0": math.Y0, "y1": math.Y1,
		"acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan, "atanh": math.Atanh, "cos": math.Cos, "cosh": math.Cosh,
		"log": math.Log, "log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2, "logb": math.Logb, "sin": math.Sin, "sinh": math.Sinh, "tan": math.Tan, "tanh": math.Tanh,
	} {
		mathTable[n] = mathFn{"1l", refUnary(f)}
	}
}

func randNumber(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return r.Intn(21) - 6
	case 4:
		return r.Intn(2000000) - 1000000
	case 5:
		return int(r.Int63n(1<<53)) - 1<<52
	case 6, 7:
		return float64(r.Intn(4001)-2000) / float64(pick(r, 2, 4, 8, 10, 100))
	case 8:
		return pick(r, 1e10, 4e18, 9.3e18, 1e300, 1e-300, -5e18, 123456789012.0)
	case 9:
		return strconv.Itoa(r.Intn(2001) - 1000)
	case 10:
		return strconv.FormatFloat(float64(r.Intn(2001)-1000)/8, 'f', -1, 64)
	default:
		return pick(r, 0, 1, -1)
	}
}

func randInteger(r *rand.Rand) interface{} {
	switch r.Intn(6) {
	case 0:
		return int(r.Int63())
	case 1:
		return -int(r.Int63n(1 << 40))
	case 2:
		return strconv.Itoa(r.Intn(4096) - 100)
	default:
		return r.Intn(1024) - 50
	}
}

func literal(v interface{}) string {
	switch v := v.(type) {
	case string:
		return strconv.Quote(v)
	case []interface{}:
		items := []string{}
		for _, x := range v {
			items = append(items, literal(x))
		}
		return "(list " + strings.Join(items, " ") + ")"
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	}
	return fmt.Sprint(v)
}

// one long lived engine per process: the context supplies the operands by name
var mathEngine *template.Template
var mathContext = map[string]interface{}{}

func mathSuite(c *Ctx) {
	r := c.Rng
	names := sortedKeys(mathTable)
	name := names[c.Index%len(names)]
	fn := mathTable[name]
	var args []interface{}
	num := func() interface{} { return randNumber(r) }
	list := func(gen func() interface{}) []interface{} {
		l := []interface{}{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			l = append(l, gen())
		}
		return l
	}
	bad := r.Intn(12) == 0
	switch fn.arity {
	case "1l":
		args = []interface{}{num()}
		if r.Intn(4) == 0 {
			args[0] = list(num)
		}
	case "2", "2l":
		args = []interface{}{num(), num()}
		if fn.arity == "2l" && r.Intn(4) == 0 {
			args[0] = list(num)
		}
	case "n":
		if r.Intn(4) == 0 {
			args = []interface{}{list(num)}
			if (name == "add" || name == "mul") && r.Intn(2) == 0 {
				args = append(args, num())
			}
		} else {
			args = list(num)
		}
		bad = false
	case "bits":
		args = []interface{}{randInteger(r)}
		for i := 1 + r.Intn(3); i > 0; i-- {
			args = append(args, randInteger(r))
		}
	case "shift":
		args = []interface{}{randInteger(r), r.Intn(70)}
		if r.Intn(4) == 0 {
			args[0] = list(func() interface{} { return randInteger(r) })
		}
	}
	if bad {
		args[r.Intn(len(args))] = pick[interface{}](r, "abc", "1x", "", "-")
	}
	want, refErr := fn.ref(args)
	if l, isList := want.([]interface{}); isList {
		if _, err := json.Marshal(l); err != nil {
			return // the infinities have no list representation
		}
	}
	expr := name
	if mathEngine == nil {
		mathEngine = newTemplate(mathContext, "", strictOptions())
	}
	context := mathEngine.Context() // the engine works on that dictionary
	for k := range context.AsMap() {
		if strings.HasPrefix(k, "v") {
			context.Delete(k)
		}
	}
	operands := map[string]interface{}{}
	for i, a := range args {
		if r.Intn(2) == 0 {
			k := fmt.Sprintf("v%d", i)
			operands[k] = a
			context.Set(k, deepCopy(a))
			expr += " ." + k
		} else {
			expr += " " + literal(a)
		}
	}
	got, err := render(mathEngine, "{{ "+expr+" }}")
	key := expr + js(operands)
	if refErr != nil {
		c.Event("error expected")
		if err == nil {
			c.Fail("math-error", "%s with %s renders %q, an error is expected", expr, js(operands), got)
		}
	} else if err != nil {
		c.Fail("math-value", "%s with %s: error %v, want %s", expr, js(operands), err, show(want))
	} else if got != show(want) {
		c.Fail("math-value", "%s with %s renders %s, want %s", expr, js(operands), got, show(want))
	}
	c.Event("function " + fn.arity)
	if _, isList := args[0].([]interface{}); isList {
		c.Event("list operand")
	}
	c.Obs(key, true)
}

// textSuite: + concatenates text and lists, * repeats
func mathTextSuite(c *Ctx) {
	r := c.Rng
	t := mathEngine
	if t == nil {
		mathEngine = newTemplate(mathContext, "", strictOptions())
		t = mathEngine
	}
	word := func() string { return randString(r, "abcXYZ é-", 1, 1) + randString(r, "abcXYZ é-0", 0, 5) + "x" }
	var expr, want string
	set := func(k string, v interface{}) { t.Context().Set(k, v) }
	switch c.Index % 6 {
	case 0:
		a, b := word(), word()
		set("a", a)
		set("b", b)
		expr, want = "add .a .b", a+b
	case 1:
		a, n := word(), r.Intn(100)
		set("a", a)
		set("n", n)
		expr, want = "add .a .n", a+fmt.Sprint(n)
		if r.Intn(2) == 0 {
			expr, want = "add .n .a", fmt.Sprint(n)+a
		}
	case 2:
		a, n := word(), r.Intn(8)
		set("a", a)
		set("n", n)
		expr, want = "mul .a .n", strings.Repeat(a, n)
	case 3:
		l1, l2 := []interface{}{}, []interface{}{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			l1 = append(l1, smallScalar(r))
		}
		for i := 2 + r.Intn(4); i > 0; i-- {
			l2 = append(l2, word())
		}
		set("a", deepCopy(l1))
		set("b", deepCopy(l2))
		l1 = cat(l1, l2)
		expr, want = "add .a .b", show(l1)
		for _, v := range l1 {
			if v == nil {
				return
			}
		}
	case 4:
		l := []interface{}{}
		for i := 2 + r.Intn(3); i > 0; i-- {
			l = append(l, word())
		}
		w := word()
		set("a", deepCopy(l))
		set("b", w)
		expr, want = "add .a .b", show(append(l, w))
	case 5:
		n := r.Intn(1 << 20)
		if r.Intn(2) == 0 {
			n = int(r.Int63())
		}
		set("n", n)
		switch r.Intn(4) {
		case 3:
			// any hexadecimal text, with or without prefix, zeros included
			n = int(uint(n) >> uint(r.Intn(64)))
			set("s", pick(r, "", "0x")+pick(r, "", "0", "000")+fmt.Sprintf(pick(r, "%x", "%X"), n))
			expr, want = pick(r, "dec .s", "decimal .s"), fmt.Sprint(n)
		case 0:
			expr, want = "hex .n", fmt.Sprintf("0x%X", n)
		case 1:
			expr, want = "dec (hex .n)", fmt.Sprint(n)
		case 2:
			f := float64(r.Intn(100000)-50000) / 16
			set("f", f)
			expr, want = "int .f", fmt.Sprint(int(math.Floor(f)))
		}
	}
	ctx := js(t.Context())
	got, err := render(t, "{{ "+expr+" }}")
	if err != nil || got != want {
		c.Fail("math-text", "%s with %s renders %q (%v), want %q", expr, ctx, got, err, want)
	}
	c.Event("text and list operands")
	c.Obs(expr+ctx, true)
}

// rangeSuite: to includes its limit, until does not
func mathRangeSuite(c *Ctx) {
	r := c.Rng
	dec := pick(r, 0, 0, 0, 1, 2, 3)
	scale := math.Pow10(dec)
	k := func(max int) int64 { return int64(r.Intn(2*max+1) - max) }
	form := r.Intn(3)
	// everything is computed on integers (multiples of 10^-dec)
	var start, stop, step int64
	var args []string
	txt := func(v int64) string { return strconv.FormatFloat(float64(v)/scale, 'f', -1, 64) }
	fn := pick(r, "to", "until")
	incl := fn == "to"
	switch form {
	case 0:
		dec, scale = 0, 1
		start, stop, step = 0, k(12), 1
		if incl {
			start = 1
		}
		args = []string{txt(stop)}
	case 1:
		dec, scale = 0, 1
		start, stop, step = k(12), k(12), 1
		args = []string{txt(start), txt(stop)}
	case 2:
		start, stop, step = k(40), k(40), 1+int64(r.Intn(9))
		for dec > 0 && step%10 == 0 {
			step++
		}
		args = []string{txt(start), txt(stop), txt(step)}
		if r.Intn(2) == 0 {
			args[2] = "-" + args[2] // the direction comes from the limits
		}
	}
	want := []interface{}{}
	num := func(v int64) interface{} {
		f, _ := strconv.ParseFloat(txt(v), 64)
		return refSimplify(f)
	}
	if stop > start {
		for v := start; v < stop || incl && v == stop; v += step {
			want = append(want, num(v))
		}
	} else {
		for v := start; v > stop || incl && v == stop; v -= step {
			want = append(want, num(v))
		}
	}
	if mathEngine == nil {
		mathEngine = newTemplate(mathContext, "", strictOptions())
	}
	expr := fn + " " + strings.Join(args, " ")
	got, err := render(mathEngine, "{{ "+expr+" }}")
	if err != nil || got != show(want) {
		c.Fail("math-range", "%s renders %q (%v), want %q", expr, got, err, show(want))
	}
	c.Event("range elements", len(want))
	c.Obs(expr, len(want) > 1)
}

func init() {
	register(&Property{
		ID:   "P17",
		Rule: "one evaluation is one function call rendered by a template and compared with the reference; distinct by expression and operands",
		Assumptions: []string{
			"the elementary functions of Go's math package are the reference for the transcendental functions",
		},
		Suites: []Suite{
			{Name: "functions", Quick: 60000, Thorough: 1500000, Run: mathSuite, Need: []string{"error expected", "list operand"}},
			{Name: "text", Quick: 12000, Thorough: 200000, Run: mathTextSuite},
			{Name: "ranges", Quick: 12000, Thorough: 200000, Run: mathRangeSuite, Need: []string{"range elements"}},
		},
	})
}

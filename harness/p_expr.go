package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
)

// C04: operators compute what their definition says, for every pair of operand types and wherever the operands come from

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "a case is a pair of operand types (15 kinds and pointers to them) and the places they are taken from, with every operator defined for them, over boundary and random values, or an unparenthesised chain of up to 12 operands; results are compared with Go's arithmetic; distinct by expression, operand types, places and result",
		Plans: []Plan{
			{Variant: "plain", Quick: 200000, Thorough: 5000000},
			{Variant: "checkptr", Quick: 16000, Thorough: 500000},
		},
		Case: caseExpr,
		Min:  []string{"int", "float64", "string", "bool", "pointer operand", "nil ordered", "NaN", "chain", "mixed kinds", "condition", "missing operand"},
	})
}

// delegated is set when another check uses the cases of this one
var delegated bool

var tUint8 = reflect.TypeOf(uint8(0))

var exprKinds = []reflect.Type{
	tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), tFloat, tString, tBool,
}

// scalar is a random value of the kind; values the conversion library misreads (uint8 above 127) only when native
func (r *Rand) scalar(t reflect.Type, native bool) reflect.Value {
	v := reflect.New(t).Elem()
	switch k := t.Kind(); k {
	case reflect.String:
		v.SetString(pick(r, "", "a", "b", "ab", "0", "12", "é", " ", r.word(6), r.word(3)))
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Float32:
		v.SetFloat(float64(pick(r, float32(r.R(-400, 400))/8, 0, 1, -1, 0.1, 3.4e38, 1e-30, 16777217)))
	case reflect.Float64:
		v.SetFloat(pick(r, r.float(), r.float(), 0, 1, -1, math.MaxFloat64, 5e-324, math.Inf(1), math.Inf(-1), 9007199254740993))
	case reflect.Uint8:
		if native {
			v.SetUint(uint64(pick(r, 0, 1, 127, 128, 255, r.N(256))))
		} else {
			v.SetUint(uint64(pick(r, 0, 1, 127, r.N(128))))
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := pick(r, 0, 1, uint64(r.N(100)), r.U64(), 1<<15, 1<<16-1, 1<<31, 1<<32-1, 1<<62)
		if !native {
			u &= math.MaxInt64
		}
		v.SetUint(u)
	default:
		v.SetInt(int64(pick(r, r.Int(), r.R(-3, 3))))
	}
	return v
}

type exprOperand struct {
	t     reflect.Type // of the operand: kind or pointer
	v     reflect.Value
	src   string
	place string
}

func (o *exprOperand) base() reflect.Type {
	if o.t.Kind() == reflect.Ptr {
		return o.t.Elem()
	}
	return o.t
}
func (o *exprOperand) isNil() bool { return o.t.Kind() == reflect.Ptr && o.v.IsNil() }
func (o *exprOperand) value() reflect.Value {
	if o.t.Kind() == reflect.Ptr {
		return o.v.Elem()
	}
	return o.v
}

// exprHost collects the variables and functions of a template
type exprHost struct {
	*Rand
	names   []string
	values  map[string]reflect.Value
	fns     map[string]interface{}
	prefix  string // source put before the expression
	n       int
	suspect string // set when a conversion the conversion library is known to get wrong is part of the case
}

func (h *exprHost) add(v reflect.Value) string {
	h.n++
	name := fmt.Sprintf("v%d", h.n)
	h.names = append(h.names, name)
	h.values[name] = v
	return name
}

// place puts the operand somewhere and gives the source that refers to it
func (h *exprHost) place(o *exprOperand) {
	wrap := func(t reflect.Type) reflect.Value {
		fields := []reflect.StructField{{Name: "Pad", Type: pick(h.Rand, tBool, tInt, tString, reflect.TypeOf(int16(0)))}, {Name: "F", Type: t}, {Name: "End", Type: tInt}}
		if h.P(30) { // nothing behind the value
			fields = []reflect.StructField{{Name: "Pad", Type: pick(h.Rand, tUint8, tString, tFloat, reflect.TypeOf([15]uint8{}), reflect.TypeOf([31]bool{}), reflect.TypeOf([7]uint8{}))}, {Name: "F", Type: t}}
		}
		return reflect.New(reflect.StructOf(fields)).Elem()
	}
	for {
		switch h.N(11) {
		case 0, 1:
			o.place, o.src = "variable", "$"+h.add(o.v)
		case 2:
			s := wrap(o.t)
			s.FieldByName("F").Set(o.v)
			o.place, o.src = "field", "$"+h.add(s)+".F"
		case 3:
			s := wrap(o.t)
			s.FieldByName("F").Set(o.v)
			o.place, o.src = "field of pointer", "$"+h.add(s.Addr())+".F"
		case 4:
			s := wrap(o.t)
			s.FieldByName("F").Set(o.v)
			outer := wrap(reflect.PtrTo(s.Type()))
			outer.FieldByName("F").Set(s.Addr())
			o.place, o.src = "nested field", "$"+h.add(outer)+".F.F"
		case 5:
			m := reflect.MakeMap(reflect.MapOf(tString, o.t))
			m.SetMapIndex(reflect.ValueOf("k"), o.v)
			o.place, o.src = "map entry", "$"+h.add(m)+`["k"]`
		case 6:
			l := reflect.MakeSlice(reflect.SliceOf(o.t), 3, 3)
			l.Index(1).Set(o.v)
			o.place, o.src = "slice element", "$"+h.add(l)+`[1]`
		case 7:
			v := o.v
			h.n++
			name := fmt.Sprintf("fn%d", h.n)
			h.fns[name] = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{o.t}, false), func([]reflect.Value) []reflect.Value { return []reflect.Value{v} }).Interface()
			o.place, o.src = "function result", "$"+name+"()"
		case 8:
			if o.t.Kind() == reflect.Ptr { // an assigned pointer is the same pointer
				continue
			}
			h.n++
			name := fmt.Sprintf("w%d", h.n)
			h.prefix += "#set($" + name + " = $" + h.add(o.v) + ")"
			o.place, o.src = "assigned variable", "$"+name
		case 9, 10:
			switch o.t {
			case tInt:
				if o.v.Int() == math.MinInt64 {
					continue
				}
				o.src = strconv.Itoa(int(o.v.Int()))
			case tFloat:
				f := o.v.Float()
				if math.IsInf(f, 0) || math.IsNaN(f) || f != 0 && math.Abs(f) < 1e-5 || math.Abs(f) > 1e15 {
					continue
				}
				o.src = strconv.FormatFloat(f, 'f', -1, 64)
				if !strings.Contains(o.src, ".") {
					o.src += ".0"
				}
			case tString:
				if strings.ContainsAny(o.v.String(), "$#\"\\") {
					continue
				}
				o.src = `"` + o.v.String() + `"`
			case tBool:
				o.src = strconv.FormatBool(o.v.Bool())
			default:
				continue
			}
			o.place = "literal"
		}
		return
	}
}

// operatorsOf lists the operators the language defines for the pair, nothing when they can't be combined
func operatorsOf(x, y *exprOperand) []string {
	xp, yp := x.t.Kind() == reflect.Ptr, y.t.Kind() == reflect.Ptr
	xb, yb := x.base().Kind(), y.base().Kind()
	compare := []string{"==", "!=", "<", "<=", ">", ">="}
	switch {
	case isNum(xb) && isNum(yb):
		if !xp && !yp && xb == yb && xb != reflect.Int && xb != reflect.Float64 {
			return nil
		}
		if xp {
			return compare
		}
		return append([]string{"+", "-", "*", "/"}, compare...)
	case xb == reflect.String && yb == reflect.String:
		if xp || yp && xp {
			return []string{"==", "!="}
		}
		return []string{"+", "==", "!="}
	case xb == reflect.String && isNum(yb) && !xp, yb == reflect.String && isNum(xb) && !xp && !yp:
		return []string{"+", "==", "!="}
	case xb == reflect.Bool && yb == reflect.Bool:
		if xp || yp {
			return []string{"==", "!="}
		}
		return []string{"==", "!=", "&&", "||"}
	}
	return nil
}

func caseExpr(c *Ctx) {
	if c.P(30) {
		caseChain(c)
		return
	}
	if c.P(4) {
		caseMissing(c)
		return
	}
	x, y := &exprOperand{}, &exprOperand{}
	for {
		x.t, y.t = exprKinds[c.N(len(exprKinds))], exprKinds[c.N(len(exprKinds))]
		if c.P(15) {
			y.t = x.t
		}
		if c.P(30) {
			x.t = reflect.PtrTo(x.t)
		}
		if c.P(30) {
			y.t = reflect.PtrTo(y.t)
		}
		if len(operatorsOf(x, y)) > 0 {
			break
		}
	}
	ops := operatorsOf(x, y)
	native := x.t == y.t
	make := func(o *exprOperand) {
		v := c.scalar(o.base(), native)
		if isNum(o.base().Kind()) && (x.base().Kind() == reflect.String || y.base().Kind() == reflect.String) && isFloatKind(o.base().Kind()) {
			v.SetFloat(float64(c.R(-400, 400)) / 8) // the conversion library formats floats with single precision
		}
		if isFloatKind(o.base().Kind()) && isNum(x.base().Kind()) && isNum(y.base().Kind()) && c.P(10) {
			v.SetFloat(math.NaN())
			c.Count("NaN", 1)
		}
		if o.t.Kind() == reflect.Ptr {
			p := reflect.New(o.base())
			p.Elem().Set(v)
			v = p
		}
		o.v = v
	}
	make(x)
	make(y)
	suspect := ""
	if c.N(100) == 0 && !native && !delegated { // a known finding
		for _, o := range []*exprOperand{x, y} {
			if o.t == tUint8 {
				o.v.SetUint(uint64(c.R(128, 255)))
				suspect = "uint8 above 127 converted"
			}
		}
	}
	if c.P(25) && x.base() == y.base() && !x.isNil() && !y.isNil() { // equal operands
		if v := y.value(); v.CanSet() {
			v.Set(x.value())
		} else {
			y.v = x.value()
		}
	}
	withNil := false
	if c.P(20) && isNum(x.base().Kind()) && isNum(y.base().Kind()) { // nil is less than any number
		if x.t.Kind() == reflect.Ptr && c.P(60) {
			x.v, withNil = reflect.Zero(x.t), true
		}
		if y.t.Kind() == reflect.Ptr && c.P(60) {
			y.v, withNil = reflect.Zero(y.t), true
		}
		if withNil {
			ops = []string{"<", "<=", ">", ">="}
		}
	}
	h := &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}
	h.suspect = suspect
	h.place(x)
	h.place(y)
	in := NewInterp(false, nil)
	var src, want strings.Builder
	type row struct{ op, want string }
	for _, op := range ops {
		var res reflect.Value
		switch {
		case withNil:
			rank := func(o *exprOperand) int {
				if o.isNil() {
					return 0
				}
				return 1
			}
			a, b := rank(x), rank(y)
			if a == b && a == 1 {
				continue
			}
			res = in.binary(op, reflect.ValueOf(a), reflect.ValueOf(b))
			c.Count("nil ordered", 1)
		case native && x.t.Kind() == reflect.Ptr && isNum(x.base().Kind()):
			res = nativeCompare(op, x.value(), y.value())
		default:
			if op == "/" && !isFloatKind(x.base().Kind()) && !isFloatKind(y.base().Kind()) && asInt(y.value()) == 0 {
				continue
			}
			if isPtrPair(x, y) && isNum(x.base().Kind()) && isNum(y.base().Kind()) {
				c.Count("pointer operand", 1)
			}
			if x.base() != y.base() {
				c.Count("mixed kinds", 1)
			}
			a, b := x.value(), y.value()
			if a.Kind() == reflect.String != (b.Kind() == reflect.String) { // the other one is converted to text
				a, b = reflect.ValueOf(scalarString(a)), reflect.ValueOf(scalarString(b))
			}
			res = in.binary(op, a, b)
		}
		sp := pick(c.Rand, "", " ", "  ")
		e := x.src + sp + op + sp + y.src
		text := renderValue(res)
		c.Count(res.Type().String(), 1)
		if res.Kind() == reflect.Bool && c.P(50) {
			src.WriteString("#if(" + e + ")true#{else}false#end|")
			c.Count("condition", 1)
		} else {
			src.WriteString(fmt.Sprintf("#set($r%s = %s)$r%s|", opName[op], e, opName[op]))
		}
		want.WriteString(text + "|")
		c.Saw(fmt.Sprint(x.t, x.place, op, y.t, y.place, text))
	}
	full := h.prefix + src.String()
	c.Desc("%s with %v = %s (%s), %v = %s (%s)", full, x.t, show(x), x.place, y.t, show(y), y.place)
	h.judge(c, full, want.String())
	c.Sample("%s with %s and %s => %s", full, show(x), show(y), want.String())
}

// caseMissing is an operand without a value: nothing to compute, but an error
func caseMissing(c *Ctx) {
	h := &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}
	x, y := &exprOperand{}, &exprOperand{}
	op := "+"
	if c.P(20) {
		x.t, y.t = tString, reflect.PtrTo(exprKinds[c.N(len(exprKinds))])
	} else {
		for {
			x.t, y.t = exprKinds[c.N(12)], reflect.PtrTo(exprKinds[c.N(12)])
			if len(operatorsOf(x, y)) > 0 {
				break
			}
		}
		op = pick(c.Rand, "+", "-", "*", "/")
	}
	x.v, y.v = c.scalar(x.t, false), reflect.Zero(y.t)
	if c.P(20) && x.t != tString && !isFloatKind(x.t.Kind()) {
		text := pick(c.Rand, "abc", "", "1x", "2.5")
		y.t, y.v = reflect.TypeOf(&text), reflect.ValueOf(&text)
	}
	h.place(x)
	h.place(y)
	src := "#set($r = %s)$r"
	if x.t != tString && !isFloatKind(x.t.Kind()) && !isFloatKind(y.base().Kind()) {
		src = pick(c.Rand, src, "#if(%s == 1)y#end", "#set($r = (%s))", "#set($r = 1 + %s)")
	}
	src = h.prefix + strings.Replace(src, "%s", x.src+" "+op+" "+y.src, 1)
	c.Desc("%s with %v = %s (%s), %v = %s (%s)", src, x.t, show(x), x.place, y.t, show(y), y.place)
	failed, err, panicked, stack := h.run(src)
	switch {
	case failed != nil:
		c.Violate("error before the execution", "%v", failed)
	case panicked != nil:
		c.Violate("panic for a missing operand", "%v at %s", panicked, stack)
	case err == nil:
		c.Violate("missing operand computed", "no error")
	}
	c.Count("missing operand", 1)
	c.Saw(fmt.Sprint(src, x.t, y.t))
}

func (h *exprHost) run(src string) (failed, err error, panicked interface{}, stack string) {
	panicked, stack = guard(func() {
		pl := velty.New()
		for _, n := range sortedKeys(h.fns) {
			if failed = pl.RegisterFunction(n, h.fns[n]); failed != nil {
				return
			}
		}
		for _, n := range h.names {
			if failed = pl.DefineVariable(n, h.values[n].Type()); failed != nil {
				return
			}
		}
		exec, newState, cerr := pl.Compile([]byte(src))
		if failed = cerr; failed != nil {
			return
		}
		st := newState()
		for _, n := range h.names {
			if failed = st.SetValue(n, h.values[n].Interface()); failed != nil {
				return
			}
		}
		err = exec.Exec(st)
	})
	return
}

func isPtrPair(x, y *exprOperand) bool {
	return x.t.Kind() == reflect.Ptr || y.t.Kind() == reflect.Ptr
}

var opName = map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "&&": "and", "||": "or"}

func show(o *exprOperand) string {
	if o.isNil() {
		return "nil"
	}
	return fmt.Sprintf("%#v", o.value().Interface())
}

func nativeCompare(op string, x, y reflect.Value) reflect.Value {
	cmp := 0
	switch k := x.Kind(); {
	case isFloatKind(k):
		a, b := x.Float(), y.Float()
		if a != a || b != b { // NaN is unordered
			return reflect.ValueOf(op == "!=")
		}
		if a < b {
			cmp = -1
		} else if a > b {
			cmp = 1
		}
	case k >= reflect.Uint && k <= reflect.Uint64:
		a, b := x.Uint(), y.Uint()
		if a < b {
			cmp = -1
		} else if a > b {
			cmp = 1
		}
	default:
		a, b := x.Int(), y.Int()
		if a < b {
			cmp = -1
		} else if a > b {
			cmp = 1
		}
	}
	return reflect.ValueOf(map[string]bool{"==": cmp == 0, "!=": cmp != 0, "<": cmp < 0, "<=": cmp <= 0, ">": cmp > 0, ">=": cmp >= 0}[op])
}

func (h *exprHost) judge(c *Ctx, src, want string) bool {
	stage := "definition"
	var err error
	var out string
	panicked, stack := guard(func() {
		pl := velty.New()
		for _, n := range sortedKeys(h.fns) {
			if err = pl.RegisterFunction(n, h.fns[n]); err != nil {
				return
			}
		}
		for _, n := range h.names {
			if err = pl.DefineVariable(n, h.values[n].Type()); err != nil {
				return
			}
		}
		stage = "compile"
		exec, newState, cerr := pl.Compile([]byte(src))
		if err = cerr; err != nil {
			return
		}
		stage = "execution"
		st := newState()
		for _, n := range h.names {
			if err = st.SetValue(n, h.values[n].Interface()); err != nil {
				return
			}
		}
		err = exec.Exec(st)
		out = st.Buffer.String()
	})
	switch {
	case panicked != nil:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
	case err != nil:
		c.Violate("error in "+stage, "%v", err)
	case out != want && h.suspect != "":
		c.Violate(h.suspect, "want %q, got %q", want, out)
	case out != want:
		c.Violate("result", "%s: got %q", firstDiff(want, out), out)
	default:
		return true
	}
	return false
}

// caseChain is a chain of operands without parentheses, evaluated by precedence climbing over the tokens
func caseChain(c *Ctx) {
	h := &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}
	in := NewInterp(false, nil)
	var toks []interface{} // operands and operators in turn
	negated := map[int]bool{}
	operand := func(t reflect.Type) {
		o := &exprOperand{t: t}
		o.v = reflect.New(t).Elem()
		switch t {
		case tInt:
			o.v.SetInt(int64(pick(c.Rand, c.R(-9, 9), c.R(1, 99), c.Int())))
		case tFloat:
			o.v.SetFloat(float64(c.R(-80, 80)) / 8)
		default:
			o.v = c.scalar(t, false)
		}
		h.place(o)
		toks = append(toks, o)
	}
	arith := func(t reflect.Type) {
		for n := c.R(1, 4); n > 0; n-- {
			k := t
			if t == tFloat && len(toks) > 0 && c.P(40) {
				k = tInt
			}
			operand(k)
			if n > 1 {
				op := pick(c.Rand, "+", "-", "*", "/")
				toks = append(toks, op)
			}
		}
	}
	kind := c.N(4)
	t := pick(c.Rand, tInt, tInt, tFloat)
	switch kind {
	case 0:
		arith(t)
		for c.P(60) {
			toks = append(toks, pick(c.Rand, "+", "-", "*"))
			arith(t)
		}
	case 1: // strings, what is added to them is converted
		operand(tString)
		for n := c.R(1, 5); n > 0; n-- {
			toks = append(toks, "+")
			operand(pick(c.Rand, tString, tString, tInt))
		}
		if c.P(30) {
			toks = append(toks, pick(c.Rand, "==", "!="))
			operand(tString)
		}
	default: // logical
		for {
			switch c.N(4) {
			case 0:
				if c.P(30) {
					negated[len(toks)] = true
				}
				operand(tBool)
			default:
				t := pick(c.Rand, tInt, tFloat)
				arith(t)
				toks = append(toks, pick(c.Rand, "<", "<=", ">", ">=", "==", "!="))
				arith(t)
			}
			if len(toks) > 14 || c.P(45) {
				break
			}
			toks = append(toks, pick(c.Rand, "&&", "||"))
		}
	}
	var src strings.Builder
	for i, tok := range toks {
		switch a := tok.(type) {
		case string:
			src.WriteString(pick(c.Rand, " ", " ", "") + a + pick(c.Rand, " ", " ", "\n"))
		case *exprOperand:
			if negated[i] {
				src.WriteString("!")
			}
			src.WriteString(a.src)
		}
	}
	var res reflect.Value
	pos := 0
	divZero := false
	var climb func(min int) reflect.Value
	climb = func(min int) reflect.Value {
		x := toks[pos].(*exprOperand).v
		if negated[pos] {
			x = reflect.ValueOf(!x.Bool())
		}
		pos++
		for pos < len(toks) && precOf[toks[pos].(string)] >= min {
			op := toks[pos].(string)
			pos++
			y := climb(precOf[op] + 1)
			if op == "/" && !isFloatKind(x.Kind()) && !isFloatKind(y.Kind()) && y.Int() == 0 {
				divZero = true
				y = reflect.ValueOf(1)
			}
			x = in.binary(op, x, y)
		}
		return x
	}
	res = climb(0)
	if divZero {
		return
	}
	full := h.prefix + "#set($r = " + src.String() + ")$r"
	if res.Kind() == reflect.Bool && c.P(50) {
		full = h.prefix + "#if(" + src.String() + ")true#{else}false#end"
	}
	var values []string
	for _, n := range h.names {
		values = append(values, n+"="+renderValue(h.values[n]))
	}
	c.Desc("%s with %s", full, strings.Join(values, " "))
	h.judge(c, full, renderValue(res))
	c.Count("chain", 1)
	c.Count("operators chained", len(toks)/2)
	c.Saw(full)
}

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est/op"
)

// C16: a call in a template calls the function once, in order, with the arguments converted to its parameters, and yields its result

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "a case is a template with up to 4 calls of functions with random signatures (those the engine calls directly and any other, variadic ones, with an error result), registered in every way, called standalone, on a receiver, as a method, in a namespace, as an argument, condition, or assigned value, with arguments from every place that need conversion, dereference or none; the recorded calls and arguments and the rendered results are compared; distinct by signatures, forms and arguments",
		Plans: []Plan{
			{Variant: "plain", Quick: 240000, Thorough: 4000000},
			{Variant: "checkptr", Quick: 18000, Thorough: 200000},
		},
		Case: caseCall,
		Min:  []string{"direct signature", "other signature", "variadic", "error result", "standalone", "receiver", "method", "namespace", "argument", "assigned", "condition", "converted argument", "dereferenced argument", "interface argument", "chained", "type function", "kind function", "standalone function"},
	})
}

type cName string
type cCount int

var (
	tErr    = reflect.TypeOf((*error)(nil)).Elem()
	tCName  = reflect.TypeOf(cName(""))
	tCCount = reflect.TypeOf(cCount(0))
)

func sl(t reflect.Type) reflect.Type { return reflect.SliceOf(t) }

// directSignatures are those for which the engine has a caller of its own
var directSignatures = func() [][2][]reflect.Type {
	s, i, b, f, u := tString, tInt, tBool, tFloat, tUint8
	var out [][2][]reflect.Type
	add := func(res reflect.Type, args ...reflect.Type) {
		out = append(out, [2][]reflect.Type{args, {res}})
	}
	add(b, s, s)
	add(s, s, s)
	add(s, s)
	add(i, s, s)
	add(i, s)
	add(b, s)
	add(i, s, s, i)
	add(b, s, s, s)
	add(sl(s), s, s)
	add(b, s, s, i)
	add(s, s, i)
	add(s, s, i, i)
	for _, t := range []reflect.Type{i, b, f, u, s} {
		add(b, sl(t), t)
		add(b, sl(t), sl(t))
		add(t, sl(t), i)
		add(b, sl(t))
		add(i, sl(t))
	}
	add(s, i)
	add(s, b)
	add(s, f)
	return out
}()

var callKinds = append(append([]reflect.Type{}, exprKinds...), tInt, tString, tBool, tFloat, tLeaf, reflect.PtrTo(tLeaf), sl(tString), sl(tInt), sl(tFloat), sl(tBool), sl(tUint8), sl(tLeaf),
	sl(reflect.PtrTo(tLeaf)), reflect.MapOf(tString, tInt), reflect.MapOf(tString, tString), tAny, tCName, tCCount, reflect.TypeOf(rPair{}), reflect.TypeOf([2]int{}), sl(sl(tInt)))

type recorder struct{ log []string }

func (r *recorder) add(name string, args []reflect.Value) {
	r.log = append(r.log, showCall(name, args))
}

// showCall writes the arguments with their types; pointers by what they point to
func showCall(name string, args []reflect.Value) string {
	var b strings.Builder
	b.WriteString(name + "(")
	for _, a := range args {
		if a.Kind() == reflect.Interface && !a.IsNil() {
			b.WriteString("interface:")
			a = a.Elem()
		}
		b.WriteString(fmt.Sprintf("%v %v; ", a.Type(), dump(a, 0)))
	}
	return b.String() + ")"
}

// CallHost has methods that record what they are called with
type CallHost struct {
	Pad  bool
	N    int
	Name string
	rec  *recorder
}

func vals(vs ...interface{}) (out []reflect.Value) {
	for _, v := range vs {
		out = append(out, reflect.ValueOf(v))
	}
	return out
}

func (h CallHost) Plain() string        { h.rec.add("Plain", vals(h.N)); return "plain" }
func (h CallHost) Text(s string) string { h.rec.add("Text", vals(h.N, s)); return "<" + s + ">" }
func (h *CallHost) Pointer(i int) int   { h.rec.add("Pointer", vals(h.N, i)); return h.N ^ i }
func (h CallHost) Many(s string, i ...int) int {
	h.rec.add("Many", vals(h.N, s, i))
	return len(s) + len(i)
}
func (h *CallHost) Narrow(i int8, f float32, u uint16) string {
	h.rec.add("Narrow", vals(h.N, i, f, u))
	return "narrow"
}
func (h CallHost) Any(v interface{}) string {
	h.rec.add("Any", append(vals(h.N), reflect.ValueOf(&v).Elem()))
	return fmt.Sprintf("%T", v)
}
func (h CallHost) Fails(l *Leaf) (bool, error) { h.rec.add("Fails", vals(h.N, l)); return l.N > 0, nil }
func (h *CallHost) List(l []string, m map[string]int) []string {
	h.rec.add("List", vals(h.N, l, m))
	return append([]string{"first"}, l...)
}
func (h CallHost) Again() CallHost { h.rec.add("Again", vals(h.N)); h.N++; return h }

type kindFn struct {
	kinds []reflect.Kind
	fn    interface{}
}

func (k *kindFn) Kind() []reflect.Kind { return k.kinds }
func (k *kindFn) Handler() interface{} { return k.fn }

type callCase struct {
	*exprHost
	c    *Ctx
	rec  *recorder
	want []string
	regs []func(pl *velty.Planner) error
	desc []string
}

func (h *callCase) kind() reflect.Type { return callKinds[h.N(len(callKinds))] }

func (h *callCase) valueOf(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	if t == tAny {
		for {
			if s := h.kind(); s != tAny {
				v.Set(h.valueOf(s))
				return v
			}
		}
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(h.word(6))
	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Array:
		if t.Kind() == reflect.Slice && h.P(15) {
			v.Set(reflect.MakeSlice(t, 0, 0))
			return v
		}
		h.fillCall(v)
	default:
		if t == tCCount {
			v.SetInt(int64(h.Int()))
			return v
		}
		return h.scalar(t, true)
	}
	return v
}

func (h *callCase) fillCall(v reflect.Value) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.fillCall(v.Index(i))
		}
	case reflect.Struct, reflect.Ptr, reflect.Map, reflect.Slice:
		h.fill(v, 1)
	default:
		v.Set(h.scalar(v.Type(), true))
	}
}

// argument gives a source for a parameter of the type and what the function has to receive
func (h *callCase) argument(t reflect.Type) (string, reflect.Value, reflect.Type) {
	return h.argumentOf(t, h.valueOf(t), true)
}

// argumentOf gives a source for a parameter of the type that has to receive the value, or, when it may change, another one
func (h *callCase) argumentOf(t reflect.Type, v reflect.Value, free bool) (string, reflect.Value, reflect.Type) {
	o := &exprOperand{t: t}
	o.v = v
	want := o.v
	if t == tAny {
		s := o.v.Elem()
		if !s.IsValid() {
			h.place(o)
			return o.src, want, o.t
		}
		if h.P(60) { // an argument of another type given as an interface
			o.t = s.Type()
			o.v = s
			h.c.Count("interface argument", 1)
		}
		h.place(o)
		return o.src, want, o.t
	}
	switch k := h.N(10); {
	case k < 2 && isNum(t.Kind()) && free:
		for {
			o.t = exprKinds[h.N(len(exprKinds))]
			if isNum(o.t.Kind()) {
				break
			}
		}
		o.v = reflect.New(o.t).Elem()
		if isFloatKind(o.t.Kind()) {
			o.v.SetFloat(float64(h.R(0, 250)) / 4)
		} else {
			o.v.Set(h.scalar(o.t, true))
		}
		want = o.v.Convert(t)
		h.c.Count("converted argument", 1)
	case k < 2 && t.Kind() == reflect.String:
		o.t = pick(h.Rand, tString, tCName)
		o.v = o.v.Convert(o.t)
		h.c.Count("converted argument", 1)
	case k < 4 && t.Kind() != reflect.Ptr:
		p := reflect.New(t)
		p.Elem().Set(o.v)
		o.t, o.v = p.Type(), p
		h.c.Count("dereferenced argument", 1)
	case k < 5 && t == tString && free:
		a, b := h.word(4), h.word(4)
		h.c.Count("computed argument", 1)
		return "$" + h.add(reflect.ValueOf(a)) + " + $" + h.add(reflect.ValueOf(b)), reflect.ValueOf(a + b), tString
	case k < 5 && t == tInt && free:
		a, b := h.R(-99, 99), h.R(0, 99)
		h.c.Count("computed argument", 1)
		return fmt.Sprintf("$%s * %d", h.add(reflect.ValueOf(a)), b), reflect.ValueOf(a * b), tInt
	}
	h.place(o)
	return o.src, want, o.t
}

// call generates a call, its source and its result
func (h *callCase) call(depth int) (string, reflect.Value) {
	if h.P(22) {
		return h.methodCall()
	}
	return h.callOf(nil, depth)
}

// callOf generates a call of a function with the result type, or any
func (h *callCase) callOf(resultType reflect.Type, depth int) (string, reflect.Value) {
	h.n++
	name := fmt.Sprintf("call%d", h.n)
	var in, out []reflect.Type
	variadic := false
	if h.P(55) {
		sig := directSignatures[h.N(len(directSignatures))]
		in, out = append([]reflect.Type{}, sig[0]...), append([]reflect.Type{}, sig[1]...)
		h.c.Count("direct signature", 1)
	} else {
		for n := h.N(5); n > 0; n-- {
			in = append(in, h.kind())
		}
		out = []reflect.Type{h.kind()}
		variadic = len(in) > 0 && h.P(20)
		h.c.Count("other signature", 1)
	}
	if resultType != nil {
		out = []reflect.Type{resultType}
	}
	if h.P(15) {
		out = append(out, tErr)
		h.c.Count("error result", 1)
	}
	fin := append([]reflect.Type{}, in...)
	args := append([]reflect.Type{}, in...)
	if variadic {
		fin[len(fin)-1] = sl(fin[len(fin)-1])
		for args = args[:len(args)-1]; h.P(60) && len(args) < 6; {
			args = append(args, in[len(in)-1])
		}
		h.c.Count("variadic", 1)
	}
	result := h.valueOf(out[0])
	rec := h.rec
	fn := reflect.MakeFunc(reflect.FuncOf(fin, out, variadic), func(got []reflect.Value) []reflect.Value {
		if variadic { // spread
			last := got[len(got)-1]
			got = append([]reflect.Value{}, got[:len(got)-1]...)
			for i := 0; i < last.Len(); i++ {
				got = append(got, last.Index(i))
			}
		}
		rec.add(name, got)
		if len(out) == 2 {
			return []reflect.Value{result, reflect.Zero(tErr)}
		}
		return []reflect.Value{result}
	}).Interface()

	var srcs []string
	var wants []reflect.Value
	form := "standalone"
	var first reflect.Type
	for i, t := range args {
		if depth > 0 && h.P(12) && t != tAny { // another call is the argument
			src, v := h.callOf(t, depth-1)
			srcs, wants = append(srcs, src), append(wants, v)
			h.c.Count("argument", 1)
			if i == 0 {
				first = t
			}
			continue
		}
		src, w, at := h.argument(t)
		srcs, wants = append(srcs, src), append(wants, w)
		if i == 0 {
			first = at
		}
	}
	receiver := len(srcs) > 0 && h.P(45) && isReceiver(srcs[0], first)
	src := "$" + name + "(" + strings.Join(srcs, pick(h.Rand, ",", ", ", " , ")) + ")"
	if receiver {
		form = "receiver"
		src = srcs[0] + "." + name + "(" + strings.Join(srcs[1:], ", ") + ")"
	}
	switch k := h.N(10); {
	case k == 0 && receiver && first.Kind() != reflect.Interface:
		h.regs = append(h.regs, func(pl *velty.Planner) error {
			return pl.RegisterTypeFunc(first, &op.TypeFunc{Name: name, Handler: fn, ResultType: out[0]})
		})
		form = "type function"
	case k < 3 && receiver && out[0].Kind() != reflect.Interface && first.Kind() != reflect.Interface:
		h.regs = append(h.regs, func(pl *velty.Planner) error {
			return pl.RegisterFunctionKind(name, &kindFn{[]reflect.Kind{reflect.Chan, first.Kind()}, fn})
		})
		form = "kind function"
	case k < 2 && !receiver:
		h.regs = append(h.regs, func(pl *velty.Planner) error {
			return pl.RegisterStandaloneFunction(name, &op.Function{Handler: fn})
		})
		form = "standalone function"
	default:
		h.regs = append(h.regs, func(pl *velty.Planner) error { return pl.RegisterFunction(name, fn) })
	}
	h.c.Count(form, 1)
	h.desc = append(h.desc, fmt.Sprintf("%s %s %v", form, name, reflect.TypeOf(fn)))
	h.want = append(h.want, showCall(name, wants))
	return src, result
}

func isReceiver(src string, t reflect.Type) bool {
	return strings.HasPrefix(src, "$") && !strings.ContainsAny(src, " +*") && t != nil
}

func (h *callCase) methodCall() (string, reflect.Value) {
	host := CallHost{N: h.R(-9, 99), Name: "host", rec: h.rec}
	o := &exprOperand{}
	pointer := h.P(50)
	form := "method"
	if given := host; pointer {
		o.t, o.v = reflect.TypeOf(&given), reflect.ValueOf(&given)
	} else {
		o.t, o.v = reflect.TypeOf(host), reflect.ValueOf(host)
	}
	if h.P(20) {
		h.n++
		ns := fmt.Sprintf("ns%d", h.n)
		v := o.v.Interface()
		h.regs = append(h.regs, func(pl *velty.Planner) error { return pl.RegisterFuncNs(ns, v) })
		o.src = "$" + ns
		form = "namespace"
	} else {
		h.place(o)
		if !isReceiver(o.src, o.t) {
			panic("receiver")
		}
	}
	src := o.src
	if h.P(15) {
		h.want = append(h.want, showCall("Again", vals(host.N)))
		src += ".Again()"
		host.N++
		pointer = false
		h.c.Count("chained", 1)
	}
	var method string
	for {
		method = pick(h.Rand, "Plain", "Text", "Pointer", "Many", "Narrow", "Any", "Fails", "List")
		if m := reflect.ValueOf(host).MethodByName(method); m.IsValid() || pointer {
			break
		}
	}
	quiet := host
	quiet.rec = &recorder{}
	m := reflect.ValueOf(&quiet).MethodByName(method)
	mt := m.Type()
	var args []string
	var wants []reflect.Value
	for i := 0; i < mt.NumIn(); i++ {
		t := mt.In(i)
		if mt.IsVariadic() && i == mt.NumIn()-1 {
			for h.P(60) && len(args) < 6 {
				a, w, _ := h.argument(t.Elem())
				args, wants = append(args, a), append(wants, w)
			}
			break
		}
		a, w, _ := h.argument(t)
		args, wants = append(args, a), append(wants, w)
	}
	for i := range wants {
		c := reflect.New(wants[i].Type()).Elem()
		c.Set(wants[i])
		wants[i] = c
	}
	result := m.Call(wants)[0]
	h.want = append(h.want, quiet.rec.log...)
	h.c.Count(form, 1)
	h.desc = append(h.desc, fmt.Sprintf("%s %s of %v", form, method, o.t))
	return src + "." + method + "(" + strings.Join(args, ", ") + ")", result
}

func caseCall(c *Ctx) {
	h := &callCase{exprHost: &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}, c: c, rec: &recorder{}}
	var src, want strings.Builder
	for n := c.R(1, 4); n > 0; n-- {
		s, res := h.call(2)
		text := renderValue(res)
		switch k := c.N(10); {
		case k < 3:
			h.n++
			src.WriteString(fmt.Sprintf("#set($r%d = %s)${r%d}|", h.n, s, h.n))
			c.Count("assigned", 1)
		case k < 6 && res.Kind() == reflect.Bool:
			src.WriteString("#if(" + s + ")true#{else}false#end|")
			c.Count("condition", 1)
		case k < 6 && res.Type() == tInt:
			src.WriteString("#set($sum = " + s + " + 0)$sum|")
			c.Count("operand", 1)
		default:
			src.WriteString("${" + s[1:] + "}|")
		}
		want.WriteString(text + "|")
	}
	full := h.prefix + src.String()
	hosts := map[string]reflect.Value{}
	for _, n := range h.names {
		hosts[n] = h.values[n]
	}
	c.Desc("template: %s\n%s%s", full, describeHosts(hosts, full), strings.Join(h.desc, "\n"))
	stage := "definition"
	var err error
	var out string
	panicked, stack := guard(func() {
		pl := velty.New()
		for _, n := range sortedKeys(h.fns) {
			if err = pl.RegisterFunction(n, h.fns[n]); err != nil {
				return
			}
		}
		for _, reg := range h.regs {
			if err = reg(pl); err != nil {
				return
			}
		}
		for _, n := range h.names {
			if err = pl.DefineVariable(n, h.values[n].Type()); err != nil {
				return
			}
		}
		stage = "compile"
		exec, newState, cerr := pl.Compile([]byte(full))
		if err = cerr; err != nil {
			return
		}
		stage = "execution"
		st := newState()
		for _, n := range h.names {
			if err = st.SetValue(n, h.values[n].Interface()); err != nil {
				return
			}
		}
		err = exec.Exec(st)
		out = st.Buffer.String()
	})
	calls, got := strings.Join(h.want, "\n"), strings.Join(h.rec.log, "\n")
	switch {
	case panicked != nil:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
	case err != nil:
		c.Violate("error in "+stage, "%v", err)
	case calls != got:
		c.Violate("calls", "%s\nwant %s\ngot  %s", firstDiff(calls, got), clip(calls, 1200), clip(got, 1200))
	case out != want.String():
		c.Violate("result", "%s: got %q", firstDiff(want.String(), out), clip(out, 800))
	default:
		c.Saw(strings.Join(h.desc, ";") + calls)
		c.Sample("%s => %s => %q", full, clip(got, 250), clip(out, 100))
	}
}

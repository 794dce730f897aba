package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/viant/velty"
	aexpr "github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est/op"
)

// C26: a call reaches the function registered under its name for what it is called on

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "a case is two or three planners, in each of which the same few names mean other things at random (a function, functions of kinds, functions of types, a standalone function, nothing), besides methods of these names of the receivers and of namespaces, some registered twice, in random order, before or after planners were derived; templates call the names on receivers of random types and alone; each rendered result tells which function was called, on what, with what; what has no function is not compiled; distinct by registrations and calls",
		Plans: []Plan{
			{Variant: "plain", Quick: 60000, Thorough: 1200000},
			{Variant: "checkptr", Quick: 6000, Thorough: 100000},
		},
		Case: caseDispatch,
		Min:  []string{"method", "promoted method", "method of an interface", "namespace", "function", "function alone", "standalone function", "kind function", "type function", "registered again", "kind registered again", "registered twice", "nothing to call", "undefined call", "declared result", "unexpected result", "derived planner"},
	})
}

type dispA struct{ N int }

func (d dispA) Do(s string) string    { return fmt.Sprintf("dispA.Do(%v,%s)", d.N, s) }
func (d *dispA) Info(s string) string { return fmt.Sprintf("dispA.Info(%v,%s)", d.N, s) }

type dispB struct {
	Pad string
	N   int
}

func (d dispB) Do(s string) string  { return fmt.Sprintf("dispB.Do(%v,%s)", d.N, s) }
func (d dispB) Run(s string) string { return fmt.Sprintf("dispB.Run(%v,%s)", d.N, s) }

type dispC struct {
	Pad bool
	dispA
}

func (d dispC) Run(s string) string { return fmt.Sprintf("dispC.Run(%v,%s)", d.N, s) }

type dispD struct{ N int }

type dispE int

func (d dispE) Do(s string) string  { return fmt.Sprintf("dispE.Do(%d,%s)", int(d), s) }
func (d dispE) Get(s string) string { return fmt.Sprintf("dispE.Get(%d,%s)", int(d), s) }

type dispF []int

func (d dispF) Run(s string) string { return fmt.Sprintf("dispF.Run(%v,%s)", []int(d), s) }

type dispG map[string]int

func (d dispG) Get(s string) string { return fmt.Sprintf("dispG.Get(%v,%s)", map[string]int(d), s) }

type dispH string

type dispDoer interface{ Do(s string) string }

type dispNs struct{ id string }

func (d dispNs) Do(s string) string          { return d.id + ".Do(" + s + ")" }
func (d dispNs) Get(s string) string         { return d.id + ".Get(" + s + ")" }
func (d *dispNs) Run(s string, n int) string { return fmt.Sprint(d.id, ".Run(", s, n, ")") }

type dispNs2 struct{ id string }

func (d dispNs2) Do(s string) string   { return d.id + "!Do(" + s + ")" }
func (d dispNs2) Info(s string) string { return d.id + "!Info(" + s + ")" }

// dispTyped declares the types of its results
type dispTyped struct{ lie bool }

var dispDeclared = map[string]interface{}{"int": 7, "text": "txt", "list": []string{"p", "q"}, "leaf": Leaf{N: 12}}

func (d dispTyped) Value(name string) (interface{}, error) { return dispDeclared[d.other(name)], nil }

func (d dispTyped) other(name string) string {
	if d.lie {
		return map[string]string{"int": "text", "text": "list", "list": "leaf", "leaf": "int"}[name]
	}
	return name
}

func (d dispTyped) MethodResultType(method string, call *aexpr.Call) (reflect.Type, error) {
	return dispResult(call.Args[len(call.Args)-1].(*aexpr.Literal).Value)
}

func dispResult(name string) (reflect.Type, error) {
	v, ok := dispDeclared[name]
	if !ok {
		return nil, fmt.Errorf("no type %s", name)
	}
	return reflect.TypeOf(v), nil
}

// dispKind is a kind function that declares the types of its results
type dispKind struct {
	kindFn
}

func (d *dispKind) ResultType(receiver reflect.Type, call *aexpr.Call) (reflect.Type, error) {
	return dispResult(call.Args[0].(*aexpr.Literal).Value)
}

var dispTypes = []reflect.Type{
	reflect.TypeOf(dispA{}), reflect.TypeOf(&dispA{}), reflect.TypeOf(dispB{}), reflect.TypeOf(&dispB{}), reflect.TypeOf(dispC{}), reflect.TypeOf(&dispC{}), reflect.TypeOf(dispD{}), reflect.TypeOf(&dispD{}),
	reflect.TypeOf(dispE(0)), reflect.TypeOf(dispF{}), reflect.TypeOf(dispG{}), reflect.TypeOf(dispH("")), tInt, tString, tFloat, tBool, sl(tInt), sl(tString), reflect.MapOf(tString, tInt), reflect.TypeOf(int64(0)), tUint8,
	reflect.TypeOf((*dispDoer)(nil)).Elem(),
}

var dispNames = []string{"Do", "Run", "Get", "Info", "count", "Do2"}

// dispRegistry is what the names of one planner mean
type dispRegistry struct {
	id    string
	mode  map[string]string
	fn    map[string]string                  // of functions and standalone ones
	kinds map[string]map[reflect.Kind]string // of kind functions
	types map[string]map[reflect.Type]string // of type functions
	regs  []func(pl *velty.Planner) error
	ns    map[string]interface{}
	desc  []string
}

func dispShow(v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return fmt.Sprintf("%v", v.Interface())
}

func dispHandler(id string, t reflect.Type) interface{} {
	return reflect.MakeFunc(reflect.FuncOf([]reflect.Type{t, tString}, []reflect.Type{tString}, false), func(in []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.ValueOf(dispResultText(id, in[0], in[1].String()))}
	}).Interface()
}

func dispResultText(id string, recv reflect.Value, s string) string {
	return fmt.Sprintf("%s(%s,%s)", id, dispShow(recv), s)
}

func (h *exprHost) dispRegistry(c *Ctx, id string) *dispRegistry {
	r := &dispRegistry{id: id, mode: map[string]string{}, fn: map[string]string{}, kinds: map[string]map[reflect.Kind]string{}, types: map[string]map[reflect.Type]string{}, ns: map[string]interface{}{}}
	n := 0
	next := func(what string) string { n++; return fmt.Sprintf("%s-%s%d", id, what, n) }
	add := func(f func(pl *velty.Planner) error) { r.regs = append(r.regs, f) }
	for _, name := range dispNames {
		name := name
		mode := pick(h.Rand, "function", "function", "kind", "kind", "type", "type", "standalone", "nothing")
		r.mode[name] = mode
		switch mode {
		case "function":
			first := next("first")
			own := next("fn")
			r.fn[name] = own
			again := h.P(25)
			if again {
				c.Count("registered again", 1)
			}
			add(func(pl *velty.Planner) error {
				if again {
					if err := pl.RegisterFunction(name, dispHandler(first, tAny)); err != nil {
						return err
					}
				}
				return pl.RegisterFunction(name, dispHandler(own, tAny))
			})
		case "standalone":
			own, other := next("alone"), next("other")
			r.fn[name] = own
			twice := h.P(25)
			add(func(pl *velty.Planner) error {
				if err := pl.RegisterStandaloneFunction(name, &op.Function{Handler: dispHandler(own, tAny)}); err != nil || !twice {
					return err
				}
				c.Count("registered twice", 1)
				if pl.RegisterStandaloneFunction(name, &op.Function{Handler: dispHandler(other, tAny)}) == nil {
					return fmt.Errorf("standalone function %s registered twice", name)
				}
				return nil
			})
		case "kind":
			r.kinds[name] = map[reflect.Kind]string{}
			var regs []func(pl *velty.Planner) error
			for k := h.R(1, 3); k > 0; k-- {
				own := next("kind")
				var kinds []reflect.Kind
				for m := h.R(1, 4); m > 0; m-- {
					kind := dispTypes[h.N(len(dispTypes))].Kind()
					if kind == reflect.Interface {
						continue
					}
					if r.kinds[name][kind] != "" {
						if h.P(50) {
							continue
						}
						c.Count("kind registered again", 1)
					}
					r.kinds[name][kind] = own // the last one counts
					kinds = append(kinds, kind)
				}
				regs = append(regs, func(pl *velty.Planner) error {
					return pl.RegisterFunctionKind(name, &kindFn{kinds, dispHandler(own, tAny)})
				})
			}
			add(func(pl *velty.Planner) error {
				for _, reg := range regs {
					if err := reg(pl); err != nil {
						return err
					}
				}
				return nil
			})
		case "type":
			r.types[name] = map[reflect.Type]string{}
			for k := h.R(1, 5); k > 0; k-- {
				own, other := next("type"), next("other")
				t := dispTypes[h.N(len(dispTypes))]
				if t.Kind() == reflect.Interface || r.types[name][t] != "" {
					continue
				}
				if _, ok := t.MethodByName(name); ok {
					continue
				}
				r.types[name][t] = own
				param := tAny
				if h.P(50) {
					param = t
				}
				twice := h.P(20)
				add(func(pl *velty.Planner) error {
					if err := pl.RegisterTypeFunc(t, &op.TypeFunc{Name: name, Handler: dispHandler(own, param), ResultType: tString}); err != nil || !twice {
						return err
					}
					c.Count("registered twice", 1)
					if pl.RegisterTypeFunc(t, &op.TypeFunc{Name: name, Handler: dispHandler(other, param), ResultType: tString}) == nil {
						return fmt.Errorf("type function %s of %v registered twice", name, t)
					}
					return nil
				})
			}
		}
		r.desc = append(r.desc, fmt.Sprint(name, ": ", mode, " ", r.fn[name], r.kinds[name], r.types[name]))
	}
	for _, ns := range []string{"tools", "extra", "typed"} {
		ns := ns
		if !h.P(75) {
			continue
		}
		v := pick[interface{}](h.Rand, dispNs{id + ns}, &dispNs{id + ns}, dispNs2{id + ns})
		if ns == "typed" {
			v = dispTyped{lie: h.P(15)}
		}
		r.ns[ns] = v
		twice := h.P(20)
		add(func(pl *velty.Planner) error {
			if err := pl.RegisterFuncNs(ns, v); err != nil || !twice {
				return err
			}
			c.Count("registered twice", 1)
			if pl.RegisterFuncNs(ns, dispNs2{"wrong"}) == nil {
				return fmt.Errorf("namespace %s registered twice", ns)
			}
			return nil
		})
		r.desc = append(r.desc, fmt.Sprintf("%s: %T%v", ns, v, v))
	}
	// results of a declared type, under names of their own
	add(func(pl *velty.Planner) error {
		return pl.RegisterStandaloneFunction("declared", &op.Function{Handler: func(n int, name string) (interface{}, error) { return dispDeclared[name], nil },
			ResultTyper: func(call *aexpr.Call) (reflect.Type, error) {
				return dispResult(call.Args[len(call.Args)-1].(*aexpr.Literal).Value)
			}})
	})
	add(func(pl *velty.Planner) error {
		return pl.RegisterFunctionKind("declaredKind", &dispKind{kindFn{[]reflect.Kind{reflect.Int, reflect.Struct}, func(recv interface{}, name string) (interface{}, error) { return dispDeclared[name], nil }}})
	})
	for i := range r.regs {
		j := i + h.N(len(r.regs)-i)
		r.regs[i], r.regs[j] = r.regs[j], r.regs[i]
	}
	return r
}

// dispValue makes a value of the type
func (h *exprHost) dispValue(t reflect.Type) reflect.Value {
	n := h.R(-9, 99)
	v := reflect.New(t).Elem()
	switch t {
	case reflect.TypeOf(dispA{}):
		v.Set(value(dispA{n}))
	case reflect.TypeOf(&dispA{}):
		v.Set(value(&dispA{n}))
	case reflect.TypeOf(dispB{}):
		v.Set(value(dispB{"p", n}))
	case reflect.TypeOf(&dispB{}):
		v.Set(value(&dispB{"p", n}))
	case reflect.TypeOf(dispC{}):
		v.Set(value(dispC{true, dispA{n}}))
	case reflect.TypeOf(&dispC{}):
		v.Set(value(&dispC{true, dispA{n}}))
	case reflect.TypeOf(dispD{}):
		v.Set(value(dispD{n}))
	case reflect.TypeOf(&dispD{}):
		v.Set(value(&dispD{n}))
	default:
		switch t.Kind() {
		case reflect.Interface:
			v.Set(value(pick[interface{}](h.Rand, dispA{n}, &dispA{n}, dispB{"q", n}, &dispC{false, dispA{n}}, dispE(n))))
		case reflect.Slice:
			if t.Elem() == tString {
				v.Set(value([]string{"x", h.word(2)}))
			} else {
				v.Set(value([]int{n, 2}).Convert(t))
			}
		case reflect.Map:
			v.Set(value(map[string]int{"k": n}).Convert(t))
		case reflect.String:
			v.SetString(h.word(4))
		case reflect.Bool:
			v.SetBool(n > 0)
		case reflect.Float64:
			v.SetFloat(float64(n) / 2)
		default:
			v.Set(value(max(n, -n)).Convert(t))
		}
	}
	return v
}

// resolve says what the name of a receiver means, "" if nothing
func (r *dispRegistry) resolve(c *Ctx, v reflect.Value, name, s string) (string, bool) {
	t := v.Type()
	if m, ok := t.MethodByName(name); ok {
		switch {
		case t.Kind() == reflect.Interface:
			c.Count("method of an interface", 1)
		case strings.HasSuffix(t.String(), "dispC") && name != "Run":
			c.Count("promoted method", 1)
		default:
			c.Count("method", 1)
		}
		_ = m
		return v.MethodByName(name).Call(vals(s))[0].String(), true
	}
	switch r.mode[name] {
	case "function":
		c.Count("function", 1)
		return dispResultText(r.fn[name], v, s), true
	case "kind":
		if id := r.kinds[name][t.Kind()]; id != "" {
			c.Count("kind function", 1)
			return dispResultText(id, v, s), true
		}
	case "type":
		if id := r.types[name][t]; id != "" {
			c.Count("type function", 1)
			return dispResultText(id, v, s), true
		}
	}
	return "", false
}

func caseDispatch(c *Ctx) {
	type plan struct {
		h       *exprHost
		r       *dispRegistry
		src     string
		want    string
		rejects []string // templates that call what isn't there
		fails   bool
		child   int
	}
	plans := make([]*plan, c.R(2, 3))
	var desc []string
	for i := range plans {
		h := &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}
		p := &plan{h: h, child: c.N(3)}
		p.r = h.dispRegistry(c, string(rune('A'+i)))
		var src, want strings.Builder
		for n := c.R(2, 6); n > 0; n-- {
			name := dispNames[c.N(len(dispNames))]
			arg := strings.Map(func(r rune) rune {
				if strings.ContainsRune("\"\\\t\n\r", r) {
					return 95
				}
				return r
			}, c.word(3))
			quoted := `"` + arg + `"`
			switch k := c.N(10); {
			case k < 6: // on a receiver
				t := dispTypes[c.N(len(dispTypes))]
				if ids := p.r.types[name]; len(ids) > 0 && c.P(60) { // one that has a function
					var ts []reflect.Type
					for _, t := range dispTypes {
						if ids[t] != "" {
							ts = append(ts, t)
						}
					}
					t = ts[c.N(len(ts))]
				}
				if p := reflect.PtrTo(t); t.Kind() != reflect.Interface {
					if _, has := t.MethodByName(name); !has {
						if _, has = p.MethodByName(name); has { // a method of the pointer only
							continue
						}
					}
				}
				v := h.dispValue(t)
				text, found := p.r.resolve(c, v, name, arg)
				o := &exprOperand{t: t, v: v}
				for {
					h.place(o)
					if isReceiver(o.src, o.t) {
						break
					}
				}
				call := o.src + "." + name + "(" + quoted + ")"
				if !found {
					c.Count("nothing to call", 1)
					p.rejects = append(p.rejects, call)
					continue
				}
				if c.P(25) { // on its result
					next := pick(c.Rand, dispNames...)
					if more, ok := p.r.resolve(c, value(text), next, "z"); ok {
						call, text = call+"."+next+`("z")`, more
					}
				}
				src.WriteString("${" + call[1:] + "}|")
				want.WriteString(text + "|")
			case k < 8: // alone
				v := h.dispValue(pick(c.Rand, tInt, tString, reflect.TypeOf(dispB{}), reflect.TypeOf(&dispD{})))
				call := "$" + name + "($" + h.add(v) + ", " + quoted + ")"
				if id := p.r.fn[name]; id != "" {
					if p.r.mode[name] == "function" {
						c.Count("function alone", 1)
					} else {
						c.Count("standalone function", 1)
					}
					src.WriteString("${" + call[1:] + "}|")
					want.WriteString(dispResultText(id, v, arg) + "|")
				} else {
					c.Count("undefined call", 1)
					src.WriteString(call + "|")
					want.WriteString(call + "|")
				}
			case k < 9:
				ns := pick(c.Rand, "tools", "extra")
				call, text := "$"+ns+"."+name+"("+quoted+")", ""
				v, ok := p.r.ns[ns]
				if !ok {
					continue
				}
				m := reflect.ValueOf(v).MethodByName(name)
				switch {
				case !m.IsValid():
					if pm := reflect.PtrTo(reflect.TypeOf(v)); true {
						if _, has := pm.MethodByName(name); has || p.r.mode[name] != "nothing" && p.r.mode[name] != "standalone" {
							continue
						}
					}
					c.Count("nothing to call", 1)
					p.rejects = append(p.rejects, call)
					continue
				case m.Type().NumIn() == 2:
					call = "$" + ns + "." + name + "(" + quoted + ", 5)"
					text = m.Call(vals(arg, 5))[0].String()
				default:
					text = m.Call(vals(arg))[0].String()
				}
				c.Count("namespace", 1)
				src.WriteString("${" + call[1:] + "}|")
				want.WriteString(text + "|")
			default: // of a declared type
				kind := pick(c.Rand, "int", "text", "list", "leaf")
				call := ""
				switch v, ok := p.r.ns["typed"]; {
				case ok && c.P(40):
					call = "typed.Value(\"" + kind + "\")"
					if v.(dispTyped).lie {
						c.Count("unexpected result", 1)
						p.fails = true
					}
				case c.P(50):
					call = fmt.Sprintf("declared(%d, \"%s\")", c.N(9), kind)
				default:
					t := pick(c.Rand, tInt, reflect.TypeOf(dispD{}), reflect.TypeOf(dispE(0)))
					call = h.add(h.dispValue(t)) + ".declaredKind(\"" + kind + "\")"
				}
				c.Count("declared result", 1)
				switch kind {
				case "int":
					src.WriteString("#set($sum = $" + call + " + 3)$sum|")
					want.WriteString("10|")
				case "text":
					src.WriteString("#set($text = $" + call + " + \"!\")$text|")
					want.WriteString("txt!|")
				case "list":
					if c.P(50) {
						src.WriteString("#foreach($el in $" + call + ")<$el>#end|")
						want.WriteString("<p><q>|")
					} else {
						src.WriteString("${" + call + "[1]}|")
						want.WriteString("q|")
					}
				case "leaf":
					src.WriteString("${" + call + ".N}|")
					want.WriteString("12|")
				}
			}
		}
		p.src, p.want = h.prefix+src.String(), want.String()
		plans[i] = p
		hosts := map[string]reflect.Value{}
		for _, n := range h.names {
			hosts[n] = h.values[n]
		}
		desc = append(desc, fmt.Sprintf("planner %s: %s\nrejected %q\n%s\n%s", p.r.id, p.src, p.rejects, describeHosts(hosts, p.src), strings.Join(p.r.desc, "\n")))
	}
	c.Desc("%s", strings.Join(desc, "\n"))
	// the planners take turns
	planners := make([]*velty.Planner, len(plans))
	parents := make([]*velty.Planner, len(plans))
	define := func(pl *velty.Planner, h *exprHost) error {
		for _, n := range h.names {
			if err := pl.DefineVariable(n, h.values[n].Type()); err != nil {
				return err
			}
		}
		return nil
	}
	order := []int{}
	for i, p := range plans {
		for range p.r.regs {
			order = append(order, i)
		}
	}
	for i := range order {
		j := i + c.N(len(order)-i)
		order[i], order[j] = order[j], order[i]
	}
	var err error
	at := ""
	panicked, stack := guard(func() {
		for i, p := range plans {
			parents[i] = velty.New()
			planners[i] = parents[i]
			for _, n := range sortedKeys(p.h.fns) {
				if err = parents[i].RegisterFunction(n, p.h.fns[n]); err != nil {
					return
				}
			}
			if p.child == 1 { // derived first, functions are shared
				planners[i] = parents[i].New()
				c.Count("derived planner", 1)
			}
		}
		done := make([]int, len(plans))
		for _, i := range order {
			p := plans[i]
			pl := parents[i]
			if c.P(30) {
				pl = planners[i]
			}
			if err = p.r.regs[done[i]](pl); err != nil {
				at = "registration"
				return
			}
			done[i]++
		}
		for i, p := range plans {
			if p.child == 2 {
				planners[i] = parents[i].New()
				c.Count("derived planner", 1)
			}
			if err = define(planners[i], p.h); err != nil {
				at = "definition"
				return
			}
		}
	})
	if panicked != nil || err != nil {
		c.Violate("setup "+at, "%v %v at %s", err, panicked, stack)
		return
	}
	for i, p := range plans {
		out := ""
		stage := "compile"
		panicked, stack := guard(func() {
			for _, call := range p.rejects {
				if _, _, rerr := planners[i].Compile([]byte(p.h.prefix + "${" + call[1:] + "}")); rerr == nil {
					c.Violate("compiled", "planner %s: %s has nothing to call", p.r.id, call)
					return
				}
			}
			exec, newState, cerr := planners[i].Compile([]byte(p.src))
			if err = cerr; err != nil {
				return
			}
			stage = "execution"
			st := newState()
			for _, n := range p.h.names {
				if err = st.SetValue(n, p.h.values[n].Interface()); err != nil {
					return
				}
			}
			err = exec.Exec(st)
			out = st.Buffer.String()
		})
		switch {
		case panicked != nil:
			c.Violate("panic in "+stage, "planner %s: %v at %s", p.r.id, panicked, stack)
			return
		case p.fails:
			if err == nil {
				c.Violate("no error", "planner %s: a result is not of the type declared", p.r.id)
				return
			}
			err = nil
			continue
		case err != nil:
			c.Violate("error in "+stage, "planner %s: %v", p.r.id, err)
			return
		case out != p.want:
			c.Violate("called", "planner %s: %s\nwant %q\ngot  %q", p.r.id, firstDiff(p.want, out), p.want, out)
			return
		}
	}
	sort.Strings(desc)
	c.Saw(strings.Join(desc, ""))
	c.Sample("%s => %s", plans[0].src, plans[0].want)
}

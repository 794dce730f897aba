package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
)

// C05: control flow. Blocks run exactly as often, in the order and with the values the directives define,
// conditions, lists and calls are evaluated exactly once per use. What happened is observed by recording functions.

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "a case is a random nest of #if/#elseif/#else, #foreach (ranges, variables, fields, function results; ten element types) and #for whose conditions, lists and bodies call recording functions; the recorded trace and the output have to be those of the reference; distinct by the recorded trace",
		Plans: []Plan{
			{Variant: "plain", Quick: 16000, Thorough: 1000000},
			{Variant: "checkptr", Quick: 1600, Thorough: 100000},
		},
		Case: caseLoop,
		Min:  []string{"recorded call", "branch taken", "else taken", "foreach iteration", "for iteration", "operation on recorded calls", "list reassigned while iterated"},
	})
}

type traceHost struct {
	log    []string
	on     bool
	values []bool
}

func (h *traceHost) record(name string, args ...interface{}) {
	if h.on {
		h.log = append(h.log, fmt.Sprintf("%s%v", name, args))
	}
}

// traceFuncs are functions that record their calls, with what the reference interpreter calls instead
func (h *traceHost) traceFuncs(verdicts []bool) map[string]*testFunc {
	fs := map[string]*testFunc{}
	add := func(name string, fn, pure interface{}) {
		fs[name] = &testFunc{name: name, fn: fn, pure: pure, records: true}
	}
	add("recI", func(id, v int) string { h.record("recI", id, v); return "<" + strconv.Itoa(v) + ">" }, func(id, v int) string { return "<" + strconv.Itoa(v) + ">" })
	add("recS", func(id int, v string) string { h.record("recS", id, v); return v }, func(id int, v string) string { return v })
	add("recF", func(id int, v float64) string { h.record("recF", id, v); return "f" }, func(id int, v float64) string { return "f" })
	add("recB", func(id int, v bool) string { h.record("recB", id, v); return "b" }, func(id int, v bool) string { return "b" })
	add("recL", func(id int, v Leaf) string { h.record("recL", id, v); return v.T }, func(id int, v Leaf) string { return v.T })
	add("test", func(id, k int) bool { h.record("test", id, k); return verdict(verdicts, id, k) }, func(id, k int) bool { return verdict(verdicts, id, k) })
	add("list", func(id, n int) []int { h.record("list", id, n); return upTo(id, n) }, func(id, n int) []int { return upTo(id, n) })
	add("words", func(id, n int) []string { h.record("words", id, n); return wordsTo(id, n) }, func(id, n int) []string { return wordsTo(id, n) })
	add("numF", func(id, n int) float64 { h.record("numF", id, n); return float64(n) / 4 }, func(id, n int) float64 { return float64(n) / 4 })
	add("numS", func(id, n int) string { h.record("numS", id, n); return strconv.Itoa(n) }, func(id, n int) string { return strconv.Itoa(n) })
	add("num8", func(id, n int) int8 { h.record("num8", id, n); return int8(n) }, func(id, n int) int8 { return int8(n) })
	add("num", func(id, n int) int { h.record("num", id, n); return n }, func(id, n int) int { return n })
	return fs
}

func verdict(vs []bool, id, k int) bool {
	i := (id*7 + k*3) % len(vs)
	if i < 0 {
		i += len(vs)
	}
	return vs[i]
}

func upTo(id, n int) []int {
	n = clamp(n)
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, id*10+i)
	}
	return l
}

func wordsTo(id, n int) []string {
	n = clamp(n)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("w%d.%d", id, i))
	}
	return l
}

func clamp(n int) int {
	if n < 0 {
		n = -(n + 1)
	}
	return n % 4
}

type loopGen struct {
	*Rand
	id     int
	hosts  map[string]reflect.Value
	ints   []string // int variables in scope
	others []struct {
		name string
		t    reflect.Type
	}
	fresh  int
	frozen map[string]bool
	stats  map[string]int
	budget int

	failing  bool // functions may fail, see C15
	evalSrcs map[string]string
}

func (g *loopGen) nextID() *Lit { g.id++; return intLit(g.id) }

func intRef(name string) *Path { return &Path{Root: name, T: tInt} }

func callPath(name string, t reflect.Type, args ...Expr) *Path {
	return &Path{Root: name, Call: &CallArgs{Args: args}, T: t}
}

func (g *loopGen) anyInt() Expr {
	if len(g.ints) > 0 && g.P(75) {
		return intRef(g.ints[g.N(len(g.ints))])
	}
	return intLit(g.R(-3, 9))
}

func (g *loopGen) cond() Expr {
	switch g.N(6) {
	case 0, 1, 2:
		return callPath("test", tBool, g.nextID(), g.anyInt())
	case 3:
		return &Bin{Op: pick(g.Rand, "<", "<=", ">", ">=", "==", "!="), X: callPath("num", tInt, g.nextID(), g.anyInt()), Y: g.anyInt()}
	case 4:
		return &Bin{Op: pick(g.Rand, "&&", "||"), X: g.cond(), Y: g.cond()}
	default:
		return &Not{X: callPath("test", tBool, g.nextID(), g.anyInt())}
	}
}

// recorded is an operation whose operands are recorded calls
func (g *loopGen) recorded() Stmt {
	g.stats["operation on recorded calls"]++
	call := func(name string, t reflect.Type, e Expr) Expr { return callPath(name, t, g.nextID(), e) }
	num := func(float bool, nonZero bool) Expr {
		e := g.anyInt()
		if nonZero {
			e = intLit(pick(g.Rand, 1, 2, 4, -3, 8))
		}
		if float {
			return call("numF", tFloat, e)
		}
		return call("num", tInt, e)
	}
	switch g.N(5) {
	case 0: // text
		var e Expr = call("numS", tString, g.anyInt())
		for n := g.R(1, 3); n > 0; n-- {
			e = &Bin{Op: "+", X: e, Y: pick(g.Rand, call("numS", tString, g.anyInt()), num(false, false))}
		}
		return &Out{P: callPath("recS", tString, g.nextID(), e)}
	case 1: // comparison
		op := pick(g.Rand, "<", "<=", ">", ">=", "==", "!=")
		var e Expr
		switch g.N(4) {
		case 0:
			e = &Bin{Op: pick(g.Rand, "==", "!="), X: call("numS", tString, g.anyInt()), Y: call("numS", tString, g.anyInt())}
		case 1:
			e = &Bin{Op: pick(g.Rand, "==", "!=", "&&", "||"), X: callPath("test", tBool, g.nextID(), g.anyInt()), Y: callPath("test", tBool, g.nextID(), g.anyInt())}
		case 2:
			e = &Bin{Op: op, X: call("num8", tInt8, g.anyInt()), Y: num(g.P(50), false)}
		default:
			e = &Bin{Op: op, X: num(g.P(50), false), Y: num(g.P(50), false)}
		}
		return &Out{P: callPath("recB", tString, g.nextID(), e)}
	default: // arithmetic
		float := g.P(50)
		x := num(float, false)
		for n := g.R(1, 3); n > 0; n-- {
			op := pick(g.Rand, "*", "/", "/")
			if g.failing && op == "/" && !float { // a failing divisor is zero
				op = "*"
			}
			x = &Bin{Op: op, X: x, Y: num(float && g.P(60), op == "/")}
		}
		if g.P(50) {
			x = &Bin{Op: pick(g.Rand, "+", "-"), X: num(float, false), Y: x}
		} else if g.P(50) {
			x = &Bin{Op: pick(g.Rand, "+", "-"), X: x, Y: num(float, false)}
		}
		if float {
			return &Out{P: callPath("recF", tString, g.nextID(), x)}
		}
		return &Out{P: callPath("recI", tString, g.nextID(), x)}
	}
}

var tInt8 = reflect.TypeOf(int8(0))

func (g *loopGen) record() Stmt {
	if g.P(25) {
		return g.recorded()
	}
	if g.failing {
		switch g.N(8) {
		case 0: // the outer call depends on the inner one
			return &Out{P: callPath("recS", tString, g.nextID(), callPath("recI", tString, g.nextID(), g.anyInt()))}
		case 1: // on a receiver
			return &Out{P: &Path{Root: pick(g.Rand, "a", "b"), Steps: []Step{{Field: "num", Call: &CallArgs{Args: []Expr{g.nextID()}}, Out: tInt}}, T: tInt}}
		case 2:
			return &Out{P: &Path{Root: "hs", Steps: []Step{{Field: "Check", Call: &CallArgs{Args: []Expr{g.nextID(), g.anyInt()}}, Out: tString}}, T: tString}}
		}
	}
	if len(g.others) > 0 && g.P(50) {
		o := g.others[g.N(len(g.others))]
		me := &Path{Root: o.name, T: o.t}
		switch o.t {
		case tString:
			return &Out{P: callPath("recS", tString, g.nextID(), me)}
		case tFloat:
			return &Out{P: callPath("recF", tString, g.nextID(), me)}
		case tBool:
			return &Out{P: callPath("recB", tString, g.nextID(), me)}
		case tLeaf:
			return &Out{P: callPath("recL", tString, g.nextID(), me)}
		case reflect.PtrTo(tLeaf):
			return &Out{P: callPath("recI", tString, g.nextID(), &Path{Root: o.name, Steps: []Step{{Field: "N", Out: tInt}}, T: tInt})}
		default:
			return &Out{P: me}
		}
	}
	return &Out{P: callPath("recI", tString, g.nextID(), g.anyInt())}
}

func (g *loopGen) block(depth int) []Stmt {
	var out []Stmt
	for n := g.R(1, 4); n > 0 && g.budget > 0; n-- {
		g.budget--
		out = append(out, g.stmt(depth))
	}
	return out
}

func (g *loopGen) name(p string) string { g.fresh++; return p + strconv.Itoa(g.fresh) }

var loopLists = map[string]reflect.Type{
	"li": reflect.SliceOf(tInt), "ls": reflect.SliceOf(tString), "lf": reflect.SliceOf(tFloat), "lb": reflect.SliceOf(tBool),
	"ll": reflect.SliceOf(tLeaf), "lp": reflect.SliceOf(reflect.PtrTo(tLeaf)), "l2": reflect.SliceOf(reflect.SliceOf(tInt)),
	"l8": reflect.SliceOf(reflect.TypeOf(int8(0))), "lu": reflect.SliceOf(reflect.TypeOf(uint16(0))), "lm": reflect.SliceOf(reflect.MapOf(tString, tInt)),
	"la": reflect.SliceOf(tAny), "lj": reflect.SliceOf(tInt), "lv": reflect.SliceOf(reflect.TypeOf(rPair{})),
}

func (g *loopGen) stmt(depth int) Stmt {
	k := g.N(100)
	switch {
	case k < 30 || depth == 0:
		return g.record()
	case k < 35:
		return &Text{S: pick(g.Rand, "-", " ", ".", "\n", ";")}
	case k < 42:
		name := pick(g.Rand, "a", "b")
		return &Set{Target: intRef(name), E: &Bin{Op: "+", X: intRef(name), Y: callPath("num", tInt, g.nextID(), intLit(g.R(1, 3)))}}
	case k < 46:
		g.stats["list reassigned while iterated"]++
		return &Set{Target: &Path{Root: "li", T: reflect.SliceOf(tInt)}, E: &Path{Root: "lj", T: reflect.SliceOf(tInt)}}
	case k < 52 && g.failing:
		ni, no := len(g.ints), len(g.others)
		body := g.block(depth - 1)
		g.ints, g.others = g.ints[:ni], g.others[:no]
		name := g.name("tpl")
		g.evalSrcs[name] = source(g.Rand, body)
		return &Eval{P: &Path{Root: name, T: tString}, Body: body, Src: g.evalSrcs[name]}
	case k < 66:
		s := &If{}
		for n := g.R(1, 4); n > 0; n-- {
			s.Conds = append(s.Conds, g.cond())
			s.Blocks = append(s.Blocks, g.block(depth-1))
		}
		if g.P(50) {
			s.HasElse = true
			s.Else = g.block(depth - 1)
		}
		return s
	case k < 86:
		e := &Each{Item: g.name("e")}
		t := tInt
		switch g.N(8) {
		case 0:
			e.RangeOp = true
			e.A = g.R(-4, 6)
			e.B = e.A + g.R(-5, 5)
		case 1:
			e.List = callPath("list", reflect.SliceOf(tInt), g.nextID(), g.anyInt())
		case 2:
			e.List = callPath("words", reflect.SliceOf(tString), g.nextID(), g.anyInt())
			t = tString
		case 3:
			e.List = &Path{Root: "hs", Steps: []Step{{Field: "Leafs", Out: reflect.SliceOf(tLeaf)}}, T: reflect.SliceOf(tLeaf)}
			t = tLeaf
		case 4:
			if len(g.others) > 0 {
				for _, o := range g.others {
					if o.t == reflect.SliceOf(tInt) {
						e.List = &Path{Root: o.name, T: o.t}
					}
				}
			}
		}
		if !e.RangeOp && e.List == nil {
			names := sortedKeys(loopLists)
			name := names[g.N(len(names))]
			if g.P(25) {
				name = "li"
			}
			e.List = &Path{Root: name, T: loopLists[name]}
			t = loopLists[name].Elem()
		}
		if t == tInt {
			g.ints = append(g.ints, e.Item)
		} else {
			g.others = append(g.others, struct {
				name string
				t    reflect.Type
			}{e.Item, t})
		}
		ni, no := len(g.ints), len(g.others)
		e.Body = append([]Stmt{g.recordOf(e.Item, t)}, g.block(depth-1)...)
		g.ints, g.others = g.ints[:min(ni, len(g.ints))], g.others[:min(no, len(g.others))]
		if t != tInt { // what the last item leads to may be nil when there was none
			g.others = g.others[:no-1]
		}
		return e
	default:
		f := &For{Var: g.name("k")}
		me := intRef(f.Var)
		n := g.R(0, 4)
		num := func(i int) Expr { return callPath("num", tInt, g.nextID(), intLit(i)) }
		switch g.N(6) {
		case 0:
			f.Init, f.Cond, f.Post = num(n), &Bin{Op: ">", X: me, Y: num(0)}, "--"
		case 1:
			f.Init, f.Cond, f.Post, f.Y = num(0), &Bin{Op: "<", X: me, Y: num(n * 2)}, "+=", num(2)
		case 2:
			f.Init, f.Cond, f.Post, f.Y = intLit(1), &Bin{Op: "<=", X: me, Y: num(n * 10)}, "*=", intLit(g.R(2, 4))
		case 3:
			f.Init, f.Cond, f.Post, f.Y = num(n*7), me, "/=", intLit(g.R(2, 3))
		case 4:
			f.Init, f.Cond, f.Post, f.Y = intLit(n), &Bin{Op: "!=", X: num(n - 3), Y: me}, "-=", intLit(1)
		default:
			f.Init, f.Cond, f.Post = intLit(-n), &Bin{Op: "&&", X: &Bin{Op: "<", X: me, Y: num(g.R(0, 3))}, Y: callPath("test", tBool, g.nextID(), me)}, "++"
		}
		g.ints = append(g.ints, f.Var)
		f.Body = append([]Stmt{g.recordOf(f.Var, tInt)}, g.block(depth-1)...)
		return f
	}
}

func (g *loopGen) recordOf(name string, t reflect.Type) Stmt {
	me := &Path{Root: name, T: t}
	switch t {
	case tInt:
		return &Out{P: callPath("recI", tString, g.nextID(), me)}
	case tString:
		return &Out{P: callPath("recS", tString, g.nextID(), me)}
	case tLeaf:
		return &Out{P: callPath("recL", tString, g.nextID(), me)}
	}
	return &Out{P: me, Braces: true}
}

func caseLoop(c *Ctx) {
	h := &traceHost{}
	verdicts := make([]bool, c.R(3, 11))
	for i := range verdicts {
		verdicts[i] = c.P(55)
	}
	g := &loopGen{Rand: c.Rand, hosts: map[string]reflect.Value{}, stats: map[string]int{}, budget: 40}
	for _, name := range sortedKeys(loopLists) {
		t := loopLists[name]
		v := reflect.New(t).Elem()
		if n := c.R(-1, 5); n >= 0 { // nil, empty, or up to 5 items
			v.Set(reflect.MakeSlice(t, n, n+c.N(3)))
			for i := 0; i < n; i++ {
				c.fill(v.Index(i), 2)
			}
		}
		g.hosts[name] = v
	}
	hs := reflect.New(tHost).Elem()
	c.fill(hs, 0)
	g.hosts["hs"] = hs
	for _, n := range []string{"a", "b"} {
		v := reflect.New(tInt).Elem()
		v.SetInt(int64(c.R(-2, 5)))
		g.hosts[n] = v
		g.ints = append(g.ints, n)
	}
	p := &Program{Fns: h.traceFuncs(verdicts), Hosts: g.hosts}
	p.Body = g.block(3)
	for c.P(60) && g.budget > 0 {
		p.Body = append(p.Body, g.block(3)...)
	}
	p.Src = source(c.Rand, p.Body)
	c.Desc("template: %s\n%s verdicts %v", p.Src, describeHosts(p.Hosts, p.Src), verdicts)
	ref, _, ok, failure := p.reference(false)
	if !ok || failure != "" {
		c.Count("too long, skipped", 1)
		return
	}
	var out string
	var err error
	panicked, stack := guard(func() {
		cp, cerr := p.compile(velty.BufferSize(16))
		if err = cerr; err != nil {
			return
		}
		st := cp.state()
		if err = fillState(st, copyHosts(p.Hosts)); err != nil {
			return
		}
		h.on = true
		err = cp.exec.Exec(st)
		h.on = false
		out = st.Buffer.String()
	})
	if panicked != nil {
		c.Violate("panic", "%v at %s", panicked, stack)
		return
	}
	if err != nil {
		c.Violate("error", "%v", err)
		return
	}
	want, got := strings.Join(ref.log, "\n"), strings.Join(h.log, "\n")
	if want != got {
		c.Violate("trace", "%s", firstDiff(want, got))
		return
	}
	if w := ref.out.String(); w != out {
		c.Violate("output", "%s", firstDiff(w, out))
		return
	}
	c.Count("recorded call", len(ref.log))
	for k, n := range g.stats {
		c.Count(k, n)
	}
	for k, n := range ref.stats {
		if strings.Contains(k, "iteration") || strings.Contains(k, "taken") || strings.Contains(k, "skipped") {
			c.Count(k, n)
		}
	}
	if len(ref.log) > 0 {
		c.Saw(want)
	}
	c.Sample("%s => %s", p.Src, clip(strings.ReplaceAll(want, "\n", " "), 300))
}

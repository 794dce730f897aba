package main

import (
	"reflect"
	"strings"

	"github.com/viant/velty"
)

// C21: a template that is not well typed is rejected, wherever its error is; a call that does not fit fails when it is executed

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "a case is a generated well-typed template with one ill-typed piece (reference, operation, assignment, list, condition, call) put at a random place of it, within further expressions, arguments and indices: it must not compile, whether the place is ever executed or not, and the planner has to compile and render the template without the piece afterwards as the reference does; or with a call the arguments of which do not fit: Exec has to return an error if, and only if, the call is executed; distinct by template",
		Plans: []Plan{
			{Variant: "plain", Quick: 50000, Thorough: 1500000},
			{Variant: "checkptr", Quick: 5000, Thorough: 100000},
		},
		Case: caseReject,
		Min: []string{"unknown field", "field of a scalar", "index of a scalar", "undefined variable", "literal out of range", "operands", "operand of !", "unknown function", "unknown method", "index of a wrong type", "assignment", "assigned place", "list", "evaluated value", "loop variable", "left over",
			"in a condition", "in an assigned value", "in an argument", "in an index", "in an operand", "in a list", "in a loop head", "rendered", "within blocks", "call executed", "call not executed", "compiled afterwards"},
	})
}

// Bad is the ill-typed piece
type Bad struct {
	Src     string
	Reached func() // called by the interpreter
}

func (g *Gen) kindRef(depth int, kinds ...reflect.Kind) *Path {
	return g.ref(func(t reflect.Type) bool {
		for _, k := range kinds {
			if t.Kind() == k {
				return true
			}
		}
		return false
	}, false, depth)
}

func (g *Gen) src(e Expr) string { return (&Emitter{r: g.Rand}).expr(e) }

var numbersAnd = []reflect.Kind{reflect.Int, reflect.Float64}

// badExpr is the source of an expression that does not type
func (g *Gen) badExpr(c *Ctx) (src string, ref bool) {
	for {
		d := g.R(0, 3)
		switch g.N(10) {
		case 9:
			c.Count("literal out of range", 1)
			return pick(g.Rand, "9223372036854775808", "99999999999999999999", "18446744073709551616", "1"+strings.Repeat("0", g.R(19, 60))), false
		case 0:
			if p := g.kindRef(d, reflect.Struct); p != nil {
				c.Count("unknown field", 1)
				return g.src(p) + "." + pick(g.Rand, "Nope", "n", "a", "AA", "Tags2", "Inn"), true
			}
		case 1:
			if p := g.kindRef(d, reflect.Int, reflect.String, reflect.Bool, reflect.Float64, reflect.Slice); p != nil {
				c.Count("field of a scalar", 1)
				return g.src(p) + "." + pick(g.Rand, "Nope", "A", "N"), true
			}
		case 2:
			if p := g.kindRef(d, reflect.Int, reflect.String, reflect.Bool, reflect.Float64, reflect.Struct); p != nil {
				c.Count("index of a scalar", 1)
				return g.src(p) + "[" + g.src(g.expr(tInt, 1)) + "]", true
			}
		case 3:
			c.Count("undefined variable", 1)
			return "$" + pick(g.Rand, "undef9", "undef9.A", "undef9[0]", "N", "H.A", "undef9.A.B"), false
		case 4:
			var x, y Expr
			var op string
			switch g.N(8) {
			case 0:
				x, y, op = orNil(g.kindRef(d, reflect.Slice, reflect.Struct)), g.expr(tInt, 1), pick(g.Rand, "==", "!=", "+", "*", "<")
			case 1:
				x, y, op = g.expr(tInt, 1), orNil(g.kindRef(d, reflect.Slice, reflect.Struct)), pick(g.Rand, "-", "==", "/", ">")
			case 2:
				x, y, op = g.expr(tBool, 1), g.expr(tBool, 1), pick(g.Rand, "+", "-", "*", "/", "<", ">=")
			case 3:
				x, y, op = g.expr(tString, 1), g.expr(tString, 1), pick(g.Rand, "-", "*", "/", "<", "&&", "||")
			case 4:
				x, y, op = g.expr(tBool, 1), g.expr(tString, 1), pick(g.Rand, "&&", "||")
			case 5:
				x, y, op = g.expr(tFloat, 1), g.expr(tBool, 1), pick(g.Rand, "&&", "||", "+", "*")
			case 6:
				if p := g.kindRef(d, reflect.Struct, reflect.Map); p != nil {
					x, y, op = p, p, pick(g.Rand, "==", "!=", "+", "&&")
				}
			case 7:
				x, y, op = orNil(g.kindRef(d, reflect.Map)), g.expr(pick(g.Rand, tInt, tString), 1), pick(g.Rand, "==", "-", "*")
			}
			if x != nil && y != nil {
				c.Count("operands", 1)
				return "(" + g.src(&Bin{Op: op, X: x, Y: y}) + ")", false
			}
		case 5:
			c.Count("operand of !", 1)
			return "!" + (&Emitter{r: g.Rand}).operand(g.expr(pick(g.Rand, tInt, tString, tFloat), 1), 6, false), false
		case 6:
			c.Count("unknown function", 1)
			return pick(g.Rand, "$zap", "$Inc", "$strings.Nope", "$nope.ToUpper", "$math.floor") + "(" + g.src(g.expr(tInt, 1)) + ")", false
		case 7:
			if p := g.kindRef(d, reflect.Struct, reflect.Int, reflect.String); p != nil {
				c.Count("unknown method", 1)
				return g.src(p) + "." + pick(g.Rand, "Zap", "label", "Inc") + "(" + pick(g.Rand, "", g.src(g.expr(tInt, 1))) + ")", true
			}
		case 8:
			p, k := g.kindRef(d, reflect.Slice), g.kindRef(d, reflect.Slice, reflect.Struct, reflect.Map)
			if p != nil && k != nil {
				c.Count("index of a wrong type", 1)
				return g.src(p) + "[" + g.src(k) + "]", true
			}
		}
	}
}

func orNil(p *Path) Expr {
	if p == nil {
		return nil
	}
	return p
}

// wrapBad puts the source of an expression into another one
func (g *Gen) wrapBad(c *Ctx, s string, ref bool) (string, bool) {
	for n := pick(g.Rand, 0, 0, 1, 1, 2, 3); n > 0; n-- {
		switch g.N(5) {
		case 0:
			c.Count("in an operand", 1)
			t := basic[g.N(4)]
			o := (&Emitter{r: g.Rand}).operand(g.expr(t, 1), 6, true)
			op := pick(g.Rand, "+", "-", "*", "==", "!=", "<", "&&", "||")
			if g.P(50) {
				s = "(" + s + " " + op + " " + o + ")"
			} else {
				s = "(" + o + " " + op + " " + s + ")"
			}
			ref = false
		case 1:
			c.Count("in an argument", 1)
			s, ref = pick(g.Rand, "$inc("+s+")", "$add(1, "+s+")", "$show("+s+")", "$total(1, "+s+", 3)", "$join(\"a\","+s+")", "$strings.ToUpper("+s+")", "$s.join("+s+")"), true
		case 2:
			if strings.Contains(s, "true") || strings.Contains(s, "false") { // literals that can't start an index
				continue
			}
			if p := g.kindRef(g.R(0, 2), reflect.Slice); p != nil {
				c.Count("in an index", 1)
				s, ref = g.src(p)+"["+s+"]", true
			}
		case 3:
			s, ref = "("+s+")", false
		case 4:
			c.Count("in an operand", 1)
			s, ref = "!("+s+")", false
		}
	}
	return s, ref
}

// badStmt is the source of a statement that does not type
func (g *Gen) badStmt(c *Ctx) string {
	ws := func() string { return (&Emitter{r: g.Rand}).ws() }
	for {
		if g.P(65) {
			s, ref := g.badExpr(c)
			s, ref = g.wrapBad(c, s, ref)
			body := pick(g.Rand, "x", "", "$n")
			switch k := g.N(7); {
			case k == 0:
				c.Count("in a condition", 1)
				return pick(g.Rand, "#if("+ws()+s+ws()+")"+body+"#end", "#if(false)"+body+"#else#if("+s+")y#end#end", "#if($b)"+body+"#else#if("+s+")#end#end")
			case k == 1:
				c.Count("in an assigned value", 1)
				return "#set($" + pick(g.Rand, "badVar", "n", "s", "b", "f") + ws() + "=" + ws() + s + ws() + ")"
			case k == 2 && ref:
				c.Count("in a list", 1)
				return "#foreach($badItem in " + s + ")" + body + "#end"
			case k == 3:
				c.Count("in a loop head", 1)
				return pick(g.Rand, "#for($badK = "+s+"; $badK < 1; $badK++)"+body+"#end", "#for($badK = 0; "+s+"; $badK++)"+body+"#end", "#for($badK = 0; $badK < 1; $badK += "+s+")"+body+"#end")
			case k >= 4 && ref && !strings.HasPrefix(s, "$zap") && !strings.HasPrefix(s, "$Inc") && !strings.HasPrefix(s, "$nope"):
				c.Count("rendered", 1)
				return "${" + s[1:] + "}"
			}
			continue
		}
		d := g.R(0, 2)
		switch g.N(7) {
		case 6: // what can't be read, after an expression
			e := g.src(g.expr(pick(g.Rand, tInt, tBool), 2))
			list := g.kindRef(d, reflect.Slice)
			if list == nil {
				continue
			}
			more := " " + pick(g.Rand, "zz", "1", "% 2", "% 2 == 0", "and true", "or $b", `"x"`, "$n", "?", "| 1", "& 1", "^ 2", "~", ", 2", "[0]", "}", "'a'", "\\")
			c.Count("left over", 1)
			switch g.N(8) {
			case 0:
				return "#if(" + e + more + ")x#end"
			case 1:
				return "#if((" + e + more + "))x#end"
			case 2:
				return "#if(true && (" + e + " " + more + "))x#end"
			case 3:
				return "#foreach($badItem in " + g.src(list) + more + ")x#end"
			case 4:
				return pick(g.Rand, "#for($badK = 1"+more+"; $badK < 1; $badK++)x#end", "#for($badK = 1; $badK < 1"+more+"; $badK++)x#end", "#for($badK = 1; $badK < 1; $badK++"+more+")x#end")
			case 5:
				return "#if($inc(" + e + strings.Replace(more, ", 2", "; 2", 1) + ") == 2)x#end"
			case 6:
				return "#if(" + g.src(list) + "[" + e + more + "])x#end"
			case 7:
				return "#if($s.join(" + e + strings.Replace(more, ", 2", "; 2", 1) + ") == $t)x#end"
			}
		case 0: // a value that does not convert
			dest, from := g.ref(func(t reflect.Type) bool { return true }, true, d), g.ref(func(t reflect.Type) bool { return true }, false, d)
			if dest == nil || from == nil || convertible(dest.T, from.T) {
				continue
			}
			c.Count("assignment", 1)
			return "#set(" + g.src(dest) + ws() + "=" + ws() + g.src(from) + ")"
		case 1:
			p := g.kindRef(d, reflect.Int, reflect.String, reflect.Bool, reflect.Struct)
			if p == nil {
				continue
			}
			c.Count("assigned place", 1)
			return "#set(" + pick(g.Rand, g.src(p)+".Nope", "$undef9.Y", "$undef9.Y.Z", g.src(p)+".nope.X") + "=" + g.src(g.expr(tInt, 1)) + ")"
		case 2:
			p := g.kindRef(d, reflect.Int, reflect.String, reflect.Bool, reflect.Float64, reflect.Struct, reflect.Map, reflect.Ptr, reflect.Interface)
			if p == nil {
				continue
			}
			c.Count("list", 1)
			return "#foreach($badItem in " + g.src(p) + ")" + pick(g.Rand, "", "x", "$badItem") + "#end"
		case 3:
			p := g.kindRef(d, reflect.Int, reflect.Bool, reflect.Float64, reflect.Struct, reflect.Slice, reflect.Map)
			if p == nil {
				continue
			}
			c.Count("evaluated value", 1)
			return "#evaluate(" + g.src(p) + ")"
		case 4:
			p := g.kindRef(d, reflect.String, reflect.Slice, reflect.Struct, reflect.Map)
			if p == nil {
				continue
			}
			c.Count("loop variable", 1)
			return "#for($badK = " + g.src(p) + "; $badK < 3; $badK++)x#end"
		case 5:
			c.Count("undefined variable", 1)
			return "#set($" + pick(g.Rand, "badVar", "n", "h.A") + " = $undef9)"
		}
	}
}

// convertible tells if an assignment of the types may compile
func convertible(dest, from reflect.Type) bool {
	if dest == from {
		return true
	}
	number := func(t reflect.Type) bool { return t.Kind() >= reflect.Int && t.Kind() <= reflect.Float64 }
	elem := func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Ptr {
			return t.Elem()
		}
		return t
	}
	scalar := func(t reflect.Type) bool { return number(t) || t.Kind() == reflect.String || t.Kind() == reflect.Bool }
	switch {
	case dest.Kind() == reflect.Interface || from.Kind() == reflect.Interface:
		return true // not decided here
	case dest.Kind() == reflect.Bool || elem(dest).Kind() == reflect.Bool:
		return true // anything has a truth value
	case elem(dest).Kind() == reflect.String || elem(dest).Kind() == reflect.Int:
		return scalar(elem(from))
	case dest.Kind() == reflect.Float64 || dest.Kind() == reflect.Float32:
		return number(elem(from))
	case number(elem(dest)):
		return scalar(elem(from))
	}
	return false
}

// badCall is the source of a call, the arguments of which do not fit
func (g *Gen) badCall() string {
	comp := ""
	if p := g.kindRef(g.R(0, 2), reflect.Struct, reflect.Map); p != nil {
		comp = g.src(p)
	}
	i, s := g.src(g.expr(tInt, 1)), g.src(g.expr(tString, 1))
	few := pick(g.Rand, "$inc()", "$add("+i+")", "$sub3("+i+", 1)", "$join("+s+")", "$mix(1,"+s+")", "$strings.ToUpper()", "$answer("+i+")", "$inc("+i+", 2)", "$join("+s+",\"b\",\"c\")", "$math.Abs(1.5, 2.5)", "$leafT()", "$orFail()")
	if comp == "" || g.P(40) {
		return few
	}
	return pick(g.Rand, "$inc("+comp+")", "$add(1, "+comp+")", "$upper("+comp+")", "$join("+s+","+comp+")", "$total(1, "+comp+")", "$sumInts("+comp+")", "$neg("+i+")", "$size("+comp+")", "$half("+s+")", "$orFail("+comp+")", "$strings.ToLower("+comp+")", "$small("+comp+")")
}

// insertAt puts a statement at a random place of the blocks; deep tells it is not in the outermost one
func (g *Gen) insertAt(body []Stmt, s Stmt) (res []Stmt, deep bool) {
	put := func(b []Stmt) []Stmt {
		i := g.N(len(b) + 1)
		res := append([]Stmt{}, b[:i]...)
		return append(append(res, s), b[i:]...)
	}
	var inner []int
	for i, st := range body {
		switch st.(type) {
		case *If, *Each, *For:
			inner = append(inner, i)
		}
	}
	if len(inner) == 0 || g.P(25) {
		return put(body), false
	}
	res = append([]Stmt{}, body...)
	i := inner[g.N(len(inner))]
	switch a := body[i].(type) {
	case *If:
		cp := *a
		cp.Blocks = append([][]Stmt{}, a.Blocks...)
		if k := g.N(len(a.Blocks) + 1); k < len(a.Blocks) {
			cp.Blocks[k], _ = g.insertAt(a.Blocks[k], s)
		} else {
			cp.HasElse = true
			cp.Else, _ = g.insertAt(a.Else, s)
		}
		res[i] = &cp
	case *Each:
		cp := *a
		cp.Body, _ = g.insertAt(a.Body, s)
		res[i] = &cp
	case *For:
		cp := *a
		cp.Body, _ = g.insertAt(a.Body, s)
		res[i] = &cp
	}
	return res, true
}

func caseReject(c *Ctx) {
	g := newGen(c.Rand)
	if c.P(30) {
		g.addTemplates(1)
	}
	visible := len(g.vars) // the piece only speaks of variables defined by the host
	body := g.block(c.R(1, 3))
	g.vars = g.vars[:visible]
	p := &Program{Body: body, Src: source(c.Rand, body), Hosts: g.hosts, Fns: g.fns}
	call := c.P(25)
	bad := &Bad{}
	if call {
		bad.Src = g.badCall()
		bad.Src = pick(c.Rand, "${"+bad.Src[1:]+"}", "#set($badVar = "+bad.Src+")", "#if("+bad.Src+" == "+bad.Src+")x#end", "#if("+bad.Src+" == "+bad.Src+")x#end")
		if strings.HasPrefix(bad.Src, "#if") && !strings.HasPrefix(bad.Src, "#if(${") { // of comparable results only
			bad.Src = "#set($badVar = " + g.badCall() + ")"
		}
	} else {
		bad.Src = g.badStmt(c)
	}
	mixed, deep := g.insertAt(body, bad)
	reached := 0
	bad.Reached = func() { reached++ }
	q := &Program{Body: mixed, Hosts: g.hosts, Fns: g.fns, Src: source(c.Rand, mixed)}
	if deep {
		c.Count("within blocks", 1)
	}
	c.Desc("piece: %s\ntemplate: %s\nwithout it: %s\n%s", bad.Src, q.Src, p.Src, describeHosts(g.hosts, q.Src))
	var planner *velty.Planner
	var err error
	panicked, stack := guard(func() {
		var cp *compiled
		if call {
			cp, err = q.compile()
			if err != nil {
				c.Violate("error in compile", "%s: %v", bad.Src, err)
				return
			}
			ref, refHosts, ok, failure := q.reference(false)
			_ = ref
			if !ok {
				return
			}
			st := cp.state()
			hosts := copyHosts(q.Hosts)
			if err = fillState(st, hosts); err != nil {
				c.Violate("error in data", "%v", err)
				return
			}
			err = cp.exec.Exec(st)
			if failure != "" {
				if err == nil {
					c.Violate("no error", "the execution should have failed: %s", failure)
				}
				return
			}
			if reached == 0 {
				c.Count("call not executed", 1)
				if err != nil {
					c.Violate("error in execution", "%v", err)
				}
				return
			}
			c.Count("call executed", 1)
			if err == nil {
				c.Violate("no error", "the arguments of %s do not fit, but the execution succeeded: %q", bad.Src, clip(st.Buffer.String(), 600))
				return
			}
			for n, v := range hosts {
				if !sameData(refHosts[n], v) {
					c.Violate("data", "%s should be %s but is %s", n, clip(renderValue(refHosts[n]), 800), clip(renderValue(v), 800))
				}
			}
			return
		}
		planner, err = q.planner()
		if err != nil {
			c.Violate("definition", "%v", err)
			return
		}
		child := planner.New()
		_, _, err := planner.Compile([]byte(q.Src))
		if err == nil {
			c.Violate("accepted", "%s compiles", bad.Src)
			return
		}
		if err.Error() == "" {
			c.Violate("empty error", "%s", bad.Src)
		}
		c.Saw(q.Src)
		c.Sample("%s: %v", bad.Src, err)
		if c.P(30) {
			exec, state, err := child.Compile([]byte(p.Src))
			if err != nil {
				c.Violate("error in compile", "of the template without the piece: %v", err)
				return
			}
			c.Count("compiled afterwards", 1)
			ref, _, ok, failure := p.reference(false)
			if !ok || failure != "" {
				return
			}
			st := state()
			if err := fillState(st, copyHosts(p.Hosts)); err != nil {
				c.Violate("error in data", "%v", err)
				return
			}
			if err := exec.Exec(st); err != nil {
				c.Violate("error in execution", "of the template without the piece: %v", err)
				return
			}
			if out, want := st.Buffer.String(), ref.out.String(); out != want {
				c.Violate("output", "of the template without the piece: %s", firstDiff(want, out))
			}
		}
	})
	if panicked != nil {
		c.Violate("panic", "%v at %s", panicked, stack)
	}
	if call {
		c.Saw(q.Src)
	}
}

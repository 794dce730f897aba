package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- AST of the generated templates

type (
	Expr interface{}

	Lit struct {
		V    reflect.Value
		Text string
	}

	// Path is a reference: a variable or a function call followed by fields, indexes and method calls
	Path struct {
		Root  string
		Call  *CallArgs // root is a function
		Steps []Step
		T     reflect.Type
	}

	Step struct {
		Field string
		Index Expr
		Call  *CallArgs // method or function called on a receiver, named by Field
		Out   reflect.Type
	}

	CallArgs struct{ Args []Expr }

	Bin struct {
		Op   string
		X, Y Expr
	}
	Not   struct{ X Expr }
	Paren struct{ X Expr }
	QRef  struct{ P *Path } // "$x" in quotes

	Stmt interface{}

	Text    struct{ S string }
	Raw     struct{ S string }
	Comment struct {
		S  string
		NL bool
	}
	Out struct {
		P      *Path
		Braces bool
		Bang   bool
		Mark   bool // between markOpen and markClose
	}
	Undef struct { // reference to a variable nobody defines
		Src string
	}
	Set struct {
		Target *Path
		E      Expr
	}
	If struct {
		Conds   []Expr
		Blocks  [][]Stmt
		HasElse bool
		Else    []Stmt
	}
	Each struct {
		Item    string
		List    Expr // nil: range
		A, B    int
		RangeOp bool
		Body    []Stmt
	}
	For struct {
		Var  string
		Init Expr
		Cond Expr
		Post string // ++, --, +=, …
		Y    Expr
		Body []Stmt
	}
	Eval struct {
		P       *Path // string variable holding the template
		Literal bool
		Body    []Stmt
		Src     string
		Dyn     map[string]*Block // the body is the one of the source the variable holds, nil when it doesn't compile
	}
	Block struct{ Body []Stmt }
)

var precOf = map[string]int{"*": 5, "/": 5, "+": 4, "-": 4, "<": 3, "<=": 3, ">": 3, ">=": 3, "==": 2, "!=": 2, "&&": 1, "||": 0}

// ---------------------------------------------------------------- source text

// Emitter renders the AST as a template source; white space and redundant parentheses are random but repeatable
type Emitter struct {
	r     *Rand
	parts []part
}

type part struct {
	s     string
	ref   *Out // a reference without braces, that may need them because of what follows
	plain string
	undef *Undef
	els   bool
}

func (e *Emitter) ws() string {
	if e.r == nil {
		return ""
	}
	switch e.r.N(8) {
	case 0, 1, 2:
		return " "
	case 3:
		return pick(e.r, "  ", "\n", "\t", " \n ")
	}
	return ""
}

func (e *Emitter) expr(x Expr) string {
	switch a := x.(type) {
	case *Lit:
		return a.Text
	case *Path:
		return "$" + e.path(a)
	case *QRef:
		return `"$` + e.path(a.P) + `"`
	case *Not:
		if _, ok := a.X.(*Not); ok {
			return "!(" + e.ws() + e.expr(a.X) + e.ws() + ")"
		}
		return "!" + e.operand(a.X, 6, false)
	case *Paren:
		return "(" + e.ws() + e.expr(a.X) + e.ws() + ")"
	case *Bin:
		p := precOf[a.Op]
		return e.operand(a.X, p, false) + e.ws() + a.Op + e.ws() + e.operand(a.Y, p, true)
	}
	panic(fmt.Sprintf("unsupported expression %T", x))
}

// operand renders x as an operand of an operator with precedence p, right tells it is its right operand
func (e *Emitter) operand(x Expr, p int, right bool) string {
	if b, ok := x.(*Bin); ok {
		q := precOf[b.Op]
		if q < p || (q == p && right) {
			return "(" + e.ws() + e.expr(x) + e.ws() + ")"
		}
	}
	if e.r != nil && e.r.N(16) == 0 {
		return "(" + e.ws() + e.expr(x) + e.ws() + ")"
	}
	return e.expr(x)
}

func (e *Emitter) args(c *CallArgs) string {
	var parts []string
	for _, a := range c.Args {
		parts = append(parts, e.ws()+e.expr(a)+e.ws())
	}
	return "(" + strings.Join(parts, ",") + ")"
}

func (e *Emitter) path(p *Path) string {
	var b strings.Builder
	b.WriteString(p.Root)
	if p.Call != nil {
		b.WriteString(e.args(p.Call))
	}
	for _, s := range p.Steps {
		switch {
		case s.Call != nil:
			b.WriteString("." + s.Field + e.args(s.Call))
		case s.Index != nil:
			b.WriteString("[" + e.ws() + e.expr(s.Index) + e.ws() + "]")
		default:
			b.WriteString("." + s.Field)
		}
	}
	return b.String()
}

func (e *Emitter) add(s string) { e.parts = append(e.parts, part{s: s}) }

func (e *Emitter) block(stmts []Stmt) {
	for _, s := range stmts {
		e.stmt(s)
	}
}

func (e *Emitter) stmt(s Stmt) {
	switch a := s.(type) {
	case *Text:
		e.add(a.S)
	case *Raw:
		e.add("#[[" + a.S + "]]#")
	case *Comment:
		if a.NL {
			e.add("##" + a.S + "\n")
		} else {
			e.add("##" + a.S)
		}
	case *Undef:
		e.parts = append(e.parts, part{undef: a})
	case *Bad:
		e.add(a.Src)
	case *Out:
		if a.Mark {
			e.add(markOpen)
		}
		e.parts = append(e.parts, part{plain: e.path(a.P), ref: a})
		if a.Mark {
			e.add(markClose)
		}
	case *Set:
		e.add("#set" + e.gap() + "(" + e.ws() + "$" + e.path(a.Target) + e.ws() + "=" + e.ws() + e.expr(a.E) + e.ws() + ")")
	case *If:
		for i, c := range a.Conds {
			kw := "#if"
			if i > 0 {
				kw = "#elseif"
			}
			e.add(kw + e.gap() + "(" + e.ws() + e.expr(c) + e.ws() + ")")
			e.block(a.Blocks[i])
		}
		if a.HasElse {
			e.parts = append(e.parts, part{s: "#else", els: true})
			e.block(a.Else)
		}
		e.end()
	case *Each:
		src := ""
		if a.RangeOp {
			src = fmt.Sprintf("[%d...%d]", a.A, a.B)
		} else {
			src = e.expr(a.List)
		}
		e.add("#foreach" + e.gap() + "(" + e.ws() + "$" + a.Item + " in " + src + e.ws() + ")")
		e.block(a.Body)
		e.end()
	case *For:
		post := a.Post
		if a.Y != nil {
			post += e.ws() + e.expr(a.Y)
		}
		e.add("#for" + e.gap() + "(" + e.ws() + "$" + a.Var + e.ws() + "=" + e.ws() + e.expr(a.Init) + ";" + e.ws() + e.expr(a.Cond) + ";" + e.ws() + "$" + a.Var + e.ws() + post + e.ws() + ")")
		e.block(a.Body)
		e.end()
	case *Eval:
		if a.Literal {
			e.add("#evaluate(" + e.ws() + `"` + a.Src + `"` + e.ws() + ")")
		} else {
			e.add("#evaluate" + e.gap() + "(" + e.ws() + "$" + e.path(a.P) + e.ws() + ")")
		}
	default:
		panic(fmt.Sprintf("unsupported statement %T", s))
	}
}

func (e *Emitter) gap() string {
	if e.r != nil && e.r.N(6) == 0 {
		return " "
	}
	return ""
}

func (e *Emitter) end() {
	if e.r != nil && e.r.N(6) == 0 {
		e.add("#{end}")
		return
	}
	e.add("#end")
}

// String joins the parts, references that what follows could extend are put in braces
func (e *Emitter) String() string {
	out := ""
	next := byte(0)
	var rev []string
	after := "" // source that follows
	for i := len(e.parts) - 1; i >= 0; i-- {
		p := e.parts[i]
		s := p.s
		switch {
		case p.undef != nil:
			if extends(after) && !strings.HasPrefix(p.undef.Src, "${") {
				p.undef.Src = "${" + strings.TrimPrefix(p.undef.Src, "$") + "}"
			}
			s = p.undef.Src
		case p.ref != nil:
			bang := ""
			if p.ref.Bang {
				bang = "!"
			}
			if p.ref.Braces || extends(after) {
				s = "$" + bang + "{" + p.plain + "}"
			} else {
				s = "$" + bang + p.plain
			}
		case p.els:
			if next >= 'a' && next <= 'z' {
				s = "#{else}"
			}
		}
		if s != "" {
			rev = append(rev, s)
			after = s + after
			if len(after) > 8 {
				after = after[:8]
			}
			next = after[0]
		}
	}
	for i := len(rev) - 1; i >= 0; i-- {
		out += rev[i]
	}
	return out
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func extends(after string) bool {
	if after == "" {
		return false
	}
	c := after[0]
	switch {
	case isLetter(c), c >= '0' && c <= '9', c == '_', c == '(', c == '[':
		return true
	case c == '.': // a dot that ends a sentence is not a part of the reference
		return len(after) > 1 && (isLetter(after[1]) || after[1] == '!' || after[1] == '{')
	}
	return false
}

func source(r *Rand, stmts []Stmt) string {
	e := &Emitter{r: r}
	e.block(stmts)
	return e.String()
}

// ---------------------------------------------------------------- reference interpreter

type Interp struct {
	vars   map[string]reflect.Value // addressable
	types  map[string]reflect.Type  // declared so far, in the order of the text
	out    bytes.Buffer
	escape bool
	steps  int
	max    int
	fns    map[string]*testFunc
	log    []string // calls of the recording functions
	stats  map[string]int
	failed func(err error) // what a function that fails means, by default the end of the interpretation
}

type budgetExceeded struct{}

// outOfDomain tells that the template is not one the property speaks of, e.g. it uses a variable before its definition
type outOfDomain struct{ why string }

// templateFailure ends the interpretation: the template has to fail with an error
type templateFailure struct{ why string }

func NewInterp(escape bool, fns map[string]*testFunc) *Interp {
	return &Interp{vars: map[string]reflect.Value{}, escape: escape, max: 20000, fns: fns, stats: map[string]int{}}
}

func (in *Interp) define(name string, t reflect.Type) {
	if _, ok := in.vars[name]; !ok {
		in.vars[name] = reflect.New(t).Elem()
	}
}

// declare walks the template in the order of its text: variables get their types there, with zero values
func (in *Interp) declare(stmts []Stmt) {
	for _, s := range stmts {
		switch a := s.(type) {
		case *Out:
			in.known(a.P)
		case *Eval:
			in.known(a.P)
		case *Set:
			in.known(a.E)
			if len(a.Target.Steps) == 0 {
				in.define(a.Target.Root, typeOf(a.E))
			}
			in.known(a.Target)
		case *If:
			for i, b := range a.Blocks {
				in.known(a.Conds[i])
				in.declare(b)
			}
			in.declare(a.Else)
		case *Each:
			if !a.RangeOp {
				in.known(a.List)
			}
			t := tInt
			if !a.RangeOp {
				t = typeOf(a.List).Elem()
			}
			in.define(a.Item, t)
			in.declare(a.Body)
		case *For:
			in.known(a.Init)
			in.define(a.Var, typeOf(a.Init))
			in.known(a.Cond)
			if a.Y != nil {
				in.known(a.Y)
			}
			in.declare(a.Body)
		}
	}
}

// known checks that the variables of the expression are defined before it, in the order of the text
func (in *Interp) known(x Expr) {
	switch a := x.(type) {
	case *QRef:
		in.known(a.P)
	case *Paren:
		in.known(a.X)
	case *Not:
		in.known(a.X)
	case *Bin:
		in.known(a.X)
		in.known(a.Y)
	case *Path:
		if a == nil {
			return
		}
		if a.Call != nil {
			in.known(a.Call)
		} else if _, ok := in.vars[a.Root]; !ok {
			panic(outOfDomain{"undefined " + a.Root})
		}
		for _, s := range a.Steps {
			if s.Call != nil {
				in.known(s.Call)
			}
			if s.Index != nil {
				in.known(s.Index)
			}
		}
	case *CallArgs:
		for _, e := range a.Args {
			in.known(e)
		}
	}
}

func (in *Interp) step() {
	in.steps++
	if in.steps > in.max || in.out.Len() > 1<<20 {
		panic(budgetExceeded{})
	}
}

// Run interprets a template in the current scope; false means it needs more steps than a case may take
func (in *Interp) Run(stmts []Stmt) (ok bool, failure string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case budgetExceeded, outOfDomain:
			ok = false
		case templateFailure:
			ok, failure = true, r.why
		default:
			panic(r)
		}
	}()
	in.declare(stmts)
	in.block(stmts)
	return true, ""
}

func (in *Interp) block(stmts []Stmt) {
	for _, s := range stmts {
		in.stmt(s)
	}
}

func (in *Interp) write(s string) {
	if in.escape {
		s = html.EscapeString(s)
	}
	in.out.WriteString(s)
}

func (in *Interp) stmt(s Stmt) {
	in.step()
	switch a := s.(type) {
	case *Text:
		in.out.WriteString(a.S)
		in.stats["text"]++
	case *Raw:
		in.out.WriteString(a.S)
		in.stats["raw"]++
	case *Comment:
		in.stats["comment"]++
	case *Bad:
		a.Reached()
	case *Undef:
		in.write(a.Src)
		in.stats["undefined reference"]++
	case *Out:
		in.write(renderValue(in.eval(a.P)))
		in.stats["reference"]++
	case *Set:
		in.set(a.Target, in.eval(a.E))
		in.stats["set"]++
	case *If:
		for i, c := range a.Conds {
			if truthy(in.eval(c)) {
				in.stats["branch taken"]++
				in.block(a.Blocks[i])
				return
			}
			in.stats["branch skipped"]++
		}
		if a.HasElse {
			in.stats["else taken"]++
			in.block(a.Else)
		}
	case *Each:
		if a.RangeOp {
			d := 1
			if a.B <= a.A {
				d = -1
			}
			for i := a.A; i != a.B; i += d {
				in.step()
				in.stats["foreach iteration"]++
				in.vars[a.Item].SetInt(int64(i))
				in.block(a.Body)
			}
			return
		}
		list := in.eval(a.List)
		for i, n := 0, list.Len(); i < n; i++ {
			in.step()
			in.stats["foreach iteration"]++
			in.vars[a.Item].Set(list.Index(i))
			in.block(a.Body)
		}
	case *For:
		v := &Path{Root: a.Var, T: in.vars[a.Var].Type()}
		in.set(v, in.eval(a.Init))
		for truthy(in.eval(a.Cond)) {
			in.step()
			in.stats["for iteration"]++
			in.block(a.Body)
			switch a.Post {
			case "++":
				in.set(v, in.binary("+", in.eval(v), reflect.ValueOf(1)))
			case "--":
				in.set(v, in.binary("-", in.eval(v), reflect.ValueOf(1)))
			default:
				in.set(v, in.binary(a.Post[:1], in.eval(v), in.eval(a.Y)))
			}
		}
	case *Eval:
		body := a.Body
		if a.Dyn != nil {
			b, ok := a.Dyn[in.path(a.P).String()]
			if !ok {
				panic(outOfDomain{"not a known template"})
			}
			if b == nil {
				in.stats["broken template evaluated"]++
				return
			}
			body = b.Body
		}
		in.stats["evaluate"]++
		child := NewInterp(in.escape, in.fns)
		child.max = in.max - in.steps
		for n, v := range in.vars {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			child.vars[n] = c
		}
		child.declare(body)
		child.stats = in.stats
		child.failed = in.failed
		child.out = in.out
		func() {
			defer func() {
				in.out = child.out
				in.log = append(in.log, child.log...)
				in.steps += child.steps
			}()
			child.block(body)
		}()
	default:
		panic(fmt.Sprintf("unsupported statement %T", s))
	}
}

// eval computes the expression, the result is never an alias of a variable
func (in *Interp) eval(x Expr) reflect.Value {
	switch a := x.(type) {
	case *Lit:
		return a.V
	case *Path:
		return detach(in.path(a))
	case *QRef:
		return detach(in.path(a.P))
	case *Paren:
		return in.eval(a.X)
	case *Not:
		return reflect.ValueOf(!in.eval(a.X).Bool())
	case *Bin:
		in.step()
		in.stats["operator "+a.Op]++
		return in.binary(a.Op, in.eval(a.X), in.eval(a.Y))
	}
	panic(fmt.Sprintf("unsupported expression %T", x))
}

func detach(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

// path follows a reference, what a nil pointer leads to and what a map does not have are zero values
func (in *Interp) path(p *Path) reflect.Value {
	var v reflect.Value
	if p.Call != nil {
		v = in.call(p.Root, nil, p.Call)
	} else {
		v = in.vars[p.Root]
		if !v.IsValid() {
			panic("reference interpreter: undefined " + p.Root)
		}
	}
	for _, s := range p.Steps {
		if s.Call != nil {
			v = in.call(s.Field, &v, s.Call)
			continue
		}
		if s.Index != nil {
			i := in.eval(s.Index)
			for v.Kind() == reflect.Ptr {
				v = v.Elem()
			}
			if v.Kind() == reflect.Map {
				e := v.MapIndex(i.Convert(v.Type().Key()))
				if !e.IsValid() {
					e = reflect.Zero(v.Type().Elem())
				}
				v = e
				continue
			}
			v = v.Index(int(i.Int()))
			continue
		}
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Zero(p.T)
			}
			v = v.Elem()
		}
		v = v.FieldByName(s.Field)
	}
	return v
}

func (in *Interp) set(target *Path, value reflect.Value) {
	if len(target.Steps) == 0 {
		dest := in.vars[target.Root]
		dest.Set(convertTo(value, dest.Type()))
		return
	}
	dest := in.path(target)
	c := convertTo(value, target.T)
	if dest.CanSet() {
		dest.Set(c)
	}
}

func convertTo(v reflect.Value, t reflect.Type) reflect.Value {
	if v.Type() == t {
		return v
	}
	if v.Type().AssignableTo(t) {
		d := reflect.New(t).Elem()
		d.Set(v)
		return d
	}
	switch {
	case isNum(v.Kind()) && isNum(t.Kind()):
		return v.Convert(t)
	case t.Kind() == reflect.String:
		return reflect.ValueOf(scalarString(v)).Convert(t)
	case t.Kind() == reflect.Bool && isNum(v.Kind()):
		return reflect.ValueOf(!v.IsZero())
	case t.Kind() == reflect.Bool && v.Kind() == reflect.String:
		return reflect.ValueOf(v.String() != "")
	case isNum(t.Kind()) && v.Kind() == reflect.Bool:
		if v.Bool() {
			return reflect.ValueOf(1).Convert(t)
		}
		return reflect.ValueOf(0).Convert(t)
	case t.Kind() == reflect.Int && v.Kind() == reflect.String:
		i, err := strconv.Atoi(v.String())
		if err != nil {
			panic(templateFailure{"not a number: " + v.String()})
		}
		return reflect.ValueOf(i)
	}
	panic(fmt.Sprintf("no conversion from %v to %v", v.Type(), t))
}

func isNum(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 }
func isFloatKind(k reflect.Kind) bool {
	return k == reflect.Float32 || k == reflect.Float64
}

func scalarString(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	default:
		return strconv.FormatUint(v.Uint(), 10)
	}
}

func asInt(v reflect.Value) int {
	if v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr {
		return int(v.Uint())
	}
	return int(v.Int())
}

func asFloat(v reflect.Value) float64 {
	if isFloatKind(v.Kind()) {
		return v.Float()
	}
	return float64(asInt(v))
}

func (in *Interp) binary(op string, x, y reflect.Value) reflect.Value {
	for _, v := range []*reflect.Value{&x, &y} {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				panic(outOfDomain{"nil pointer operand"})
			}
			*v = v.Elem()
		}
	}
	switch {
	case x.Kind() == reflect.String || y.Kind() == reflect.String:
		a, b := scalarString(x), scalarString(y)
		if len(a)+len(b) > 1<<16 {
			panic(budgetExceeded{})
		}
		switch op {
		case "+":
			return reflect.ValueOf(a + b)
		case "==":
			return reflect.ValueOf(a == b)
		case "!=":
			return reflect.ValueOf(a != b)
		}
	case x.Kind() == reflect.Bool:
		a, b := x.Bool(), y.Bool()
		switch op {
		case "&&":
			return reflect.ValueOf(a && b)
		case "||":
			return reflect.ValueOf(a || b)
		case "==":
			return reflect.ValueOf(a == b)
		case "!=":
			return reflect.ValueOf(a != b)
		}
	case isFloatKind(x.Kind()) || isFloatKind(y.Kind()):
		a, b := asFloat(x), asFloat(y)
		switch op {
		case "+":
			return reflect.ValueOf(a + b)
		case "-":
			return reflect.ValueOf(a - b)
		case "*":
			return reflect.ValueOf(a * b)
		case "/":
			return reflect.ValueOf(a / b)
		case "==":
			return reflect.ValueOf(a == b)
		case "!=":
			return reflect.ValueOf(a != b)
		case "<":
			return reflect.ValueOf(a < b)
		case "<=":
			return reflect.ValueOf(a <= b)
		case ">":
			return reflect.ValueOf(a > b)
		case ">=":
			return reflect.ValueOf(a >= b)
		}
	default:
		a, b := asInt(x), asInt(y)
		switch op {
		case "+":
			return reflect.ValueOf(a + b)
		case "-":
			return reflect.ValueOf(a - b)
		case "*":
			return reflect.ValueOf(a * b)
		case "/":
			return reflect.ValueOf(a / b)
		case "==":
			return reflect.ValueOf(a == b)
		case "!=":
			return reflect.ValueOf(a != b)
		case "<":
			return reflect.ValueOf(a < b)
		case "<=":
			return reflect.ValueOf(a <= b)
		case ">":
			return reflect.ValueOf(a > b)
		case ">=":
			return reflect.ValueOf(a >= b)
		}
	}
	panic(fmt.Sprintf("no operator %v on %v and %v", op, x.Type(), y.Type()))
}

func truthy(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String, reflect.Slice:
		return v.Len() > 0
	case reflect.Ptr:
		switch v.Type().Elem().Kind() {
		case reflect.Int, reflect.String, reflect.Float64, reflect.Bool: // a reference to a pointer to a scalar stands for the scalar
			return !v.IsNil() && truthy(v.Elem())
		}
		return !v.IsNil()
	case reflect.Float32, reflect.Float64:
		return v.Float() != 0
	}
	return !v.IsZero()
}

// renderValue is the text of a value
func renderValue(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int:
		return strconv.Itoa(int(v.Int()))
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Interface:
		switch a := v.Interface().(type) {
		case string, int, bool, float64:
			return renderValue(reflect.ValueOf(a))
		case time.Time:
			return a.Format(time.RFC3339)
		case *time.Time:
			return a.Format(time.RFC3339)
		default:
			return fmt.Sprintf("%v", a)
		}
	}
	data, _ := json.Marshal(v.Interface())
	return string(data)
}

// call calls a test function, or a method of the receiver
func (in *Interp) call(name string, receiver *reflect.Value, args *CallArgs) reflect.Value {
	in.step()
	in.stats["call"]++
	var fn reflect.Value
	var values []reflect.Value
	if receiver != nil {
		if m := methodOf(*receiver, name); m.IsValid() {
			fn = m
		} else {
			values = append(values, *receiver)
		}
	}
	var tf *testFunc
	if !fn.IsValid() {
		tf = in.fns[name]
		fn = reflect.ValueOf(tf.fn)
	}
	for _, a := range args.Args {
		values = append(values, in.eval(a))
	}
	ft := fn.Type()
	shown := make([]interface{}, 0, len(values))
	for i, v := range values {
		t := ft.In(min(i, ft.NumIn()-1))
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			t = t.Elem()
		}
		if v.Type() != t && !v.Type().AssignableTo(t) {
			v = v.Convert(t)
		}
		values[i] = v
		shown = append(shown, v.Interface())
	}
	if tf != nil && tf.records {
		in.log = append(in.log, fmt.Sprintf("%s%v", name, shown))
		fn = reflect.ValueOf(tf.pure)
	}
	res := fn.Call(values)
	if len(res) == 2 && !res[1].IsNil() {
		err := res[1].Interface().(error)
		if in.failed == nil {
			panic(templateFailure{err.Error()})
		}
		in.failed(err)
	}
	return res[0]
}

func methodOf(v reflect.Value, name string) reflect.Value {
	if m := v.MethodByName(name); m.IsValid() {
		return m
	}
	if v.CanAddr() {
		return v.Addr().MethodByName(name)
	}
	return reflect.Value{}
}

// typeOf is the static type of an expression
func typeOf(x Expr) reflect.Type {
	switch a := x.(type) {
	case *Lit:
		return a.V.Type()
	case *Path:
		return a.T
	case *QRef:
		return a.P.T
	case *Paren:
		return typeOf(a.X)
	case *Not:
		return tBool
	case *Bin:
		switch a.Op {
		case "+", "-", "*", "/":
			x, y := typeOf(a.X), typeOf(a.Y)
			switch {
			case x.Kind() == reflect.String || y.Kind() == reflect.String:
				return tString
			case isFloatKind(x.Kind()) || isFloatKind(y.Kind()):
				return tFloat
			}
			return tInt
		}
		return tBool
	}
	panic(fmt.Sprintf("unsupported expression %T", x))
}

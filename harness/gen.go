package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- functions the templates may call

type testFunc struct {
	name    string
	fn      interface{}
	records bool        // calls are logged and compared in order
	pure    interface{} // what the reference calls when fn records
}

func pureFuncs() map[string]*testFunc {
	fs := map[string]*testFunc{}
	add := func(name string, fn interface{}) { fs[name] = &testFunc{name: name, fn: fn} }
	add("inc", func(i int) int { return i + 1 })
	add("add", func(a, b int) int { return a + b })
	add("sub3", func(a, b, c int) int { return a - b - c })
	add("half", func(f float64) float64 { return f / 2 })
	add("mix", func(i int, s string, f float64, b bool) string {
		return strconv.Itoa(i) + "|" + s + "|" + strconv.FormatFloat(f, 'f', -1, 64) + "|" + strconv.FormatBool(b)
	})
	add("upper", strings.ToUpper)
	add("lower", strings.ToLower)
	add("join", func(a, b string) string { return a + "+" + b })
	add("size", func(s string) int { return len(s) })
	add("hasPrefix", strings.HasPrefix)
	add("neg", func(b bool) bool { return !b })
	add("show", func(v interface{}) string { return fmt.Sprintf("%T=%v", v, v) })
	add("total", func(ns ...int) int {
		t := 0
		for i, n := range ns {
			t += n * (i + 1)
		}
		return t
	})
	add("ints", func(n int) []int { return []int{n, n + 1, n + 2} })
	add("pair", func(a, b string) []string { return []string{a, b} })
	add("table", func(n int) map[string]int { return map[string]int{"a": n, "b": n * 2} })
	add("leaf", func(n int, t string) Leaf {
		return Leaf{N: n, T: t, F: float64(n) / 4, B: n%2 == 0, Tags: []string{t, t}}
	})
	add("leafPtr", func(n int, t string) *Leaf { return &Leaf{N: n, T: t} })
	add("leafT", func(l Leaf) string { return l.T })
	add("leafN", func(l *Leaf) int { return l.N })
	add("sumInts", func(ns []int) int {
		t := 0
		for _, n := range ns {
			t += n
		}
		return t
	})
	add("orFail", func(i int) (int, error) {
		if i < -1000000 {
			return 0, errors.New("too small")
		}
		return i * 3, nil
	})
	add("small", func(i int8) int8 { return i / 2 })
	add("answer", func() int { return 42 })
	return fs
}

// ---------------------------------------------------------------- paths of a type

type pathStep struct {
	field string
	kind  byte // f: field, i: slice index, k: map key
	key   reflect.Type
}

type pathInfo struct {
	steps    []pathStep
	t        reflect.Type
	nilable  bool // leads through a pointer that may be nil, or a map
	settable bool
}

var pathCache = map[reflect.Type][]pathInfo{}

func pathsOf(t reflect.Type) []pathInfo {
	if p, ok := pathCache[t]; ok {
		return p
	}
	var res []pathInfo
	var walk func(t reflect.Type, steps []pathStep, nilable, settable bool, depth int)
	walk = func(t reflect.Type, steps []pathStep, nilable, settable bool, depth int) {
		res = append(res, pathInfo{steps: append([]pathStep{}, steps...), t: t, nilable: nilable, settable: settable})
		if depth == 0 {
			return
		}
		switch t.Kind() {
		case reflect.Ptr:
			t = t.Elem()
			if t.Kind() != reflect.Struct {
				return
			}
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, append(steps, pathStep{field: f.Name, kind: 'f'}), nilable || strings.HasPrefix(f.Name, "Nil"), settable, depth-1)
			}
		case reflect.Slice:
			if !nilable {
				walk(t.Elem(), append(steps, pathStep{kind: 'i'}), nilable, settable, depth-1)
			}
		case reflect.Map:
			walk(t.Elem(), append(steps, pathStep{kind: 'k', key: t.Key()}), true, false, depth-1)
		}
	}
	walk(t, nil, false, true, 4)
	pathCache[t] = res
	return res
}

// ---------------------------------------------------------------- generator

type scopeVar struct {
	name    string
	t       reflect.Type
	nilable bool
	frozen  bool // must not be assigned: a loop counter
	host    bool
}

type Gen struct {
	*Rand
	vars    []*scopeVar
	hosts   map[string]reflect.Value
	fns     map[string]*testFunc
	nextVar int
	depth   int
	loops   int

	// knobs
	noCalls   bool
	noSet     bool
	noEval    bool
	noUndef   bool
	onlyHosts bool
	texts     func(r *Rand) string
	tpls      []string // names of the string variables holding templates
	marked    bool     // every rendered value stands between markers
	inEval    bool
	evalBody  map[string][]Stmt
	evalSrc   map[string]string
	blockSize int
	pfx       string // prefix of the variables the template defines
}

var hostKinds = []struct {
	name string
	t    reflect.Type
}{
	{"h", tHost}, {"hp", reflect.PtrTo(tHost)}, {"mid", tMid}, {"mp", reflect.PtrTo(tMid)}, {"lf", tLeaf}, {"lp", reflect.PtrTo(tLeaf)},
	{"n", tInt}, {"m", tInt}, {"s", tString}, {"t", tString}, {"f", tFloat}, {"g", tFloat}, {"b", tBool}, {"c", tBool},
	{"ints", reflect.SliceOf(tInt)}, {"strs", reflect.SliceOf(tString)}, {"leafs", reflect.SliceOf(tLeaf)}, {"ptrs", reflect.SliceOf(reflect.PtrTo(tLeaf))},
	{"mm", reflect.MapOf(tString, tInt)}, {"any", tAny}, {"lists", reflect.SliceOf(reflect.SliceOf(tInt))}, {"fls", reflect.SliceOf(tFloat)},
	{"pn", reflect.PtrTo(tInt)}, {"ps", reflect.PtrTo(tString)}, {"big", reflect.TypeOf(int64(0))}, {"sm", reflect.TypeOf(int8(0))},
}

func newGen(r *Rand) *Gen {
	g := &Gen{Rand: r, hosts: map[string]reflect.Value{}, fns: pureFuncs(), evalBody: map[string][]Stmt{}, evalSrc: map[string]string{}, blockSize: 5}
	for _, k := range hostKinds {
		if k.t == tInt || k.t == tString || k.t == tBool || k.t == tFloat || r.P(40) {
			g.addHost(k.name, k.t)
		}
	}
	return g
}

func (g *Gen) addHost(name string, t reflect.Type) {
	v := reflect.New(t).Elem()
	g.fill(v, 0)
	g.hosts[name] = v
	g.vars = append(g.vars, &scopeVar{name: name, t: t, host: true})
}

func (g *Gen) lookup(name string) *scopeVar {
	for _, v := range g.vars {
		if v.name == name {
			return v
		}
	}
	return nil
}

// ref picks a reference of a type accepted by want
func (g *Gen) ref(want func(t reflect.Type) bool, settable bool, maxDepth int) *Path {
	for try := 0; try < 12; try++ {
		v := g.vars[g.N(len(g.vars))]
		if settable && v.frozen {
			continue
		}
		infos := pathsOf(v.t)
		start := g.N(len(infos))
		for k := 0; k < len(infos); k++ {
			info := infos[(start+k)%len(infos)]
			if !want(info.t) || (settable && !info.settable) || len(info.steps) > maxDepth {
				continue
			}
			if settable && len(info.steps) == 0 && v.host && v.t.Kind() == reflect.Ptr {
				continue
			}
			if v.nilable && hasIndex(info.steps) {
				continue
			}
			return g.pathOf(v, info)
		}
	}
	return nil
}

func hasIndex(steps []pathStep) bool {
	for _, s := range steps {
		if s.kind == 'i' {
			return true
		}
	}
	return false
}

func (g *Gen) pathOf(v *scopeVar, info pathInfo) *Path {
	p := &Path{Root: v.name, T: info.t}
	t := v.t
	for _, s := range info.steps {
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		switch s.kind {
		case 'f':
			f, _ := t.FieldByName(s.field)
			t = f.Type
			p.Steps = append(p.Steps, Step{Field: s.field, Out: t})
		case 'i':
			t = t.Elem()
			p.Steps = append(p.Steps, Step{Index: g.indexExpr(), Out: t})
		case 'k':
			t = t.Elem()
			p.Steps = append(p.Steps, Step{Index: g.keyExpr(s.key), Out: t})
		}
	}
	return p
}

// indexExpr is an int expression whose value is 0 or 1
func (g *Gen) indexExpr() Expr {
	i := g.N(2)
	if g.P(70) {
		return intLit(i)
	}
	a := g.R(0, 5)
	return &Bin{Op: "-", X: intLit(a + i), Y: intLit(a)}
}

func (g *Gen) keyExpr(key reflect.Type) Expr {
	if key.Kind() == reflect.Int {
		return intLit(g.N(4))
	}
	k := pick(g.Rand, "a", "b", "c", "zz")
	if g.P(80) {
		return strLit(k)
	}
	return &Bin{Op: "+", X: strLit(""), Y: strLit(k)}
}

func intLit(i int) *Lit    { return &Lit{V: reflect.ValueOf(i), Text: strconv.Itoa(i)} }
func strLit(s string) *Lit { return &Lit{V: reflect.ValueOf(s), Text: `"` + s + `"`} }
func boolLit(b bool) *Lit  { return &Lit{V: reflect.ValueOf(b), Text: strconv.FormatBool(b)} }
func floatLit(t string) *Lit {
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic(err)
	}
	return &Lit{V: reflect.ValueOf(f), Text: t}
}

func (g *Gen) intLiteral() *Lit {
	if g.P(70) {
		return intLit(g.R(-9, 30))
	}
	i := g.Int()
	if i == -1<<63 {
		i++
	}
	return intLit(i)
}

func (g *Gen) floatLiteral() *Lit {
	switch g.N(5) {
	case 0:
		return floatLit(fmt.Sprintf("%d.0", g.R(-5, 5)))
	case 1:
		return floatLit(fmt.Sprintf("%d.%02d", g.R(0, 999), g.N(100)))
	case 2:
		return floatLit(pick(g.Rand, "1e3", "2.5e2", "1e-2"))
	default:
		return floatLit(strconv.FormatFloat(float64(g.R(-80, 80))/8+0.0625, 'f', -1, 64))
	}
}

var strChars = []string{"(", ")", "[", "]", "{", "}", ";", "a,b", ")(", "a", "b", "Q", "7", "_", " ", "-", ".", ",", "é", "日", "<", ">", "&", "'", ":", "/", "=", "!", "%", "+", "*", "|", "#", "$ ", "?", "@"}

func (g *Gen) stringLiteral() *Lit {
	var b strings.Builder
	for n := g.N(7); n > 0; n-- {
		b.WriteString(strChars[g.N(len(strChars))])
	}
	return strLit(b.String())
}

func is(t reflect.Type) func(reflect.Type) bool {
	return func(o reflect.Type) bool { return o == t }
}

// expr builds an expression of one of the basic types
func (g *Gen) expr(t reflect.Type, depth int) Expr {
	if depth <= 0 || g.P(25) {
		return g.leafExpr(t)
	}
	switch t {
	case tInt:
		switch g.N(10) {
		case 0, 1, 2:
			return &Bin{Op: "+", X: g.expr(tInt, depth-1), Y: g.expr(tInt, depth-1)}
		case 3, 4:
			return &Bin{Op: "-", X: g.expr(tInt, depth-1), Y: g.expr(tInt, depth-1)}
		case 5, 6:
			return &Bin{Op: "*", X: g.expr(tInt, depth-1), Y: g.expr(tInt, depth-1)}
		case 7:
			d := g.R(1, 9)
			if g.P(30) {
				d = -d
			}
			return &Bin{Op: "/", X: g.expr(tInt, depth-1), Y: intLit(d)}
		case 8: // narrower kinds are widened when mixed with int
			if p := g.ref(isNarrowInt, false, 3); p != nil {
				return &Bin{Op: pick(g.Rand, "+", "-", "*"), X: p, Y: g.expr(tInt, depth-1)}
			}
		case 9:
			if e := g.callOf(tInt, depth-1); e != nil {
				return e
			}
		}
	case tFloat:
		op := pick(g.Rand, "+", "-", "*", "/")
		switch g.N(5) {
		case 0, 1:
			return &Bin{Op: op, X: g.expr(tFloat, depth-1), Y: g.expr(tFloat, depth-1)}
		case 2:
			return &Bin{Op: op, X: g.expr(tInt, depth-1), Y: g.expr(tFloat, depth-1)}
		case 3:
			return &Bin{Op: op, X: g.expr(tFloat, depth-1), Y: g.expr(tInt, depth-1)}
		case 4:
			if e := g.callOf(tFloat, depth-1); e != nil {
				return e
			}
		}
	case tString:
		switch g.N(6) {
		case 0, 1, 2:
			return &Bin{Op: "+", X: g.expr(tString, depth-1), Y: g.expr(tString, depth-1)}
		case 3:
			return &Bin{Op: "+", X: g.expr(tString, depth-1), Y: g.concatenated(depth - 1)}
		case 4:
			return &Bin{Op: "+", X: g.expr(tInt, depth-1), Y: g.expr(tString, depth-1)}
		case 5:
			if e := g.callOf(tString, depth-1); e != nil {
				return e
			}
		}
	case tBool:
		cmp := pick(g.Rand, "<", "<=", ">", ">=", "==", "!=")
		eq := pick(g.Rand, "==", "!=")
		switch g.N(12) {
		case 0, 1, 2:
			return &Bin{Op: cmp, X: g.expr(tInt, depth-1), Y: g.expr(tInt, depth-1)}
		case 3:
			return &Bin{Op: cmp, X: g.expr(tFloat, depth-1), Y: g.expr(pick(g.Rand, tFloat, tInt), depth-1)}
		case 4:
			return &Bin{Op: cmp, X: g.expr(tInt, depth-1), Y: g.expr(tFloat, depth-1)}
		case 5:
			return &Bin{Op: eq, X: g.expr(tString, depth-1), Y: g.expr(tString, depth-1)}
		case 6:
			return &Bin{Op: eq, X: g.expr(tBool, depth-1), Y: g.expr(tBool, depth-1)}
		case 7, 8:
			return &Bin{Op: pick(g.Rand, "&&", "||"), X: g.expr(tBool, depth-1), Y: g.expr(tBool, depth-1)}
		case 9:
			return &Not{X: g.expr(tBool, depth-1)}
		case 10:
			if e := g.callOf(tBool, depth-1); e != nil {
				return e
			}
		case 11:
			if p := g.ref(isScalarPtr, false, 2); p != nil && !throughNil(p) {
				return &Bin{Op: eq, X: p, Y: g.leafExpr(p.T.Elem())}
			}
		}
	}
	return g.leafExpr(t)
}

// concatenated is appended to a string: floats are literals, the conversion library formats others with single precision
func (g *Gen) concatenated(depth int) Expr {
	switch g.N(3) {
	case 0:
		return g.expr(tInt, depth)
	case 1:
		return g.expr(tBool, depth)
	}
	return floatLit(strconv.FormatFloat(float64(g.R(-80, 80))/8, 'f', 1, 64))
}

func isNarrowInt(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return true
	}
	return false
}

func isScalarPtr(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && (t.Elem() == tInt || t.Elem() == tString || t.Elem() == tFloat || t.Elem() == tBool)
}

// throughNil tells if the reference itself may be a nil pointer
func throughNil(p *Path) bool {
	for _, s := range p.Steps {
		if strings.HasPrefix(s.Field, "Nil") || s.Index != nil {
			return true
		}
	}
	return len(p.Steps) == 0 && p.Root != "pn" && p.Root != "ps"
}

func (g *Gen) leafExpr(t reflect.Type) Expr {
	if g.P(60) {
		if p := g.ref(is(t), false, pick(g.Rand, 0, 1, 2, 3, 4)); p != nil {
			if t == tString && g.P(5) && quotable(p) {
				return &QRef{P: p}
			}
			return p
		}
	}
	switch t {
	case tInt:
		return g.intLiteral()
	case tFloat:
		return g.floatLiteral()
	case tString:
		return g.stringLiteral()
	case tBool:
		return boolLit(g.P(50))
	}
	panic("no literal of " + t.String())
}

func quotable(p *Path) bool {
	for _, s := range p.Steps {
		if s.Index != nil || s.Call != nil {
			return false
		}
	}
	return p.Call == nil
}

// callOf builds a function or method call with the result of type t
func (g *Gen) callOf(t reflect.Type, depth int) Expr {
	if g.noCalls {
		return nil
	}
	arg := func(t reflect.Type) Expr { return g.expr(t, depth) }
	fn := func(name string, t reflect.Type, args ...Expr) *Path {
		return &Path{Root: name, Call: &CallArgs{Args: args}, T: t}
	}
	index := func(p *Path, i Expr, t reflect.Type) *Path {
		p.Steps = append(p.Steps, Step{Index: i, Out: t})
		p.T = t
		return p
	}
	method := func(p *Path, name string, t reflect.Type, args ...Expr) *Path {
		if p == nil || !g.present(p) { // nothing is called on what is not there
			return nil
		}
		c := &Path{Root: p.Root, Call: p.Call, Steps: append([]Step{}, p.Steps...), T: t}
		c.Steps = append(c.Steps, Step{Field: name, Call: &CallArgs{Args: args}, Out: t})
		return c
	}
	orNil := func(p *Path) Expr {
		if p == nil {
			return nil
		}
		return p
	}
	switch t {
	case tInt:
		switch g.N(12) {
		case 0:
			return fn("inc", t, arg(tInt))
		case 1:
			return fn("add", t, arg(tInt), arg(tInt))
		case 2:
			return fn("sub3", t, arg(tInt), arg(tInt), arg(tInt))
		case 3:
			return fn("size", t, arg(tString))
		case 4:
			var args []Expr
			for n := g.N(5); n > 0; n-- {
				args = append(args, arg(tInt))
			}
			return fn("total", t, args...)
		case 5:
			return fn("orFail", t, &Bin{Op: "-", X: intLit(g.N(99)), Y: intLit(g.N(99))})
		case 6:
			return index(fn("ints", reflect.SliceOf(tInt), arg(tInt)), intLit(g.N(3)), tInt)
		case 7:
			return index(fn("table", reflect.MapOf(tString, tInt), arg(tInt)), strLit(pick(g.Rand, "a", "b", "q")), tInt)
		case 8, 9:
			return orNil(method(g.ref(is(tInt), false, 2), "inc", t))
		case 10:
			if p := g.ref(is(reflect.SliceOf(tInt)), false, 2); p != nil {
				return fn("sumInts", t, p)
			}
		case 11:
			return fn("answer", t)
		}
	case tFloat:
		switch g.N(3) {
		case 0:
			return fn("half", t, arg(tFloat))
		case 1:
			return orNil(method(g.ref(is(tFloat), false, 2), "half", t))
		default:
			return fn("half", t, arg(tInt)) // converted
		}
	case tString:
		switch g.N(9) {
		case 0:
			return fn("upper", t, arg(tString))
		case 1:
			return fn("join", t, arg(tString), arg(tString))
		case 2:
			return fn("mix", t, arg(tInt), arg(tString), arg(tFloat), arg(tBool))
		case 3:
			return orNil(method(g.ref(is(tString), false, 2), "upper", t))
		case 4:
			return orNil(method(g.ref(is(tString), false, 2), "join", t, arg(tString)))
		case 5:
			return fn("show", t, arg(pick(g.Rand, tInt, tString, tBool, tFloat)))
		case 6:
			return orNil(method(g.ref(is(tHost), false, 0), "Label", t, arg(tString)))
		case 7:
			return index(fn("pair", reflect.SliceOf(tString), arg(tString), arg(tString)), intLit(g.N(2)), tString)
		}
	case tBool:
		if g.P(50) {
			return fn("hasPrefix", t, arg(tString), arg(tString))
		}
		return fn("neg", t, arg(tBool))
	}
	return nil
}

// ---------------------------------------------------------------- statements

var plainText = []string{"a", "word ", "Hello, ", "\n", "  ", "x=1;", "<b>", "&", "é日本", "%d", "end", "if", "foo.", ".x", "[0]", "(1)", "_", "7", "\\", "{", "}", "\"", "'", "@", "\r\n", "\x00", "\xff"}
var oddText = []string{"$5", "$ ", "# ", "#1", "$.", "$$ ", "#)", "$-", "#-#-", "$(", "#'"}

func (g *Gen) text() *Text {
	if g.texts != nil {
		return &Text{S: g.texts(g.Rand)}
	}
	var b strings.Builder
	for n := g.R(1, 4); n > 0; n-- {
		if g.P(6) {
			b.WriteString(oddText[g.N(len(oddText))])
			b.WriteString(pick(g.Rand, ";", ",", "|"))
		} else {
			b.WriteString(plainText[g.N(len(plainText))])
		}
	}
	return &Text{S: b.String()}
}

func (g *Gen) anyRef() *Path {
	want := func(t reflect.Type) bool { return true }
	switch g.N(3) {
	case 0:
		want = func(t reflect.Type) bool { return t == tInt || t == tString || t == tFloat || t == tBool }
	case 1:
		k := pick(g.Rand, tInt, tString, tFloat, tBool)
		want = is(k)
	}
	return g.ref(want, false, g.R(0, 4))
}

func (g *Gen) block(depth int) []Stmt {
	var out []Stmt
	for n := g.R(1, g.blockSize); n > 0; n-- {
		if s := g.stmt(depth); s != nil {
			out = append(out, s)
		}
	}
	return out
}

func (g *Gen) stmt(depth int) Stmt {
	k := g.N(100)
	switch {
	case k < 18:
		return g.text()
	case k < 40:
		return g.out()
	case k < 43:
		return &Raw{S: pick(g.Rand, "", "$n", "#if($b)", "a ## b", "#end", "raw $h.A #set($n = 1) x", "\n")}
	case k < 46:
		return &Comment{S: pick(g.Rand, "", " note", " $n #if(", "# more", " #end"), NL: true}
	case k < 49 && !g.noUndef:
		return &Undef{Src: pick(g.Rand, "$nobody", "${nobody}", "$undefined_1", "$zz9", "${x_y}")}
	case k < 68 && !g.noSet:
		return g.set(depth)
	case k < 82 && depth > 0:
		return g.ifStmt(depth)
	case k < 91 && depth > 0 && g.loops < 3:
		return g.each(depth)
	case k < 96 && depth > 0 && g.loops < 3 && !g.noSet:
		return g.forStmt(depth)
	case k < 100 && len(g.tpls) > 0 && !g.noEval:
		name := g.tpls[g.N(len(g.tpls))]
		return &Eval{P: &Path{Root: name, T: tString}, Body: g.evalBody[name], Src: g.evalSrc[name]}
	}
	return g.out()
}

func (g *Gen) out() Stmt {
	var p *Path
	if !g.noCalls && g.P(15) {
		if c, ok := g.callOf(pick(g.Rand, tInt, tString, tFloat, tBool), 1).(*Path); ok {
			p = c
		}
	}
	if p == nil {
		p = g.anyRef()
	}
	if p == nil {
		return g.text()
	}
	return &Out{P: p, Braces: g.P(30), Bang: g.P(6), Mark: g.marked}
}

var basic = []reflect.Type{tInt, tString, tFloat, tBool}

func (g *Gen) newName(t reflect.Type) string {
	for {
		name := g.pfx + pick(g.Rand, "x", "y", "z", "v", "acc", "Tmp", "q_1") + strconv.Itoa(g.N(6))
		v := g.lookup(name)
		if v == nil {
			return name
		}
		if v.t == t && !v.frozen {
			return name
		}
	}
}

func (g *Gen) setNew(t reflect.Type, e Expr, nilable bool) Stmt {
	name := g.newName(t)
	if v := g.lookup(name); v == nil {
		g.vars = append(g.vars, &scopeVar{name: name, t: t, nilable: nilable})
	} else if nilable {
		v.nilable = true
	}
	return &Set{Target: &Path{Root: name, T: t}, E: e}
}

func (g *Gen) set(depth int) Stmt {
	switch g.N(10) {
	case 0, 1, 2: // a new variable, or one of the same type
		t := basic[g.N(4)]
		e := g.expr(t, 3)
		return g.setNew(t, e, false)
	case 3: // a compound value
		if p := g.ref(func(t reflect.Type) bool {
			return t.Kind() == reflect.Struct || t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map
		}, false, 2); p != nil {
			return g.setNew(p.T, p, true)
		}
	case 4, 5, 6, 7: // an existing place, of the same type
		t := basic[g.N(4)]
		if p := g.ref(is(t), true, g.R(0, 3)); p != nil {
			return &Set{Target: p, E: g.expr(t, 3)}
		}
	case 8: // a conversion
		dest := g.ref(func(t reflect.Type) bool {
			return t == tInt || t == tString || t == tBool || t == tFloat || isNarrowInt(t)
		}, true, g.R(0, 2))
		if dest != nil {
			switch {
			case dest.T == tString:
				return &Set{Target: dest, E: g.expr(pick(g.Rand, tInt, tBool), 2)}
			case dest.T == tBool:
				return &Set{Target: dest, E: g.expr(pick(g.Rand, tInt, tString), 2)}
			case dest.T == tInt:
				switch g.N(3) {
				case 0:
					return &Set{Target: dest, E: strLit(strconv.Itoa(g.R(-99, 999)))}
				case 1:
					return &Set{Target: dest, E: g.floatLiteral()}
				}
				return &Set{Target: dest, E: g.expr(tBool, 2)}
			default:
				return &Set{Target: dest, E: intLit(g.R(0, 100))}
			}
		}
	case 9: // a compound place
		dest := g.ref(func(t reflect.Type) bool { return t.Kind() == reflect.Struct || t.Kind() == reflect.Slice }, true, 2)
		if dest != nil {
			for try := 0; try < 6; try++ {
				src := g.ref(is(dest.T), false, 3)
				if src != nil && g.solid(src) {
					return &Set{Target: dest, E: src}
				}
			}
		}
	}
	t := basic[g.N(4)]
	e := g.expr(t, 2)
	return g.setNew(t, e, false)
}

// present tells that the reference does not lead through nil pointers, maps or unset variables
func (g *Gen) present(p *Path) bool {
	v := g.lookup(p.Root)
	if v == nil || v.nilable {
		return false
	}
	t := v.t
	for _, s := range p.Steps {
		if strings.HasPrefix(s.Field, "Nil") || (s.Index != nil && t.Kind() == reflect.Map) {
			return false
		}
		t = s.Out
	}
	return true
}

// solid tells that the value of the reference has no nil slices: it does not lead through nil pointers, maps or unset variables
func (g *Gen) solid(p *Path) bool {
	if v := g.lookup(p.Root); v == nil || v.nilable {
		return false
	}
	for _, s := range p.Steps {
		if strings.HasPrefix(s.Field, "Nil") || (s.Index != nil && typeOf(s.Index) == tString) {
			return false
		}
		if s.Index != nil {
			if l, ok := s.Index.(*Lit); ok && l.V.Kind() == reflect.Int && l.V.Int() > 1 {
				return false
			}
		}
	}
	return true
}

func (g *Gen) cond(depth int) Expr {
	switch g.N(6) {
	case 0:
		if p := g.ref(func(t reflect.Type) bool {
			return t == tInt || t == tString || t == tFloat || t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr
		}, false, g.R(0, 3)); p != nil {
			return p
		}
	case 1:
		return g.expr(pick(g.Rand, tInt, tFloat), 2)
	}
	return g.expr(tBool, 3)
}

func (g *Gen) ifStmt(depth int) Stmt {
	s := &If{}
	for n := pick(g.Rand, 1, 1, 1, 2, 3); n > 0; n-- {
		s.Conds = append(s.Conds, g.cond(depth))
		s.Blocks = append(s.Blocks, g.block(depth-1))
	}
	if g.P(50) {
		s.HasElse = true
		s.Else = g.block(depth - 1)
	}
	return s
}

func (g *Gen) loopVar(t reflect.Type, prefix string) *scopeVar {
	for i := 1; ; i++ {
		name := g.pfx + prefix + strconv.Itoa(i)
		v := g.lookup(name)
		if v == nil {
			v = &scopeVar{name: name, t: t}
			g.vars = append(g.vars, v)
			return v
		}
		if v.t == t && !v.frozen && g.P(70) {
			return v
		}
	}
}

func (g *Gen) each(depth int) Stmt {
	e := &Each{}
	t := tInt
	if g.P(30) {
		e.RangeOp = true
		e.A = g.R(-3, 6)
		e.B = e.A + g.R(-4, 4)
	} else {
		p := g.ref(func(t reflect.Type) bool { return t.Kind() == reflect.Slice }, false, 3)
		if p == nil {
			return g.text()
		}
		e.List = p
		t = p.T.Elem()
	}
	v := g.loopVar(t, "it")
	e.Item = v.name
	v.frozen, v.nilable = false, false
	if !e.RangeOp && !g.solid(e.List.(*Path)) {
		v.nilable = true
	}
	g.loops++
	e.Body = g.block(depth - 1)
	g.loops--
	if t.Kind() != reflect.Int && t.Kind() != reflect.String && t.Kind() != reflect.Float64 && t.Kind() != reflect.Bool {
		v.nilable = true // not set when there was nothing to iterate
	}
	return e
}

func (g *Gen) forStmt(depth int) Stmt {
	f := &For{}
	v := g.loopVar(tInt, "k")
	f.Var = v.name
	me := &Path{Root: v.name, T: tInt}
	n := g.R(0, 5)
	switch g.N(6) {
	case 0:
		f.Init, f.Cond, f.Post = intLit(n), &Bin{Op: ">", X: me, Y: intLit(0)}, "--"
	case 1:
		f.Init, f.Cond, f.Post, f.Y = intLit(0), &Bin{Op: "<", X: me, Y: intLit(n * 2)}, "+=", intLit(2)
	case 2:
		f.Init, f.Cond, f.Post, f.Y = intLit(1), &Bin{Op: "<=", X: me, Y: intLit(n * 10)}, "*=", intLit(g.R(2, 4))
	case 3:
		f.Init, f.Cond, f.Post, f.Y = intLit(n*7), me, "/=", intLit(g.R(2, 3)) // until it is zero
	case 4:
		f.Init, f.Cond, f.Post, f.Y = intLit(n), &Bin{Op: "!=", X: me, Y: intLit(n - 3)}, "-=", intLit(1)
	default:
		f.Init, f.Cond, f.Post = intLit(-n), &Bin{Op: "<", X: me, Y: intLit(g.R(0, 3))}, "++"
	}
	v.frozen = true
	g.loops++
	f.Body = g.block(depth - 1)
	g.loops--
	v.frozen = false
	return f
}

// addTemplates defines string variables holding templates for #evaluate, using the host variables
func (g *Gen) addTemplates(n int) {
	for i := 0; i < n; i++ {
		name := "tpl" + strconv.Itoa(i+1)
		sub := &Gen{Rand: g.Rand, hosts: g.hosts, fns: g.fns, noEval: g.P(50), tpls: append([]string{}, g.tpls...), evalBody: g.evalBody, evalSrc: g.evalSrc, blockSize: 3, noSet: g.noSet, noCalls: g.noCalls, noUndef: g.noUndef, marked: g.marked, pfx: g.pfx + string(rune('A'+i))}
		for _, v := range g.vars {
			c := *v
			sub.vars = append(sub.vars, &c)
		}
		body := sub.block(2)
		src := source(g.Rand, body)
		g.evalBody[name] = body
		g.evalSrc[name] = src
		v := reflect.New(tString).Elem()
		v.SetString(src)
		g.hosts[name] = v
		g.tpls = append(g.tpls, name)
	}
}

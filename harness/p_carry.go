package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/viant/velty"
)

// C23: a value of any Go type stays the same value wherever it is taken from and whatever takes it

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "a case is a value of a random type (all kinds, named types, structs, arrays, functions, channels, interfaces, pointers to pointers, types without size), put behind up to 4 random holders (fields, pointers, embedded structs, slices, maps, interfaces) in a variable, item, function or method result, and taken by functions (exact, interface and variadic parameters, several at once, in loops and conditions), new and existing variables, and fields; what arrives has to be identical: same type, same bits, same pointers; distinct by type, path and use",
		Plans: []Plan{
			{Variant: "plain", Quick: 600000, Thorough: 5000000},
			{Variant: "checkptr", Quick: 40000, Thorough: 500000},
		},
		Case: caseCarry,
		Min:  []string{"field", "pointer", "slice", "map", "interface", "named interface", "embedded", "embedded pointer", "variable", "item", "function result", "method result", "exact", "any", "variadic", "variadic any", "new variable", "existing variable", "to field", "in loop", "nil", "receiver", "render"},
	})
}

type (
	carryInt    int32
	carryText   string
	carryOne    struct{ P *Leaf }
	carryNone   struct{}
	carryFunc   func(int) int
	carryNamer  interface{ Name() string }
	carryNamed  struct{ S string }
	carryList   []string
	carryTable  map[string]int
	carryPair   [2]*Leaf
	carryNested struct{ O carryOne }
)

type (
	carryAnyList  []interface{}
	carryAnyTable map[string]interface{}
)

func (c carryAnyList) Name() string  { return "any" }
func (c carryAnyTable) Name() string { return "any" }
func (c carryOne) Name() string      { return "one" }
func (c carryNamed) Name() string    { return c.S }
func (c *carryList) Name() string    { return "list" }
func (c carryFunc) Name() string     { return "func" }
func (c carryTable) Name() string    { return "table" }
func (c carryNested) Name() string   { return "nested" }

var carryBase = []reflect.Type{
	tInt, tString, tFloat, tBool, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(carryInt(0)), reflect.TypeOf(carryText("")), reflect.TypeOf(carryOne{}), reflect.TypeOf(carryNone{}), reflect.TypeOf(carryFunc(nil)), reflect.TypeOf((*carryNamer)(nil)).Elem(),
	reflect.TypeOf(carryNamed{}), reflect.TypeOf(carryList{}), reflect.TypeOf(carryTable{}), reflect.TypeOf(carryPair{}), reflect.TypeOf(carryNested{}), reflect.TypeOf(Leaf{}), reflect.TypeOf(time.Time{}),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(func() int { return 0 }), reflect.TypeOf(make(chan int)), reflect.TypeOf(&Leaf{}),
}

func (r *Rand) carryType(depth int) reflect.Type {
	if depth == 0 || r.P(45) {
		return carryBase[r.N(len(carryBase))]
	}
	switch r.N(7) {
	case 0:
		return reflect.SliceOf(r.carryType(depth - 1))
	case 1:
		return reflect.ArrayOf(r.N(4), r.carryType(depth-1))
	case 2:
		return reflect.MapOf(pick(r, tString, tInt, reflect.TypeOf(carryInt(0)), tBool, reflect.TypeOf(Leaf2{})), r.carryType(depth-1))
	case 3, 4:
		return reflect.PtrTo(r.carryType(depth - 1))
	}
	var fields []reflect.StructField
	for i := r.R(1, 4); i > 0; i-- {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("A%d", i), Type: r.carryType(depth - 1)})
	}
	return reflect.StructOf(fields)
}

var carryNamers = []carryNamer{carryOne{&Leaf{N: 4}}, carryNamed{"named"}, &carryNamed{"pointer"}, &carryList{"a"}, carryFunc(func(i int) int { return i }), carryTable{"a": 1}, carryNested{carryOne{&Leaf{N: 5}}}}

// fillCarry fills the value
func (r *Rand) fillCarry(v reflect.Value, depth int) {
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 0 && r.P(10) {
			return
		}
		v.Set(reflect.New(t.Elem()))
		r.fillCarry(v.Elem(), depth+1)
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(int64(r.N(1e9)), int64(r.N(1e9))).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			r.fillCarry(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fillCarry(v.Index(i), depth+1)
		}
	case reflect.Slice:
		n := r.N(4)
		v.Set(reflect.MakeSlice(t, n, n+r.N(3)))
		for i := 0; i < n; i++ {
			r.fillCarry(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := r.N(3); i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			r.fillCarry(k, depth+1)
			r.fillCarry(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		switch {
		case t.NumMethod() == 0:
			e := reflect.New(carryBase[r.N(len(carryBase))]).Elem()
			if e.Kind() == reflect.Interface {
				e = reflect.New(tInt).Elem()
			}
			r.fillCarry(e, depth+1)
			v.Set(e)
		case t.Name() == "error":
			v.Set(reflect.ValueOf(&Oops{r.word(4)}))
		default:
			v.Set(reflect.ValueOf(carryNamers[r.N(len(carryNamers))]))
		}
	case reflect.Func:
		n := r.N(100)
		if t == reflect.TypeOf(carryFunc(nil)) {
			v.Set(reflect.ValueOf(carryFunc(func(i int) int { return i + n })))
			return
		}
		v.Set(reflect.ValueOf(func() int { return n }))
	case reflect.Chan:
		v.Set(reflect.MakeChan(t, 1))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(r.float(), r.float()))
	case reflect.Uintptr:
		v.SetUint(r.U64())
	default:
		v.Set(r.scalar(carryKind(v.Kind()), true).Convert(t))
	}
}

func carryKind(k reflect.Kind) reflect.Type {
	for _, t := range exprKinds {
		if t.Kind() == k {
			return t
		}
	}
	panic(k.String())
}

// identical tells how the values differ: the same types, bits and references are wanted
func identical(a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%v instead of %v", b, a)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%v instead of %v", b.Type(), a.Type())
	}
	differ := func(x, y interface{}) string {
		if x != y {
			return fmt.Sprintf("%v instead of %v", y, x)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan:
		return differ(a.Pointer(), b.Pointer())
	case reflect.Func:
		if a.IsNil() || b.IsNil() {
			return differ(a.IsNil(), b.IsNil())
		}
		if d := differ(a.Pointer(), b.Pointer()); d != "" {
			return d
		}
		switch f := a.Interface().(type) { // the same function with what it holds
		case func() int:
			return differ(f(), b.Interface().(func() int)())
		case carryFunc:
			return differ(f(1), b.Interface().(carryFunc)(1))
		}
		return ""
	case reflect.Slice:
		return differ([3]interface{}{a.Pointer(), a.Len(), a.Cap()}, [3]interface{}{b.Pointer(), b.Len(), b.Cap()})
	case reflect.Interface:
		return identical(a.Elem(), b.Elem())
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			return differ(t, b.Interface())
		}
		for i := 0; i < a.NumField(); i++ {
			if d := identical(a.Field(i), b.Field(i)); d != "" {
				return a.Type().Field(i).Name + ": " + d
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := identical(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("%d: %s", i, d)
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != a.Float() && b.Float() != b.Float() {
			return ""
		}
		return differ(a.Float(), b.Float())
	case reflect.Complex64, reflect.Complex128:
		if fmt.Sprint(a) == fmt.Sprint(b) {
			return ""
		}
		return differ(a.Complex(), b.Complex())
	}
	return differ(a.Interface(), b.Interface())
}

// CarryHost has methods that hand out and take values
type CarryHost struct {
	Value interface{}
	taken *[]reflect.Value
}

func (h CarryHost) Hand() interface{}   { return h.Value }
func (h *CarryHost) PHand() interface{} { return h.Value }
func (h CarryHost) Take(v interface{}) string {
	*h.taken = append(*h.taken, reflect.ValueOf(v))
	return "."
}

var carryPairs = regexp.MustCompile(`(?s)\x01(.*?)\x02(.*?)\x03`)
var carryNames = regexp.MustCompile(`\{[^}]*\}`)

func caseCarry(c *Ctx) {
	t := c.carryType(3)
	v := reflect.New(t).Elem()
	c.fillCarry(v, 0)
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface:
		if c.P(12) {
			v.Set(reflect.Zero(t))
			c.Count("nil", 1)
		}
	}
	var taken, want []reflect.Value
	dynamic := v // as it arrives in an interface
	if t.Kind() == reflect.Interface {
		dynamic = v.Elem()
	}
	fns := map[string]interface{}{}
	values := map[string]reflect.Value{}

	// holders around the value
	cur, path, shape := v, "", ""
	opened := false // the path goes through an interface: its type is not known before
	counter := 0
	hold := func(kind string) { shape += kind + " "; c.Count(kind, 1) }
	around := func(t reflect.Type, name string, anonymous bool) reflect.Value {
		var fields []reflect.StructField
		for i := c.N(3); i > 0; i-- {
			counter++
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Pre%d", counter), Type: carryBase[c.N(len(carryBase))]})
		}
		fields = append(fields, reflect.StructField{Name: name, Type: t, Anonymous: anonymous})
		for i := c.N(2); i > 0; i-- {
			counter++
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Post%d", counter), Type: carryBase[c.N(len(carryBase))]})
		}
		s := reflect.New(reflect.StructOf(fields)).Elem()
		for i := 0; i < s.NumField(); i++ {
			if fields[i].Name != name {
				c.fillCarry(s.Field(i), 1)
			}
		}
		return s
	}
	for n := pick(c.Rand, 0, 0, 1, 1, 2, 3, 4); n > 0; n-- {
		field := strings.HasPrefix(path, ".")
		switch k := c.N(8); {
		case k < 2:
			counter++
			name := fmt.Sprintf("F%d", counter)
			s := around(cur.Type(), name, false)
			s.FieldByName(name).Set(cur)
			cur, path = s, "."+name+path
			hold("field")
		case k == 2 && field && cur.Type().Name() == "": // promoted
			e := cur.Type()
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			if e.Kind() != reflect.Struct || e.Name() != "" || e.NumMethod() > 0 {
				continue
			}
			kind := "embedded"
			if cur.Kind() == reflect.Ptr {
				kind = "embedded pointer"
			}
			counter++
			name := fmt.Sprintf("E%d", counter)
			s := around(cur.Type(), name, true)
			s.FieldByName(name).Set(cur)
			cur = s
			hold(kind)
		case k == 3 && field:
			p := reflect.New(cur.Type())
			p.Elem().Set(cur)
			cur = p
			hold("pointer")
			if c.P(15) {
				p := reflect.New(cur.Type())
				p.Elem().Set(cur)
				cur = p
				hold("pointer to pointer")
			}
		case k == 4:
			l := reflect.MakeSlice(reflect.SliceOf(cur.Type()), 3, 3)
			i := c.N(3)
			l.Index(i).Set(cur)
			cur, path = l, fmt.Sprintf("[%d]", i)+path
			hold("slice")
		case k == 5:
			key := reflect.ValueOf(pick[interface{}](c.Rand, "k", 3))
			m := reflect.MakeMap(reflect.MapOf(key.Type(), cur.Type()))
			m.SetMapIndex(key, cur)
			index := `["k"]`
			if key.Kind() == reflect.Int {
				index = "[3]"
			}
			cur, path = m, index+path
			hold("map")
		case k == 7 && !field && c.P(30) && !strings.Contains(path, "."): // in an interface with methods
			var n carryNamer
			index := ""
			var val interface{}
			if cur.Kind() != reflect.Interface || !cur.IsNil() {
				val = cur.Interface()
			}
			if c.P(50) {
				n, index = carryAnyList{nil, 1, val}, "[2]"
			} else {
				n, index = carryAnyTable{"a": 1, "k": val}, `["k"]`
			}
			named := reflect.New(reflect.TypeOf((*carryNamer)(nil)).Elem()).Elem()
			named.Set(reflect.ValueOf(n))
			cur, path = named, index+path
			opened = true
			hold("named interface")
		case k >= 6 && !strings.Contains(path, "."): // the value in an interface
			any := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
			if cur.Kind() != reflect.Interface || !cur.IsNil() {
				any.Set(reflect.ValueOf(cur.Interface()))
			}
			cur = any
			opened = true
			hold("interface")
		}
	}
	src := ""
	before, after := "", ""
	times := 1
	switch c.N(6) {
	case 0, 1:
		values["v"] = cur
		src = "$v" + path
		hold("variable")
	case 2:
		l := reflect.MakeSlice(reflect.SliceOf(cur.Type()), 0, 0)
		times = c.R(1, 3)
		for i := 0; i < times; i++ {
			l = reflect.Append(l, cur)
		}
		values["l"] = l
		before, after = "#foreach($it in $l)", "#end"
		src = "$it" + path
		hold("item")
	case 3:
		if strings.Contains(path, ".") {
			values["v"] = cur
			src = "$v" + path
			hold("variable")
			break
		}
		res := cur
		fns["f"] = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{cur.Type()}, false), func([]reflect.Value) []reflect.Value { return []reflect.Value{res} }).Interface()
		src = "$f()" + path
		hold("function result")
	case 4:
		if path == "" {
			h := CarryHost{taken: &taken}
			if dynamic.IsValid() {
				h.Value = dynamic.Interface()
			}
			opened = true
			if c.P(50) {
				values["h"] = reflect.ValueOf(h)
				src = "$h.Hand()"
			} else {
				values["h"] = reflect.ValueOf(&h)
				src = pick(c.Rand, "$h.Hand()", "$h.PHand()")
			}
			hold("method result")
			break
		}
		fallthrough
	default:
		values["w"] = cur
		before = "#set($v = $w)"
		src = "$v" + path
		hold("assigned variable")
	}
	t0 := t
	if opened {
		t0 = reflect.TypeOf((*interface{})(nil)).Elem()
	}

	// what takes the value
	expected := func(use string, n int) {
		for ; n > 0; n-- {
			switch use {
			case "exact":
				if opened { // given as its dynamic type
					want = append(want, dynamic)
				} else {
					want = append(want, v)
				}
			default:
				want = append(want, dynamic)
			}
		}
	}
	var body strings.Builder
	var uses []string
	stored := ""
	name := 0
	names := "" // rendered by one item
	for n := c.R(1, 3); n > 0; n-- {
		name++
		use := pick(c.Rand, "exact", "exact", "any", "any", "variadic", "variadic any", "new variable", "existing variable", "to field", "in loop", "twice", "condition", "method", "receiver", "receiver", "render", "render")
		fn := fmt.Sprintf("t%d", name)
		take := func(params []reflect.Type, variadic bool) {
			result := tString
			if use == "condition" {
				result = tBool
			}
			fns[fn] = reflect.MakeFunc(reflect.FuncOf(params, []reflect.Type{result}, variadic), func(args []reflect.Value) []reflect.Value {
				for i, a := range args {
					if variadic && i == len(args)-1 {
						for j := 0; j < a.Len(); j++ {
							taken = append(taken, a.Index(j))
						}
						continue
					}
					taken = append(taken, a)
				}
				if use == "condition" {
					return []reflect.Value{reflect.ValueOf(true)}
				}
				return []reflect.Value{reflect.ValueOf(".")}
			}).Interface()
		}
		any := reflect.TypeOf((*interface{})(nil)).Elem()
		exact := t
		if opened && !dynamic.IsValid() {
			exact = any
		} else if opened {
			exact = dynamic.Type()
		}
		switch use {
		case "exact":
			take([]reflect.Type{exact}, false)
			body.WriteString("$" + fn + "(" + src + ")")
			expected("exact", times)
		case "any":
			take([]reflect.Type{any}, false)
			body.WriteString("$" + fn + "(" + src + ")")
			expected("any", times)
		case "twice":
			take([]reflect.Type{exact, any}, false)
			body.WriteString("$" + fn + "(" + src + ", " + src + ")")
			for i := 0; i < times; i++ {
				expected("exact", 1)
				expected("any", 1)
			}
		case "condition":
			take([]reflect.Type{exact}, false)
			body.WriteString("#if($" + fn + "(" + src + "))y#{else}n#end")
			expected("exact", times)
		case "receiver": // the method of the value is called
			if opened || !dynamic.IsValid() || dynamic.Kind() == reflect.Ptr && dynamic.IsNil() || !t.Implements(reflect.TypeOf((*carryNamer)(nil)).Elem()) {
				continue
			}
			body.WriteString("{" + src + ".Name()}")
			if dynamic.Kind() == reflect.Ptr && dynamic.Elem().Kind() == reflect.Interface {
				continue
			}
			names += "{" + dynamic.Interface().(carryNamer).Name() + "}"
		case "render": // looks like the same value in a variable
			plain := reflect.New(t0).Elem()
			if !opened {
				plain.Set(v)
			} else if dynamic.IsValid() {
				plain.Set(dynamic)
			}
			values["plain"] = plain
			body.WriteString("\x01" + src + "\x02" + pick(c.Rand, "$plain", "${plain}") + "\x03")
		case "method":
			if _, ok := values["h"]; ok {
				continue
			}
			values["h"] = reflect.ValueOf(CarryHost{taken: &taken})
			body.WriteString("$h.Take(" + src + ")")
			expected("any", times)
		case "variadic", "variadic any":
			p := exact
			kind := "exact"
			if use == "variadic any" {
				p, kind = any, "any"
			}
			take([]reflect.Type{reflect.SliceOf(p)}, true)
			k := c.R(1, 3)
			body.WriteString("$" + fn + "(" + strings.Repeat(src+", ", k-1) + src + ")")
			expected(kind, k*times)
		case "in loop":
			take([]reflect.Type{any}, false)
			body.WriteString("#foreach($n" + fn + " in [0...2])$" + fn + "(" + src + ")#end")
			expected("any", 2*times)
		case "new variable":
			take([]reflect.Type{exact}, false)
			body.WriteString("#set($n" + fn + " = " + src + ")$" + fn + "($n" + fn + ")")
			expected("exact", times)
		case "existing variable":
			take([]reflect.Type{exact}, false)
			z := reflect.New(t0).Elem()
			if c.P(50) {
				c.fillCarry(z, 0)
			}
			values["z"+fn] = z
			body.WriteString("#set($z" + fn + " = " + src + ")$" + fn + "($z" + fn + ")")
			expected("exact", times)
		case "to field":
			if stored != "" {
				continue
			}
			s := around(t0, "F", false)
			c.fillCarry(s.FieldByName("F"), 0)
			p := reflect.New(s.Type())
			p.Elem().Set(s)
			stored = "s" + fn
			values[stored] = p
			body.WriteString("#set($" + stored + ".F = " + src + ")")
		}
		uses = append(uses, use)
		c.Count(use, 1)
	}
	text := before + body.String() + after
	c.Desc("%s with %v behind %s(%s) = %s", text, t, shape, strings.Join(uses, ", "), clip(fmt.Sprintf("%+v", dynamic), 300))
	var keep interface{}
	if stored != "" {
		keep = dump2(values[stored], "F")
	}
	var err error
	out := ""
	stage := "definition"
	panicked, stack := guard(func() {
		pl := velty.New()
		for _, n := range sortedKeys(fns) {
			if err = pl.RegisterFunction(n, fns[n]); err != nil {
				return
			}
		}
		for _, n := range sortedKeys(values) {
			if err = pl.DefineVariable(n, values[n].Type()); err != nil {
				return
			}
		}
		stage = "compile"
		exec, newState, cerr := pl.Compile([]byte(text))
		if err = cerr; err != nil {
			return
		}
		stage = "data"
		st := newState()
		for _, n := range sortedKeys(values) {
			val := values[n]
			if val.Kind() == reflect.Interface && val.IsNil() {
				continue
			}
			if err = st.SetValue(n, val.Interface()); err != nil {
				return
			}
		}
		stage = "execution"
		err = exec.Exec(st)
		out = st.Buffer.String()
	})
	switch {
	case panicked != nil:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
		return
	case err != nil:
		c.Violate("error in "+stage, "%v", err)
		return
	case len(taken) != len(want):
		c.Violate("calls", "%d values were taken instead of %d", len(taken), len(want))
		return
	}
	for _, pair := range carryPairs.FindAllStringSubmatch(out, -1) {
		if pair[1] != pair[2] {
			c.Violate("rendered", "%q instead of %q", clip(pair[1], 500), clip(pair[2], 500))
			return
		}
	}
	out = carryPairs.ReplaceAllString(out, "")
	if got := strings.Join(carryNames.FindAllString(out, -1), ""); got != strings.Repeat(names, times) {
		c.Violate("receiver", "%q instead of %q", out, strings.Repeat(names, times))
		return
	}
	for i := range want {
		g, w := taken[i], want[i]
		if g.IsValid() && g.Kind() == reflect.Interface {
			g = g.Elem()
		}
		if w.IsValid() && w.Kind() == reflect.Interface {
			w = w.Elem()
		}
		if d := identical(w, g); d != "" {
			c.Violate("value", "value %d: %s", i, clip(d, 500))
			return
		}
	}
	if stored != "" {
		w := v
		g := values[stored].Elem().FieldByName("F")
		if opened {
			w, g = dynamic, g.Elem()
		}
		if d := identical(w, g); d != "" {
			c.Violate("stored value", "%s", clip(d, 500))
			return
		}
		if k := dump2(values[stored], "F"); !reflect.DeepEqual(k, keep) {
			c.Violate("neighbours", "%v instead of %v", k, keep)
			return
		}
	}
	c.Saw(fmt.Sprint(t, shape, uses))
	c.Sample("%s with %v behind %s", text, t, shape)
}

// dump2 is the data of the fields other than the named one
func dump2(p reflect.Value, except string) map[string]string {
	out := map[string]string{}
	for i := 0; i < p.Elem().NumField(); i++ {
		if n := p.Elem().Type().Field(i).Name; n != except {
			out[n] = fmt.Sprintf("%#v", p.Elem().Field(i))
		}
	}
	return out
}

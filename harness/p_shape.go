package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
)

// C03: references reach exactly the data Go's reflection finds, for arbitrary shapes of types

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "a case is a random type (nested structs, pointers, slices, maps, embedded structs and pointers, recursive types, velty tags) with random data and a template of references to random places of it; the rendering has to be what reflection finds there; distinct by template and type",
		Plans: []Plan{
			{Variant: "plain", Quick: 100000, Thorough: 1500000},
			{Variant: "checkptr", Quick: 10000, Thorough: 150000},
		},
		Case: caseShape,
		Min:  []string{"reference", "through pointer", "through embedded", "recursive", "tagged", "indexed", "embedded variable", "set", "prefixed twice", "through call", "of a result", "field of a result"},
	})
}

// types StructOf can't build

type rNode struct {
	V    int
	Name string
	Next *rNode
	NilN *rNode
	Kids []rNode
	PK   []*rNode
	By   map[string]*rNode
	O    *rOther
	In   Leaf
	In2  Leaf
	Twin rPair
}

type rOther struct {
	W    float64
	Back *rNode
	More []rOther
	P    rPair
	Q    *rPair
}

type rPair struct{ L, R Leaf }

type rEmb struct {
	rBase
	*rExt
	Own int
	Sub rBase2
}

type rBase struct {
	BaseN int
	BaseL Leaf
	BaseP *Leaf
	BaseS []Leaf
}

type rBase2 struct {
	Pad string
	rDeep
	Tail int
}

type rDeep struct {
	DeepA string
	DeepL Leaf
}

type rExt struct {
	ExtN int
	ExtL Leaf
	ExtM map[string]int
	rDeep2
}

type rDeep2 struct{ D2 string }

// shapes makes random types
type shapes struct {
	*Rand
	n     int
	depth int
}

func (s *shapes) name(prefix string) string {
	s.n++
	return prefix + strconv.Itoa(s.n)
}

var shapeScalars = []reflect.Type{
	tInt, tString, tFloat, tBool, tInt, tString,
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
}

var staticShapes = []reflect.Type{tLeaf, tMid, tHost, reflect.TypeOf(rNode{}), reflect.TypeOf(rOther{}), reflect.TypeOf(rEmb{}), reflect.TypeOf(rPair{}), reflect.TypeOf(time.Time{})}

func (s *shapes) any(depth int) reflect.Type {
	k := s.N(20)
	if depth <= 0 {
		return shapeScalars[s.N(len(shapeScalars))]
	}
	switch {
	case k < 7:
		return shapeScalars[s.N(len(shapeScalars))]
	case k < 10:
		return s.structOf(depth - 1)
	case k < 12:
		return reflect.PtrTo(s.structOf(depth - 1))
	case k < 14:
		return reflect.SliceOf(s.any(depth - 1))
	case k < 15:
		t := s.structOf(depth - 1)
		return reflect.SliceOf(reflect.PtrTo(t))
	case k < 17:
		return reflect.MapOf(pick(s.Rand, tString, tString, tInt), s.any(depth-1))
	case k < 18:
		return reflect.PtrTo(shapeScalars[s.N(4)])
	case k < 19:
		return staticShapes[s.N(len(staticShapes))]
	default:
		return reflect.PtrTo(staticShapes[s.N(len(staticShapes))])
	}
}

func (s *shapes) structOf(depth int) reflect.Type {
	var fields []reflect.StructField
	if depth > 0 && s.P(8) { // names prefixed again and again
		return s.prefixed(depth)
	}
	for n := s.R(1, 6); n > 0; n-- {
		f := reflect.StructField{Name: s.name("F"), Type: s.any(depth)}
		switch k := s.N(20); {
		case k < 2 && depth > 0: // embedded
			f.Name = s.name("E")
			f.Anonymous = true
			f.Type = s.structOf(depth - 1)
			if s.P(40) {
				f.Type = reflect.PtrTo(f.Type)
			}
			if s.P(25) {
				f.Tag = reflect.StructTag(fmt.Sprintf(`velty:"prefix=%s"`, s.prefix()))
			}
		case k < 4 && f.Type.Kind() == reflect.Ptr:
			f.Name = s.name("Nil")
		case k < 5:
			f.Tag = reflect.StructTag(fmt.Sprintf(pick(s.Rand, `velty:"name=%s"`, `velty:"%s"`, `velty:"name= %s , other=x"`, `json:"name=J" velty:"%s,omitempty"`, `velty:"other,name=%s"`), s.name("tag")))
		case k < 6:
			f.Tag = reflect.StructTag(fmt.Sprintf(pick(s.Rand, `velty:"names=%s|%s"`, `velty:"%s|%s"`, `velty:"other=x,names=%s|%s"`, `velty:"names= %s|%s "`, `velty:" %s|%s ,other"`), s.name("Alt"), s.name("alt")))
		case k < 7:
			f.Tag = reflect.StructTag(pick(s.Rand, `json:"j,omitempty" velty:"-"`, `velty:"name=Hidden,-"`, `velty:" - "`, `velty:"-,names=Hidden1|Hidden2"`))
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

func (s *shapes) prefix() string {
	return pick(s.Rand, s.name("P")+"_", s.name("P")+"x", s.name("at")+"A", s.name("P_"), s.name("P")+"__")
}

// prefixed has an embedded struct with a prefix, in which there are others
func (s *shapes) prefixed(levels int) reflect.Type {
	fields := []reflect.StructField{{Name: s.name("F"), Type: shapeScalars[s.N(len(shapeScalars))]}}
	for n := s.R(1, 2); n > 0 && levels > 0; n-- {
		f := reflect.StructField{Name: s.name("E"), Anonymous: true, Type: s.prefixed(levels - 1)}
		if s.P(30) {
			f.Type = reflect.PtrTo(f.Type)
		}
		if s.P(80) {
			f.Tag = reflect.StructTag(fmt.Sprintf(`velty:"prefix=%s"`, s.prefix()))
		}
		fields = append(fields, f)
	}
	fields = append(fields, reflect.StructField{Name: s.name("F"), Type: s.any(0)})
	if s.P(30) {
		fields[0].Tag = reflect.StructTag(fmt.Sprintf(`velty:"names=%s|%s"`, s.name("Alt"), s.name("alt")))
	}
	return reflect.StructOf(fields)
}

// shapePath is a place in a value, and how a template refers to it
type shapePath struct {
	src   string
	value reflect.Value // invalid when the way leads through nil
	t     reflect.Type
	set   bool
}

type shapeWalk struct {
	*Rand
	c     *Ctx
	stats map[string]int
	fns   map[string]reflect.Value // functions called on the way
}

// call leads through a function of the place, that gives back what it is called on
func (w *shapeWalk) call(p shapePath) shapePath {
	if p.t.Kind() == reflect.Interface {
		return p
	}
	t := p.t
	name := w.fnName()
	w.fns[name] = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{t, tInt}, []reflect.Type{t}, false), func(in []reflect.Value) []reflect.Value { return in[:1] })
	w.stats["through call"]++
	p.src, p.set = fmt.Sprintf("%s.%s(%d)", p.src, name, w.N(9)), false
	return p
}

// result is a place in what a function gives
func (w *shapeWalk) result(v reflect.Value) shapePath {
	name := w.fnName()
	if _, shared := w.fns[name]; shared || v.Kind() == reflect.Interface {
		return shapePath{src: "v0"}
	}
	w.fns[name] = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{tInt}, []reflect.Type{v.Type()}, false), func(in []reflect.Value) []reflect.Value { return []reflect.Value{v} })
	w.stats["of a result"]++
	return shapePath{src: fmt.Sprintf("%s(%d)", name, w.N(9)), value: v, t: v.Type()}
}

// fnName is the name of a variable, of a field, or another one
func (w *shapeWalk) fnName() string {
	name := pick(w.Rand, "v0", "v1", "v2", "Name", "In2", "L", "Kids")
	if _, used := w.fns[name]; used || w.P(20) {
		name = fmt.Sprint("fn", len(w.fns))
	}
	return name
}

// promoted lists the names a struct offers in templates, with the fields they lead to
type promotedField struct {
	name  string
	index []int
	f     reflect.StructField

	prefixes int
}

var promotedCache = map[reflect.Type][]promotedField{}

func promotedOf(t reflect.Type) []promotedField {
	if p, ok := promotedCache[t]; ok {
		return p
	}
	var res []promotedField
	var walk func(t reflect.Type, prefix string, prefixes int, index []int)
	walk = func(t reflect.Type, prefix string, prefixes int, index []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			at := append(append([]int{}, index...), i)
			tag := veltyTag(f)
			if tag["-"] != "" {
				continue
			}
			if f.Anonymous {
				e := f.Type
				if e.Kind() == reflect.Ptr {
					e = e.Elem()
				}
				n := prefixes
				if tag["prefix"] != "" {
					n++
				}
				walk(e, prefix+tag["prefix"], n, at)
				continue
			}
			names := []string{f.Name}
			if tag["name"] != "" {
				names = []string{tag["name"]}
			} else if tag["names"] != "" {
				names = strings.Split(tag["names"], "|")
			}
			for _, n := range names {
				res = append(res, promotedField{prefix + n, at, f, prefixes})
			}
		}
	}
	walk(t, "", 0, nil)
	promotedCache[t] = res
	return res
}

func veltyTag(f reflect.StructField) map[string]string {
	m := map[string]string{}
	for i, text := range strings.Split(f.Tag.Get("velty"), ",") {
		text = strings.TrimSpace(text)
		if eq := strings.Index(text, "="); eq > 0 {
			m[strings.TrimSpace(text[:eq])] = strings.TrimSpace(text[eq+1:])
		} else if text == "-" {
			m["-"] = "-"
		} else if i == 0 && text != "" && text != "other" {
			m["names"] = text // without a key
		}
	}
	return m
}

// down takes the field with nil checks
func fieldAt(v reflect.Value, index []int) reflect.Value {
	for _, i := range index {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v
}

// walk follows a random way down from the value
func (w *shapeWalk) walk(src string, v reflect.Value, t reflect.Type, steps int) shapePath {
	return w.follow(shapePath{src: src, value: v, t: t, set: true}, steps)
}

func (w *shapeWalk) follow(p shapePath, steps int) shapePath {
	for ; steps > 0; steps-- {
		if w.P(6) {
			p = w.call(p)
		}
		t := p.t
		v := p.value
		if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
			w.stats["through pointer"]++
			t = t.Elem()
			if v.IsValid() {
				if v.IsNil() {
					v = reflect.Value{}
				} else {
					v = v.Elem()
				}
			}
		}
		switch t.Kind() {
		case reflect.Struct:
			if t == velty.TimeType {
				return p
			}
			fs := promotedOf(t)
			if len(fs) == 0 {
				return p
			}
			f := fs[w.N(len(fs))]
			if v.IsValid() {
				v = fieldAt(v, f.index)
			}
			if len(f.index) > 1 {
				w.stats["through embedded"]++
			}
			if f.prefixes > 1 {
				w.stats["prefixed twice"]++
			}
			if f.name != f.f.Name {
				w.stats["tagged"]++
			}
			if strings.HasPrefix(p.t.String(), "main.rNode") || strings.HasPrefix(p.t.String(), "*main.rNode") {
				w.stats["recursive"]++
			}
			if strings.Contains(p.src, ")") {
				w.stats["field of a result"]++
			}
			p.src, p.value, p.t = p.src+"."+f.name, v, f.f.Type
		case reflect.Slice:
			if !v.IsValid() || v.Len() == 0 {
				return p
			}
			i := w.N(v.Len())
			w.stats["indexed"]++
			p.src, p.value, p.t = fmt.Sprintf("%s[%d]", p.src, i), v.Index(i), t.Elem()
		case reflect.Map:
			key := reflect.New(t.Key()).Elem()
			k := ""
			if t.Key() == tInt {
				i := w.N(4)
				key.SetInt(int64(i))
				k = strconv.Itoa(i)
			} else {
				s := pick(w.Rand, "a", "b", "c", "z")
				key.SetString(s)
				k = `"` + s + `"`
			}
			if v.IsValid() {
				v = v.MapIndex(key)
			}
			w.stats["indexed"]++
			p.src, p.value, p.t, p.set = fmt.Sprintf("%s[%s]", p.src, k), v, t.Elem(), false
		default:
			return p
		}
	}
	return p
}

func (p shapePath) rendered() string {
	v := p.value
	if !v.IsValid() {
		v = reflect.Zero(p.t)
	}
	return renderAs(v, p.t)
}

func renderAs(v reflect.Value, t reflect.Type) string { return renderValue(v) }

func (r *Rand) fillShape(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == velty.TimeType {
			v.Set(reflect.ValueOf(time.Unix(int64(r.R(0, 2000000000)), int64(r.N(1e9))).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Type.Kind() == reflect.Ptr && ((strings.HasPrefix(f.Name, "Nil") && r.P(60)) || depth > 5 || r.P(5)) {
				continue
			}
			fv := v.Field(i)
			if f.PkgPath != "" { // embedded unexported type
				fv = reflect.NewAt(f.Type, fv.Addr().UnsafePointer()).Elem()
			}
			r.fillShape(fv, depth+1)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		r.fillShape(v.Elem(), depth+1)
	case reflect.Slice:
		n := r.R(0, 3)
		if depth > 4 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			r.fillShape(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		if depth > 4 {
			return
		}
		for i, k := range mapKeys {
			if r.P(30) {
				continue
			}
			key := reflect.New(v.Type().Key()).Elem()
			if key.Kind() == reflect.Int {
				key.SetInt(int64(i))
			} else {
				key.SetString(string(k))
			}
			elem := reflect.New(v.Type().Elem()).Elem()
			r.fillShape(elem, depth+1)
			v.SetMapIndex(key, elem)
		}
	default:
		r.fill(v, depth)
	}
}

func caseShape(c *Ctx) {
	s := &shapes{Rand: c.Rand}
	pl := velty.New()
	w := &shapeWalk{Rand: c.Rand, c: c, stats: map[string]int{}, fns: map[string]reflect.Value{}}
	type variable struct {
		name string
		v    reflect.Value // the reference's data, changed along with the template
		host reflect.Value // equal data, the template's
	}
	var vars []variable
	var embedded, embeddedHost reflect.Value
	var typesText []string
	for i, n := 0, c.R(1, 3); i < n; i++ {
		var t reflect.Type
		switch c.N(6) {
		case 0:
			t = staticShapes[c.N(len(staticShapes))]
		case 1:
			t = s.any(3)
		default:
			t = s.structOf(3)
		}
		if c.P(50) && t.Kind() == reflect.Struct {
			t = reflect.PtrTo(t)
		}
		v, host := reflect.New(t).Elem(), reflect.New(t).Elem()
		seed := c.U64()
		NewRand(seed).fillShape(v, 0)
		NewRand(seed).fillShape(host, 0)
		vars = append(vars, variable{"v" + strconv.Itoa(i), v, host})
		typesText = append(typesText, t.String())
	}
	if c.P(30) {
		t := s.structOf(2)
		if c.P(40) {
			t = reflect.PtrTo(t)
		}
		embedded, embeddedHost = reflect.New(t).Elem(), reflect.New(t).Elem()
		seed := c.U64()
		NewRand(seed).fillShape(embedded, 0)
		NewRand(seed).fillShape(embeddedHost, 0)
		typesText = append(typesText, "embedded "+t.String())
	}
	c.Desc("types %s", strings.Join(typesText, ";"))
	at := 0
	embedAt := c.N(len(vars) + 1)
	var err error
	fail := func(stage string) bool {
		if err != nil {
			c.Violate("error in "+stage, "%v", err)
			return true
		}
		return false
	}
	for i := 0; i <= len(vars); i++ {
		if i == embedAt && embedded.IsValid() {
			if err = pl.EmbedVariable(embedded.Type()); fail("EmbedVariable") {
				return
			}
		}
		if i < len(vars) {
			if err = pl.DefineVariable(vars[i].name, vars[i].v.Type()); fail("DefineVariable") {
				return
			}
		}
	}
	var src, want strings.Builder
	for n := c.R(2, 10); n > 0; n-- {
		var p shapePath
		if embedded.IsValid() && c.P(30) {
			t, v := embedded.Type(), embedded
			if t.Kind() == reflect.Ptr {
				t, v = t.Elem(), v.Elem()
			}
			fs := promotedOf(t)
			if len(fs) == 0 {
				continue
			}
			f := fs[c.N(len(fs))]
			p = w.walk(f.name, fieldAt(v, f.index), f.f.Type, c.N(5))
			w.stats["embedded variable"]++
		} else if c.P(12) {
			t := s.structOf(2)
			if c.P(40) {
				t = vars[c.N(len(vars))].v.Type()
			} else if c.P(50) {
				t = reflect.PtrTo(t)
			}
			v := reflect.New(t).Elem()
			c.fillShape(v, 0)
			if p = w.result(v); p.t == nil {
				continue
			}
			p = w.follow(p, c.R(0, 7))
			p.set = false
		} else {
			x := vars[c.N(len(vars))]
			p = w.walk(x.name, x.v, x.v.Type(), c.R(0, 7))
		}
		if c.P(15) && p.set && p.value.IsValid() && p.value.CanSet() {
			// writing a scalar through the template has to change that place, and no other
			switch p.t {
			case tInt:
				i := c.R(0, 999)
				src.WriteString(fmt.Sprintf("#set($%s = %d)", p.src, i))
				p.value.SetInt(int64(i))
				w.stats["set"]++
			case tString:
				t := "new" + strconv.Itoa(c.N(99))
				src.WriteString(fmt.Sprintf("#set($%s = \"%s\")", p.src, t))
				p.value.SetString(t)
				w.stats["set"]++
			}
		}
		src.WriteString("${" + p.src + "}|")
		want.WriteString(p.rendered() + "|")
		w.stats["reference"]++
		at++
	}
	c.Desc("template %s\ntypes %s", src.String(), strings.Join(typesText, ";"))
	for _, name := range sortedKeys(w.fns) {
		if err = pl.RegisterFunction(name, w.fns[name].Interface()); fail("RegisterFunction") {
			return
		}
	}
	exec, newState, err := pl.Compile([]byte(src.String()))
	if fail("Compile") {
		return
	}
	st := newState()
	for _, x := range vars {
		if err = st.SetValue(x.name, x.host.Interface()); fail("SetValue") {
			return
		}
	}
	if embedded.IsValid() {
		if err = st.EmbedValue(embeddedHost.Interface()); fail("EmbedValue") {
			return
		}
	}
	if err = exec.Exec(st); fail("Exec") {
		return
	}
	if out := st.Buffer.String(); out != want.String() {
		c.Violate("output", "%s", firstDiff(want.String(), out))
		return
	}
	// what a set changed in the data it was given through a pointer is that place and nothing else
	for _, x := range vars {
		if x.v.Kind() == reflect.Ptr && !reflect.DeepEqual(x.v.Interface(), x.host.Interface()) {
			c.Violate("data", "%s is not what the assignments leave behind", x.name)
			return
		}
	}
	for k, n := range w.stats {
		c.Count(k, n)
	}
	c.Saw(src.String() + strings.Join(typesText, ";"))
	c.Sample("%s => %q", src.String(), clip(want.String(), 200))
}

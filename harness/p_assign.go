package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// C06: #set stores the converted value at the place it names, and touches nothing else

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "a case is a short sequence of #set directives, each with a target place (variable, field, field behind pointers, slice element and its fields, in 14 scalar kinds, pointers to them or composite types) and a source of a type it can be assigned from; after the execution all data, neighbours included, has to be what a model that stores the converted values in place holds; distinct by target type, target place, source type, source place and value",
		Plans: []Plan{
			{Variant: "plain", Quick: 200000, Thorough: 5000000},
			{Variant: "checkptr", Quick: 20000, Thorough: 500000},
		},
		Case: caseAssign,
		Min:  []string{"same type", "converted", "composite", "pointer source", "pointer target", "to variable", "to field", "to field of pointer", "to nested field", "to slice element", "to field of slice element", "to field of item"},
	})
}

type assignPair struct {
	A int
	T string
}

var compositeKinds = []reflect.Type{
	reflect.TypeOf(assignPair{}), reflect.TypeOf(&assignPair{}), reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf([]assignPair{}),
	reflect.TypeOf([]*assignPair{}), reflect.TypeOf(struct {
		B  bool
		I8 int8
		F  float32
		S  string
		P  *int
	}{}), reflect.TypeOf([3]byte{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]byte{}), reflect.TypeOf(map[int]assignPair{}), reflect.TypeOf([][]string{}), reflect.TypeOf(struct{ U8 uint8 }{}), reflect.TypeOf(new(*int)), reflect.TypeOf(func() int { return 0 }), reflect.TypeOf(make(chan int)),
}

// assignable tells whether the language converts values of type s when they are assigned to a place of type t
func assignable(t, s reflect.Type) bool {
	if t == s {
		return true
	}
	tk, sk := t.Kind(), s.Kind()
	if sk == reflect.Ptr {
		sk = s.Elem().Kind()
		if sk == reflect.Ptr || !isNum(sk) && sk != reflect.String && sk != reflect.Bool {
			return false
		}
		if tk == reflect.Ptr {
			return false
		}
	}
	if tk == reflect.Ptr {
		tk = t.Elem().Kind()
		if tk != reflect.Int && tk != reflect.String {
			return false
		}
	}
	switch {
	case isFloatKind(tk):
		return isNum(sk)
	case isNum(tk):
		return isNum(sk) || sk == reflect.Bool || sk == reflect.String
	case tk == reflect.String, tk == reflect.Bool:
		return isNum(sk) || sk == reflect.Bool || sk == reflect.String
	}
	return false
}

// assigned is the value stored in a place of type t
func assigned(v reflect.Value, t reflect.Type) reflect.Value {
	if v.Type() == t {
		return v
	}
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if t.Kind() == reflect.Ptr {
		p := reflect.New(t.Elem())
		p.Elem().Set(assigned(v, t.Elem()))
		return p
	}
	if v.Kind() == reflect.String && isNum(t.Kind()) {
		i, _ := strconv.ParseInt(v.String(), 10, 64)
		return reflect.ValueOf(i).Convert(t)
	}
	return convertTo(v, t)
}

func caseAssign(c *Ctx) {
	h := &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}
	model := map[string]reflect.Value{} // what the named values have to be afterwards
	var src strings.Builder
	var shown []string
	rendered := []func() (string, string){} // variables: source and text they must render
	for n := c.R(1, 4); n > 0 && h.suspect == ""; n-- {
		// target and source types
		var t, s reflect.Type
		composite := c.P(20)
		if composite {
			t = compositeKinds[c.N(len(compositeKinds))]
			s = t
		} else {
			for {
				t, s = exprKinds[c.N(len(exprKinds))], exprKinds[c.N(len(exprKinds))]
				if c.P(20) {
					t = reflect.PtrTo(t)
				}
				if c.P(20) {
					s = reflect.PtrTo(s)
				}
				if c.P(20) {
					s = t
				}
				if baseOf(s).Kind() == reflect.Int8 && baseOf(t).Kind() == reflect.Uint16 && (delegated || !(len(shown) == 0 && c.P(5))) {
					continue
				}
				if assignable(t, s) {
					break
				}
			}
		}
		o := &exprOperand{t: s}
		if composite {
			o.v = reflect.New(s).Elem()
			if k := s.Kind(); k != reflect.Ptr && k != reflect.Slice && k != reflect.Map && k != reflect.Interface || c.P(80) {
				c.fillAny(o.v, 0)
			} else {
				c.Count("nil composite assigned", 1)
			}
		} else {
			base := o.base()
			v := c.assignSource(base, t, s == t)
			if s != t && base.Kind() == reflect.Int8 && baseOf(t).Kind() == reflect.Uint16 {
				h.suspect = "int8 converted to uint16"
			}
			if s != t && base.Kind() == reflect.Uint8 && len(shown) == 0 && !delegated && c.P(3) && isNum(baseOf(t).Kind()) {
				v.SetUint(uint64(c.R(128, 255)))
				h.suspect = "uint8 above 127 converted"
			}
			o.v = v
			if s.Kind() == reflect.Ptr {
				o.v = reflect.New(base)
				o.v.Elem().Set(v)
				if c.P(20) { // no value is assigned as well
					o.v = reflect.Zero(s)
					c.Count("nil pointer assigned", 1)
				}
			}
		}
		h.place(o)
		keep := s != t && s.Kind() == reflect.Ptr && o.v.IsNil() // there is no value to store
		want := reflect.Zero(t)
		if !keep {
			want = assigned(o.v, t)
		}
		set := func(dest reflect.Value) {
			if !keep {
				dest.Set(want)
			}
		}

		// target place: every value has guards around it
		place := pick(c.Rand, "variable", "field", "field of pointer", "nested field", "slice element", "field of slice element", "field of item")
		fresh := func(t reflect.Type) reflect.Value {
			v := reflect.New(t).Elem()
			c.fillAny(v, 0)
			return v
		}
		inner := c.guarded(t)
		var target string
		switch place {
		case "variable":
			v := fresh(t)
			if k := t.Kind(); k == reflect.Func || k == reflect.Chan {
				continue // not rendered
			}
			name := h.add(v)
			target = "$" + name
			w := want
			if keep {
				w = v
			}
			rendered = append(rendered, func() (string, string) { return "${" + name + "}", renderValue(w) })
		case "field":
			v := fresh(inner)
			name := h.add(v)
			target = "$" + name + ".F"
			m := copyOf(v)
			set(m.FieldByName("F"))
			rendered = append(rendered, func() (string, string) { return "${" + name + "}", renderValue(m) })
		case "field of pointer":
			p := reflect.New(inner)
			c.fillAny(p.Elem(), 0)
			name := h.add(p)
			target = "$" + name + ".F"
			m := copyOf(p)
			set(m.Elem().FieldByName("F"))
			model[name] = m
		case "nested field":
			p := reflect.New(c.guarded(c.guarded(reflect.PtrTo(inner))))
			c.fillAny(p.Elem(), 0)
			name := h.add(p)
			target = "$" + name + ".F.F.F"
			m := copyOf(p)
			set(m.Elem().FieldByName("F").FieldByName("F").Elem().FieldByName("F"))
			model[name] = m
		case "slice element", "field of slice element":
			e := t
			if place != "slice element" {
				e = inner
				if c.P(50) {
					e = reflect.PtrTo(inner)
				}
			}
			p := reflect.New(c.guarded(reflect.SliceOf(e)))
			c.fillAny(p.Elem(), 0)
			l := reflect.MakeSlice(reflect.SliceOf(e), 3, 4)
			for i := 0; i < 4; i++ {
				c.fillAny(l.Slice(0, 4).Index(i), 0)
			}
			p.Elem().FieldByName("F").Set(l)
			m := copyOf(p)
			i := c.N(3)
			index := strconv.Itoa(i)
			if c.P(40) {
				index = "$" + h.add(reflect.ValueOf(i))
			}
			dest := m.Elem().FieldByName("F").Index(i)
			field := ""
			if place != "slice element" {
				field = ".F"
				dest = reflect.Indirect(dest).FieldByName("F")
			}
			set(dest)
			if c.P(30) { // the slice itself is the variable
				name := h.add(p.Elem().FieldByName("F"))
				target = "$" + name + "[" + index + "]" + field
				model[name] = m.Elem().FieldByName("F")
			} else {
				name := h.add(p)
				target = "$" + name + ".F[" + index + "]" + field
				model[name] = m
			}
		case "field of item":
			l := reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(inner)), 2, 2)
			for i := 0; i < 2; i++ {
				c.fillAny(l.Index(i), 0)
			}
			name := h.add(l)
			m := copyOf(l)
			for i := 0; i < 2; i++ {
				set(m.Index(i).Elem().FieldByName("F"))
			}
			model[name] = m
			h.n++
			item := fmt.Sprintf("it%d", h.n)
			src.WriteString("#foreach($" + item + " in $" + name + ")#set($" + item + ".F = " + o.src + ")#end")
		}
		if target != "" {
			src.WriteString(pick(c.Rand, "#set("+target+" = "+o.src+")", "#set("+target+"="+o.src+")", "#set( "+target+"  =  "+o.src+" )"))
		}
		shown = append(shown, fmt.Sprintf("%v at %s = %v %s", t, place, s, o.place))
		c.Count("to "+place, 1)
		switch {
		case composite:
			c.Count("composite", 1)
		case s == t:
			c.Count("same type", 1)
		default:
			c.Count("converted", 1)
		}
		if s.Kind() == reflect.Ptr {
			c.Count("pointer source", 1)
		}
		if t.Kind() == reflect.Ptr {
			c.Count("pointer target", 1)
		}
		c.Saw(fmt.Sprint(t, place, s, o.place, renderValue(want)))
	}
	for _, n := range h.names { // whatever isn't a target stays as it is
		if _, ok := model[n]; !ok && (h.values[n].Kind() == reflect.Ptr || h.values[n].Kind() == reflect.Slice || h.values[n].Kind() == reflect.Map) {
			model[n] = copyOf(h.values[n])
		}
	}
	var want strings.Builder
	for _, r := range rendered {
		s, w := r()
		src.WriteString("|" + s)
		want.WriteString("|" + w)
	}
	full := h.prefix + src.String()
	var values []string
	for _, n := range h.names {
		values = append(values, n+"="+clip(fmt.Sprint(dump(h.values[n], 0)), 300))
	}
	c.Desc("%s with %s (%s)", full, strings.Join(values, " "), strings.Join(shown, "; "))
	if !h.judge(c, full, want.String()) {
		return
	}
	for _, n := range h.names {
		if m, ok := model[n]; ok {
			if w, g := fmt.Sprint(dump(m, 0)), fmt.Sprint(dump(h.values[n], 0)); w != g {
				key := "data"
				if h.suspect != "" {
					key = h.suspect
				}
				c.Violate(key, "%s should be %s but is %s", n, clip(w, 1500), clip(g, 1500))
				return
			}
		}
	}
	c.Sample("%s (%s)", full, strings.Join(shown, "; "))
}

func baseOf(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

// guarded is a struct with a field F of the type among fields of various sizes
func (r *Rand) guarded(t reflect.Type) reflect.Type {
	kinds := []reflect.Type{tBool, tInt, tString, reflect.TypeOf(int16(0)), reflect.TypeOf(uint8(0)), tFloat, reflect.TypeOf(int32(0)), reflect.TypeOf((*int)(nil))}
	var fields []reflect.StructField
	for i := r.N(3); i >= 0; i-- {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Pre%d", i), Type: kinds[r.N(len(kinds))]})
	}
	fields = append(fields, reflect.StructField{Name: "F", Type: t})
	for i := r.N(3); i >= 0; i-- {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Post%d", i), Type: kinds[r.N(len(kinds))]})
	}
	return reflect.StructOf(fields)
}

// fillAny sets random non-nil data
func (r *Rand) fillAny(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		r.fillAny(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.fillAny(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fillAny(v.Index(i), depth+1)
		}
	case reflect.Slice:
		n := r.R(1, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			r.fillAny(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < 2; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			r.fillAny(k, depth+1)
			r.fillAny(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		e := reflect.New(pick(r, tInt, tString, tFloat, tBool, reflect.TypeOf(assignPair{}), reflect.TypeOf(uint16(0)))).Elem()
		r.fillAny(e, depth+1)
		v.Set(e)
	case reflect.Func:
		v.Set(reflect.ValueOf(pick(r, func() int { return 1 }, func() int { return 2 }, func() int { return 3 })))
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 1))
	default:
		v.Set(r.scalar(v.Type(), true))
	}
}

// assignSource is a value of the kind whose conversion to t is defined
func (r *Rand) assignSource(s, t reflect.Type, native bool) reflect.Value {
	v := r.scalar(s, native)
	if native {
		return v
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch {
	case s.Kind() == reflect.String && isNum(t.Kind()):
		v.SetString(strconv.Itoa(pick(r, 0, 1, -1, r.R(-100, 100), r.R(0, 127))))
	case isFloatKind(s.Kind()) && t.Kind() == reflect.String:
		v.SetFloat(float64(r.R(-400, 400)) / 8)
	case isFloatKind(s.Kind()) && isNum(t.Kind()) && !isFloatKind(t.Kind()): // truncated, when it fits
		v.SetFloat(float64(r.R(-100, 100)) / 8)
		if t.Kind() >= reflect.Uint {
			v.SetFloat(math.Abs(v.Float()))
		}
	}
	return v
}

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/viant/velty"
)

// C18: an index yields exactly the element the key names, or the zero value, a panic, or an error, never other memory

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "a case is a random nest of slices, maps, interfaces, structs and pointers of random element types, and a path through it whose every index is a literal, variable, expression, function result or another indexed value, of any integer type, string, or pointer, in range or not, present or not; the value rendered, assigned, passed to a function or compared is what the path names in the data; distinct by type, path and outcome",
		Plans: []Plan{
			{Variant: "plain", Quick: 400000, Thorough: 8000000},
			{Variant: "checkptr", Quick: 24000, Thorough: 200000},
		},
		Case: caseIndex,
		Min: []string{"slice", "map", "interface slice", "interface map", "field", "field of pointer", "out of range", "negative", "missing key", "nil map", "nil pointer", "index not a number", "key of other type", "scalar in interface",
			"expression index", "function index", "indexed index", "pointer index", "rendered", "assigned", "argument", "compared", "loop"},
	})
}

type indexCase struct {
	*exprHost
	c     *Ctx
	steps int
}

type indexState struct {
	v      reflect.Value // current value, not valid once absent
	static reflect.Type
	panics bool
	failed bool
}

func (h *indexCase) leafType() reflect.Type {
	return pick(h.Rand, tInt, tString, tFloat, tBool, reflect.TypeOf(int64(0)), tUint8, reflect.TypeOf(int16(0)), reflect.TypeOf(float32(0)), tLeaf, reflect.PtrTo(tLeaf), reflect.PtrTo(tInt), sl(tString), reflect.MapOf(tString, tInt), tAny, tCName)
}

var indexKeyTypes = []reflect.Type{tString, tInt, tString, tInt, reflect.TypeOf(int64(0)), tUint8, reflect.TypeOf(uint32(0)), tCName, tCCount, tFloat, tAny}

// nest makes a type with depth levels left
func (h *indexCase) nest(depth int) reflect.Type {
	if depth == 0 {
		return h.leafType()
	}
	switch h.N(8) {
	case 0, 1, 2:
		return reflect.SliceOf(h.nest(depth - 1))
	case 3, 4:
		return reflect.MapOf(indexKeyTypes[h.N(len(indexKeyTypes))], h.nest(depth-1))
	case 5:
		return tAny
	case 6:
		return h.structOf(depth)
	}
	return reflect.PtrTo(h.structOf(depth))
}

func (h *indexCase) structOf(depth int) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: pick(h.Rand, tBool, tInt, tString, reflect.TypeOf(int16(0)))}, {Name: "F", Type: h.nest(depth - 1)}, {Name: "End", Type: tInt}})
}

func (h *indexCase) key(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == tAny:
		v.Set(pick(h.Rand, value(h.N(3)), value(pick(h.Rand, "a", "b", "1"))))
	case t.Kind() == reflect.String:
		v.SetString(pick(h.Rand, "a", "b", "", "1", "é"))
	case isFloatKind(t.Kind()):
		v.SetFloat(float64(h.N(4)) / 2)
	case t.Kind() == reflect.Bool:
		v.SetBool(h.P(50))
	default:
		v.Set(value(h.N(4)).Convert(t))
	}
	return v
}

func (h *indexCase) make(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == tAny:
		switch {
		case h.P(10):
		case depth > 0 && h.P(80):
			for {
				if in := h.nest(depth); in.Kind() == reflect.Slice || in.Kind() == reflect.Map {
					v.Set(h.make(in, depth))
					break
				}
			}
		default:
			v.Set(h.scalar(pick(h.Rand, tInt, tString, tFloat, tBool, reflect.TypeOf(int64(0))), true))
		}
	case t.Kind() == reflect.Struct && t != tLeaf:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(h.make(t.Field(i).Type, depth-1))
		}
	case t.Kind() == reflect.Ptr:
		if h.P(85) {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(h.make(t.Elem(), depth))
		}
	case t.Kind() == reflect.Slice:
		if h.P(95) {
			v.Set(reflect.MakeSlice(t, 0, 4))
			for n := h.N(4); n > 0; n-- {
				v.Set(reflect.Append(v, h.make(t.Elem(), depth-1)))
			}
		}
	case t.Kind() == reflect.Map:
		if h.P(93) {
			v.Set(reflect.MakeMap(t))
			for n := h.N(4); n > 0; n-- {
				v.SetMapIndex(h.key(t.Key()), h.make(t.Elem(), depth-1))
			}
		}
	case t == tLeaf:
		h.fill(v, 1)
	case t == tCName:
		v.SetString(h.word(3))
	default:
		v.Set(h.scalar(t, true))
	}
	return v
}

var tInts = []reflect.Type{tInt, tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), tUint8, reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}

// source gives a source with the value
func (h *indexCase) source(v reflect.Value, ptr bool) string {
	if ptr && h.P(20) {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
		h.c.Count("pointer index", 1)
	}
	o := &exprOperand{t: v.Type(), v: v}
	for {
		h.place(o)
		if o.src != "true" && o.src != "false" {
			break
		}
	}
	switch o.place {
	case "function result":
		h.c.Count("function index", 1)
	case "map entry", "slice element":
		h.c.Count("indexed index", 1)
	}
	return o.src
}

// number gives a source with the integer
func (h *indexCase) number(i int) string {
	switch k := h.N(10); {
	case k < 2:
		return strconv.Itoa(i)
	case k < 3:
		h.c.Count("expression index", 1)
		d := h.R(1, 9)
		return "$" + h.add(value(i-d)) + " + " + strconv.Itoa(d)
	case k < 4:
		h.c.Count("expression index", 1)
		d := h.R(2, 3)
		return "$" + h.add(value(i+10*d)) + " - $" + h.add(value(10)) + " * " + strconv.Itoa(d)
	}
	t := tInts[h.N(len(tInts))]
	if int(value(i).Convert(t).Convert(tInt).Int()) != i || i < 0 && t.Kind() >= reflect.Uint {
		t = tInt
	}
	return h.source(value(i).Convert(t), true)
}

// sliceIndex gives an index of the list
func (h *indexCase) sliceIndex(st *indexState, n int) string {
	i := 0
	switch k := h.N(20); {
	case k == 0:
		i = pick(h.Rand, n, n+1, n+1000, 1<<40)
	case k == 1:
		i = -h.R(1, 3)
	case k == 2: // text
		s := pick(h.Rand, "0", "1", "x", "", "1.5")
		src := h.source(value(s), false)
		if !st.v.IsValid() {
			return src
		}
		d, err := strconv.Atoi(s)
		if err != nil {
			st.failed = true
			st.v = reflect.Value{}
			h.c.Count("index not a number", 1)
			return src
		}
		h.at(st, d, n)
		return src
	default:
		if n > 0 {
			i = h.N(n)
		}
	}
	if !st.v.IsValid() {
		return h.number(i)
	}
	h.at(st, i, n)
	if i > 200 {
		return h.source(value(i), true)
	}
	return h.number(i)
}

func (h *indexCase) at(st *indexState, i, n int) {
	if i < 0 || i >= n {
		st.panics = true
		if i < 0 {
			h.c.Count("negative", 1)
		} else {
			h.c.Count("out of range", 1)
		}
		return
	}
	st.v = st.v.Index(i)
}

// mapIndex gives a key of the map
func (h *indexCase) mapIndex(st *indexState, t reflect.Type) string {
	k := h.key(t.Key())
	if st.v.IsValid() && st.v.Len() > 0 && h.P(70) {
		keys := st.v.MapKeys()
		var names []string
		byName := map[string]reflect.Value{}
		for _, k := range keys {
			n := fmt.Sprintf("%T%v", k.Interface(), k.Interface())
			names = append(names, n)
			byName[n] = k
		}
		sort.Strings(names)
		k = byName[names[h.N(len(names))]]
	}
	var want reflect.Value
	if st.v.IsValid() {
		if st.v.IsNil() {
			h.c.Count("nil map", 1)
		}
		want = st.v.MapIndex(k)
	}
	if k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	var src string
	switch {
	case k.Kind() >= reflect.Int && k.Kind() <= reflect.Uint64:
		i := int(k.Convert(tInt).Int())
		if t.Key() == tUint8 && h.P(10) {
			i += 256 * h.R(1, 3)
			want = reflect.Value{}
		}
		src = h.number(i)
	case k.Kind() == reflect.String && t.Key() != tAny:
		src = h.source(k.Convert(pick(h.Rand, tString, tCName)), false)
	default:
		src = h.source(k, false)
	}
	if t.Key() != tAny && h.P(8) { // a key no such map has
		h.c.Count("key of other type", 1)
		want = reflect.Value{}
		if t.Key().Kind() == reflect.String {
			src = h.number(h.N(3))
		} else {
			src = h.source(value(pick(h.Rand, "1", "0", "a")), false)
		}
	}
	if st.v.IsValid() && !want.IsValid() {
		h.c.Count("missing key", 1)
	}
	st.v = want
	return src
}

// path walks the value and gives the source of the walk
func (h *indexCase) path(root reflect.Value, src string) (string, *indexState) {
	st := &indexState{v: root, static: root.Type()}
	for depth := 0; ; depth++ {
		if st.panics {
			return src, st
		}
		t := st.static
		stop := depth > 0 && h.P(20)
		switch {
		case stop || t == tLeaf:
			return src, st
		case t.Kind() == reflect.Slice:
			n := 0
			if st.v.IsValid() {
				n = st.v.Len()
			}
			src += "[" + h.sliceIndex(st, n) + "]"
			st.static = t.Elem()
			h.c.Count("slice", 1)
		case t.Kind() == reflect.Map:
			src += "[" + h.mapIndex(st, t) + "]"
			st.static = t.Elem()
			h.c.Count("map", 1)
		case t == tAny:
			in := reflect.Value{}
			if st.v.IsValid() {
				in = st.v.Elem()
			}
			switch {
			case depth > 4:
				return src, st
			case in.IsValid() && in.Kind() == reflect.Slice:
				h.c.Count("interface slice", 1)
				st.v = in
				src += "[" + h.sliceIndex(st, in.Len()) + "]"
			case in.IsValid() && in.Kind() == reflect.Map:
				if k := in.Type().Key(); isFloatKind(k.Kind()) {
					return src, st
				}
				h.c.Count("interface map", 1)
				st.v = in
				src += "[" + h.mapIndex(st, in.Type()) + "]"
			case in.IsValid() && (in.Kind() == reflect.Ptr || in.Kind() == reflect.Struct):
				return src, st
			default:
				h.c.Count("scalar in interface", 1)
				src += "[" + pick(h.Rand, h.number(h.N(3)), h.source(value("a"), false)) + "]"
				st.v = reflect.Value{}
			}
			if st.v.IsValid() && st.v.Kind() != reflect.Interface { // what is read of an interface is an interface
				b := reflect.New(tAny).Elem()
				b.Set(st.v)
				st.v = b
			}
			if st.panics || st.failed {
				return src, st
			}
		case t.Kind() == reflect.Struct:
			h.c.Count("field", 1)
			src += ".F"
			st.static = t.Field(1).Type
			if st.v.IsValid() {
				st.v = st.v.Field(1)
			}
		case t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct && t.Elem() != tLeaf:
			h.c.Count("field of pointer", 1)
			src += ".F"
			st.static = t.Elem().Field(1).Type
			if st.v.IsValid() {
				if st.v.IsNil() {
					h.c.Count("nil pointer", 1)
					st.v = reflect.Value{}
				} else {
					st.v = st.v.Elem().Field(1)
				}
			}
		default:
			return src, st
		}
		if st.failed {
			return src, st
		}
	}
}

func caseIndex(c *Ctx) {
	h := &indexCase{exprHost: &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}, c: c}
	var rt reflect.Type
	for {
		rt = h.nest(c.R(1, 4))
		if k := rt.Kind(); k == reflect.Slice || k == reflect.Map || k == reflect.Struct && rt != tLeaf || rt == tAny || k == reflect.Ptr && rt.Elem().Kind() == reflect.Struct && rt.Elem() != tLeaf {
			break
		}
	}
	root := h.make(rt, 3)
	name := h.add(root)
	src, want := "", ""
	var seen []string
	panics, failed := false, false
	var passed []string
	rec := func(v interface{}) string {
		passed = append(passed, fmt.Sprintf("%T %v", v, dump(reflect.ValueOf(v), 0)))
		return ""
	}
	h.fns["given"] = rec
	var wantPassed []string
	if rt.Kind() == reflect.Slice && root.Len() > 0 && c.P(20) && isRendered(rt.Elem()) {
		h.c.Count("loop", 1)
		src += fmt.Sprintf("#foreach($i in [0...%d])<$%s[$i]>#end|", root.Len(), name)
		for i := 0; i < root.Len(); i++ {
			want += "<" + renderValue(root.Index(i)) + ">"
		}
		want += "|"
	}
	for n := c.R(1, 4); n > 0 && !panics && !failed; n-- {
		p, st := h.path(root, "$"+name)
		v := st.v
		if !v.IsValid() || st.panics {
			v = reflect.Zero(st.static)
		}
		panics, failed = st.panics, st.failed
		seen = append(seen, fmt.Sprint(st.static))
		switch k := c.N(10); {
		case k < 3 && st.v.IsValid() && st.static != tAny && st.static.Kind() != reflect.Ptr:
			wantPassed = append(wantPassed, fmt.Sprintf("%v %v", v.Type(), dump(v, 0)))
			src += "${given(" + p + ")}|"
			want += "|"
			c.Count("argument", 1)
		case k < 6:
			h.n++
			src += fmt.Sprintf("#set($r%d = %s)${r%d}|", h.n, p, h.n)
			want += renderValue(v) + "|"
			c.Count("assigned", 1)
		case k < 8 && (st.static == tInt || st.static == tString):
			lit := fmt.Sprintf("$%s", h.add(v))
			src += "#if(" + p + " == " + lit + ")same#{else}other#end|"
			want += "same|"
			c.Count("compared", 1)
		default:
			src += "${" + p[1:] + "}|"
			want += renderValue(v) + "|"
			c.Count("rendered", 1)
		}
	}
	full := h.prefix + src
	hosts := map[string]reflect.Value{}
	for _, n := range h.names {
		hosts[n] = h.values[n]
	}
	c.Desc("template: %s\ntype %v\n%s", full, rt, describeHosts(hosts, full))
	before := fmt.Sprint(dump(root, 0))
	stage := "definition"
	var err error
	var out string
	panicked, stack := guard(func() {
		pl := velty.New()
		for _, n := range sortedKeys(h.fns) {
			if err = pl.RegisterFunction(n, h.fns[n]); err != nil {
				return
			}
		}
		for _, n := range h.names {
			if err = pl.DefineVariable(n, h.values[n].Type()); err != nil {
				return
			}
		}
		stage = "compile"
		exec, newState, cerr := pl.Compile([]byte(full))
		if err = cerr; err != nil {
			return
		}
		stage = "execution"
		st := newState()
		for _, n := range h.names {
			if err = st.SetValue(n, h.values[n].Interface()); err != nil {
				return
			}
		}
		err = exec.Exec(st)
		out = st.Buffer.String()
	})
	ranged := strings.Contains(fmt.Sprint(panicked), "index out of range")
	switch {
	case panics && (panicked == nil || !ranged || stage != "execution"):
		c.Violate("out of range", "an index out of range: panic %v, error %v, output %q %s", panicked, err, clip(out, 300), stack)
	case panicked != nil && !panics:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
	case failed && (err == nil || stage != "execution"):
		c.Violate("no error", "an index that isn't a number gave %q in %s, error %v", clip(out, 300), stage, err)
	case err != nil && !failed:
		c.Violate("error in "+stage, "%v", err)
	case !panics && !failed && out != want:
		c.Violate("value", "%s: got %q", firstDiff(want, out), clip(out, 800))
	case !panics && !failed && strings.Join(passed, "\n") != strings.Join(wantPassed, "\n"):
		c.Violate("argument", "want %q got %q", clip(strings.Join(wantPassed, "\n"), 600), clip(strings.Join(passed, "\n"), 600))
	case fmt.Sprint(dump(root, 0)) != before:
		c.Violate("data changed", "%s", firstDiff(before, fmt.Sprint(dump(root, 0))))
	default:
		c.Saw(fmt.Sprint(rt, src, panics, failed, clip(out, 200)))
		c.Sample("%v: %s => %q", rt, full, clip(out, 100))
	}
}

func isRendered(t reflect.Type) bool { return t.Kind() != reflect.Interface }

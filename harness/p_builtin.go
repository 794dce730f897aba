package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/functions"
)

// C17: a built-in function gives in a template what the Go function it stands for gives

func init() {
	register(&Prop{
		ID:   "C17",
		Rule: "a case is a template with up to 4 calls of built-in functions (every function of $strings, $math, $strconv, $slices, $types, $maps, $json, $time, $errors, HasKey and IndexBy), nested in each other, with arguments from every place; the rendered values and the execution error are compared with what the standard library gives; distinct by template and values",
		Plans: []Plan{
			{Variant: "plain", Quick: 400000, Thorough: 8000000},
			{Variant: "checkptr", Quick: 24000, Thorough: 400000},
		},
		Case: caseBuiltin,
		Min: []string{"strings", "math", "strconv", "slices", "types", "maps", "json", "time", "errors", "HasKey", "IndexBy", "failed call", "nested", "assigned", "condition", "loop",
			"index", "missing key", "absent value", "converted key", "nil key", "nil item", "pointer key", "alternative name", "index of a result"},
	})
	functions.Now = func() time.Time { return builtinNow }
}

var builtinNow = time.Date(2031, 12, 30, 23, 59, 58, 987654321, time.UTC)

type builtinCase struct {
	*callCase
	failure string // of the first failing call
	failed  bool
	given   []givenValue
}

// givenValue is an argument and how it looked
type givenValue struct {
	v reflect.Value
	s string
}

func (h *builtinCase) keep(v reflect.Value) {
	h.given = append(h.given, givenValue{v, fmt.Sprint(dump(v, 0))})
}

// changed is an argument that isn't what it was before the execution
func (h *builtinCase) changed() string {
	for _, g := range h.given {
		if s := fmt.Sprint(dump(g.v, 0)); s != g.s {
			return fmt.Sprintf("the argument %s is %s now", clip(g.s, 500), clip(s, 500))
		}
	}
	return ""
}

// text makes strings that have parts in common
func (h *builtinCase) text(max int) string {
	var b strings.Builder
	for n := h.N(max + 1); n > 0; n-- {
		b.WriteString(pick(h.Rand, "a", "b", "A", "B", "ab", ",", " ", "  ", "\t", "é", "É", "ß", "ı", "0", "-", "\xff", "世"))
	}
	return b.String()
}

func (h *builtinCase) str(depth int, max int) (string, string) {
	if depth > 0 && h.P(15) {
		h.c.Count("nested", 1)
		src, res := h.stringCall(depth - 1)
		return src, res
	}
	v := h.text(max)
	src, _, _ := h.argumentOf(tString, reflect.ValueOf(v), false)
	return src, v
}

// part of the text, or something else
func (h *builtinCase) part(of string) (string, string) {
	v := h.text(2)
	if h.P(60) && of != "" {
		from := h.N(len(of))
		v = of[from : from+1+h.N(min(3, len(of)-from))]
	}
	src, _, _ := h.argumentOf(tString, reflect.ValueOf(v), false)
	return src, v
}

func (h *builtinCase) arg(v interface{}) string {
	value := reflect.ValueOf(v)
	src, _, _ := h.argumentOf(value.Type(), value, false)
	return src
}

// any gives a source of an interface argument, where the function sees the type
func (h *builtinCase) any(v interface{}) string {
	o := &exprOperand{t: reflect.TypeOf(v), v: reflect.ValueOf(v)}
	if k := o.t.Kind(); k == reflect.Slice || k == reflect.Map || k == reflect.Ptr {
		h.keep(o.v)
	}
	if h.P(40) {
		i := reflect.New(tAny).Elem()
		i.Set(o.v)
		o.t, o.v = tAny, i
	}
	h.place(o)
	return o.src
}

func (h *builtinCase) float() (string, float64) {
	switch h.N(4) {
	case 0:
		i := h.R(-50, 50)
		return h.arg(i), float64(i)
	case 1:
		i := pick[interface{}](h.Rand, uint8(h.N(100)), int64(h.R(-1<<40, 1<<40)), uint(h.N(9)), float32(h.R(-99, 99))/4)
		return h.arg(i), reflect.ValueOf(i).Convert(tFloat).Float()
	}
	f := pick(h.Rand, h.Rand.float(), float64(h.R(-99, 99))/2, math.Copysign(0, -1), math.Inf(1), math.NaN(), 4)
	return h.arg(f), f
}

func (h *builtinCase) stringCall(depth int) (string, string) {
	s, v := h.str(depth, 9)
	switch h.N(7) {
	case 0:
		return "$strings.ToLower(" + s + ")", strings.ToLower(v)
	case 1:
		return "$strings.ToUpper(" + s + ")", strings.ToUpper(v)
	case 2:
		o, ov := h.part(v)
		n, nv := h.part(v)
		return "$strings.ReplaceAll(" + s + ", " + o + "," + n + ")", strings.ReplaceAll(v, ov, nv)
	case 3:
		return "$strings.TrimSpace(" + s + ")", strings.TrimSpace(v)
	case 4:
		o, ov := h.part(v)
		return "$strings.Trim(" + s + "," + o + ")", strings.Trim(v, ov)
	case 5:
		i := h.Int()
		return "$strconv.Itoa(" + h.arg(i) + ")", strconv.Itoa(i)
	}
	return "$json.Marshal(" + h.any(v) + ")", mustJSON(v)
}

func mustJSON(v interface{}) string {
	data, _ := json.Marshal(v)
	return string(data)
}

func value(v interface{}) reflect.Value { return reflect.ValueOf(v) }

// anyValue keeps the result an interface, which renders its own way
func anyValue(v interface{}) reflect.Value { return reflect.ValueOf(&v).Elem() }

func (h *builtinCase) fail(err error) error {
	if err != nil && !h.failed {
		h.failed, h.failure = true, err.Error()
	}
	return err
}

type keyedItem struct {
	Name string
	Code int32
	Rate float64
	Big  uint64
	On   bool
	Ref  *int
	Text *string
	Any  interface{}
	KeyedBase
	*KeyedExt
	keyedHidden
	Tags []string

	PBool   *bool
	PInt8   *int8
	PInt16  *int16
	PInt32  *int32
	PInt64  *int64
	PUint   *uint
	PUint8  *uint8
	PUint16 *uint16
	PUint32 *uint32
	PUint64 *uint64
	PFloat  *float64
	Bytes   []byte
	PBytes  *[]byte
	Tagged  string `velty:"names=Alt1|Alt2"`
	Short   int    `velty:"Alt3"`
}

var keyedPointers = []string{"PBool", "PInt8", "PInt16", "PInt32", "PInt64", "PUint", "PUint8", "PUint16", "PUint32", "PUint64", "PFloat", "PBytes", "Text", "Ref"}

type KeyedBase struct {
	Pad  [3]int
	Base string
}

type KeyedExt struct {
	Pad2 string
	Ext  int16
	*KeyedDeep
}

type KeyedDeep struct{ Deep uint8 }

type keyedHidden struct {
	Pad3   bool
	Hidden string
}

func (h *builtinCase) item() keyedItem {
	n, s := h.N(5), h.text(2)
	it := keyedItem{Name: h.text(2), Code: int32(h.R(-3, 3)), Rate: float64(h.R(-4, 4)) / 2, Big: uint64(h.N(4)), On: h.P(50), Ref: &n, Text: &s, Any: pick[interface{}](h.Rand, h.N(3), h.text(1), 1.5, int8(2))}
	it.Base, it.Hidden = h.text(2), h.text(2)
	if h.P(80) {
		it.KeyedExt = &KeyedExt{Ext: int16(h.R(-3, 3))}
		if h.P(80) {
			it.KeyedDeep = &KeyedDeep{uint8(h.N(5))}
		}
	}
	v := reflect.ValueOf(&it).Elem()
	for _, n := range keyedPointers[:12] {
		p := v.FieldByName(n)
		if h.P(15) {
			continue
		}
		p.Set(reflect.New(p.Type().Elem()))
		switch e := p.Elem(); e.Kind() {
		case reflect.Bool:
			e.SetBool(h.P(50))
		case reflect.Float64:
			e.SetFloat(float64(h.N(4)) / 2)
		case reflect.Slice:
			e.SetBytes([]byte(h.text(2)))
		default:
			e.Set(value(h.N(5)).Convert(e.Type()))
		}
	}
	it.Bytes, it.Tagged, it.Short = []byte(h.text(2)), h.text(2), h.N(4)
	if h.P(15) {
		it.Ref = nil
	}
	if h.P(15) {
		it.Any = nil
	}
	return it
}

// call generates a call of a built-in function and what it gives
func (h *builtinCase) call() (string, reflect.Value) {
	ns := pick(h.Rand, "strings", "strings", "math", "strconv", "slices", "types", "maps", "json", "time", "errors", "HasKey", "IndexBy")
	h.c.Count(ns, 1)
	switch ns {
	case "strings":
		s, v := h.str(2, 9)
		if h.P(30) {
			src, res := h.stringCall(2)
			return src, value(res)
		}
		switch h.N(8) {
		case 0:
			o, ov := h.part(v)
			return "$strings.HasSuffix(" + s + ", " + o + ")", value(strings.HasSuffix(v, ov))
		case 1:
			o, ov := h.part(v)
			return "$strings.HasPrefix(" + s + ", " + o + ")", value(strings.HasPrefix(v, ov))
		case 2:
			o, ov := h.part(v)
			return "$strings.Index(" + s + "," + o + ")", value(strings.Index(v, ov))
		case 3:
			o, ov := h.part(v)
			return "$strings.LastIndex(" + s + "," + o + ")", value(strings.LastIndex(v, ov))
		case 4:
			return "$strings.Fields(" + s + ")", value(strings.Fields(v))
		case 5:
			o, ov := h.part(v)
			return "$strings.Split(" + s + "," + o + ")", value(strings.Split(v, ov))
		case 6:
			return "$strings.Length(" + s + ")", value(len(v))
		}
		set := strings.Fields(h.text(9))
		want := false
		if len(set) > 0 && h.P(60) {
			v = set[h.N(len(set))]
			s = h.arg(v)
		}
		for _, m := range set {
			want = want || m == v
		}
		return "$strings.In(" + h.arg(set) + "," + s + ")", value(want)
	case "math":
		x, xv := h.float()
		one := map[string]func(float64) float64{"Round": math.Round, "Ceil": math.Ceil, "Abs": math.Abs, "Floor": math.Floor, "Sqrt": math.Sqrt}
		two := map[string]func(float64, float64) float64{"Pow": math.Pow, "Min": math.Min, "Max": math.Max}
		if h.P(50) {
			n := pick(h.Rand, sortedKeys(one)...)
			return "$math." + n + "(" + x + ")", value(one[n](xv))
		}
		n := pick(h.Rand, sortedKeys(two)...)
		y, yv := h.float()
		return "$math." + n + "(" + x + ", " + y + ")", value(two[n](xv, yv))
	case "strconv":
		num := pick(h.Rand, strconv.Itoa(h.Int()), strconv.FormatFloat(h.Rand.float(), 'g', -1, 64), "true", "false", "T", "0", "-1", "18446744073709551615", "18446744073709551616", "1e999", h.text(3), "+7", "0x10", "1_000", " 1", "")
		s := h.arg(num)
		switch h.N(5) {
		case 0:
			r, err := strconv.Atoi(num)
			h.fail(err)
			return "$strconv.Atoi(" + s + ")", value(r)
		case 1:
			r, err := strconv.ParseFloat(num, 64)
			h.fail(err)
			return "$strconv.ParseFloat(" + s + ")", value(r)
		case 2:
			r, err := strconv.ParseBool(num)
			h.fail(err)
			return "$strconv.ParseBool(" + s + ")", value(r)
		case 3:
			r, err := strconv.ParseUint(num, 10, 64)
			h.fail(err)
			return "$strconv.ParseUint(" + s + ")", value(r)
		}
		switch h.N(4) {
		case 0:
			i := h.Int()
			return "$strconv.AsFloat(" + h.any(i) + ")", value(float64(i))
		case 1:
			f := h.Rand.float()
			return "$strconv.AsFloat(" + h.any(f) + ")", value(f)
		case 2:
			h.fail(fmt.Errorf("unconvertable value"))
			return "$strconv.AsFloat(" + h.any(pick[interface{}](h.Rand, true, []int{1}, map[string]int{})) + ")", value(0.0)
		}
		r, err := strconv.ParseFloat(num, 64)
		h.fail(err)
		return "$strconv.AsFloat(" + h.any(num) + ")", value(r)
	case "slices":
		n := h.N(6)
		ints, strs, bools, floats := make([]int, n), make([]string, n), make([]bool, n), make([]float64, n)
		for i := range ints {
			ints[i], strs[i], bools[i], floats[i] = h.Int(), h.text(2), h.P(50), float64(h.R(-99, 99))/4
		}
		at := 0
		if n > 0 {
			at = h.N(n)
		}
		switch k := h.N(9); {
		case k == 0 || n == 0:
			l := pick[interface{}](h.Rand, ints, strs, bools, floats, make([]Leaf, n), [3]int{}, strings.Repeat("a", n))
			return "$slices.Length(" + h.any(l) + ")", value(value(l).Len())
		case k == 1:
			return "$slices.StringAt(" + h.any(strs) + "," + h.arg(at) + ")", value(strs[at])
		case k == 2:
			return "$slices.IntAt(" + h.any(ints) + "," + h.arg(at) + ")", value(ints[at])
		case k == 3:
			return "$slices.BoolAt(" + h.any(bools) + "," + h.arg(at) + ")", value(bools[at])
		case k == 4:
			return "$slices.FloatAt(" + h.any(floats) + "," + h.arg(at) + ")", value(floats[at])
		case k == 5:
			r := make([]string, 0, n)
			for i := n - 1; i >= 0; i-- {
				r = append(r, strs[i])
			}
			return "$slices.ReverseStrings(" + h.any(strs) + ")", value(r)
		case k == 6:
			r := make([]int, 0, n)
			for i := n - 1; i >= 0; i-- {
				r = append(r, ints[i])
			}
			return "$slices.ReverseInts(" + h.any(ints) + ")", value(r)
		case k == 7:
			r := make([]float64, 0, n)
			for i := n - 1; i >= 0; i-- {
				r = append(r, floats[i])
			}
			return "$slices.ReverseFloats(" + h.any(floats) + ")", value(r)
		}
		h.fail(fmt.Errorf("unexpected "))
		switch h.N(7) {
		case 3:
			return "$slices.ReverseStrings(" + h.any(ints) + ")", value([]string{})
		case 4:
			return "$slices.ReverseInts(" + h.any(floats) + ")", value([]int{})
		case 5:
			return "$slices.ReverseFloats(" + h.any(strs) + ")", value([]float64{})
		case 0:
			return "$slices.StringAt(" + h.any(ints) + "," + h.arg(at) + ")", value("")
		case 1:
			return "$slices.IntAt(" + h.any(floats) + "," + h.arg(at) + ")", value(0)
		case 2:
			return "$slices.BoolAt(" + h.any([]interface{}{true}) + "," + h.arg(at) + ")", value(false)
		}
		return "$slices.FloatAt(" + h.any(ints) + "," + h.arg(at) + ")", value(0.0)
	case "types":
		v := pick[interface{}](h.Rand, h.Int(), h.text(2), h.P(50), 1.5, int64(4), uint8(1), float32(2), []int{1}, Leaf{}, cName("a"), cCount(3))
		n := pick(h.Rand, "Int", "Float64", "String", "Bool")
		return "$types.Is" + n + "(" + h.any(v) + ")", value(reflect.TypeOf(v).String() == strings.ToLower(n))
	case "maps", "HasKey":
		return h.mapCall(ns)
	case "json":
		switch h.N(4) {
		case 0:
			v := reflect.New(pick(h.Rand, callKinds...)).Elem()
			if v.Kind() == reflect.Interface {
				v = value(h.text(3))
			} else {
				h.fillCall(v)
			}
			if _, err := json.Marshal(v.Interface()); err != nil {
				h.fail(err)
			}
			return "$json.Marshal(" + h.any(v.Interface()) + ")", value(mustJSON(v.Interface()))
		case 1:
			h.fail(fmt.Errorf("json: unsupported"))
			return "$json.Marshal(" + h.any(pick[interface{}](h.Rand, math.NaN(), math.Inf(-1), make(chan int), []interface{}{func() {}})) + ")", value("")
		}
		typeName := pick(h.Rand, sortedKeys(builtinTypes)...)
		v := reflect.New(builtinTypes[typeName]).Elem()
		h.fillCall(v)
		data := mustJSON(v.Interface())
		if h.P(15) && len(data) > 1 {
			data = data[:len(data)-1]
		}
		back := reflect.New(v.Type())
		if err := json.Unmarshal([]byte(data), back.Interface()); err != nil {
			h.fail(err)
			back = reflect.New(v.Type())
		}
		var d interface{} = data
		if h.P(50) {
			d = pick[interface{}](h.Rand, []byte(data), &data)
		}
		if h.P(70) {
			return "$json.UnmarshalInto(" + h.any(d) + `, "` + typeName + `")`, back.Elem()
		}
		name := h.arg(typeName)
		if strings.HasPrefix(name, "\"") {
			return "$json.UnmarshalInto(" + h.any(d) + ", " + name + ")", back.Elem()
		}
		return "$json.UnmarshalInto(" + h.any(d) + ", " + name + ")", anyValue(back.Elem().Interface())
	case "time":
		t, src := builtinNow, "$time.Now()"
		if h.P(60) {
			t = time.Unix(int64(h.R(0, 1<<32)), int64(h.N(1e9))).UTC()
			src = h.arg(t)
		}
		switch h.N(7) {
		case 0:
			return src + ".Year()", value(t.Year())
		case 1:
			return src + ".Unix()", value(t.Unix())
		case 2:
			f := pick(h.Rand, time.RFC3339Nano, "2006-01-02", "Jan _2 15:04")
			return src + ".Format(" + h.arg(f) + ")", value(t.Format(f))
		case 3:
			a := h.R(-30, 30)
			return src + ".AddDate(" + h.arg(a) + ",1, 0).YearDay()", value(t.AddDate(a, 1, 0).YearDay())
		case 4:
			u := t.Add(time.Duration(h.R(-2, 2)))
			return src + ".Before(" + h.arg(u) + ")", value(t.Before(u))
		case 5:
			return src + ".Weekday().String()", value(t.Weekday().String())
		}
		return src + ".IsZero()", value(false)
	case "errors":
		v := pick[interface{}](h.Rand, h.Int(), h.text(2), h.P(50), 1.5, int64(4), []int{1}, cName("a"))
		switch k := h.N(7); k {
		case 0, 1:
			m := h.text(4)
			h.fail(fmt.Errorf("%s", m))
			return "$errors." + pick(h.Rand, "Raise", "RegisterError") + "(" + h.arg(m) + ")", value("")
		case 2:
			ok, m := h.P(60), h.text(4)
			if !ok {
				h.fail(fmt.Errorf("%s", m))
			}
			return "$errors.AssertWithMessage(" + h.arg(ok) + ", " + h.arg(m) + ")", value(ok)
		default:
			n := pick(h.Rand, "Int", "Float", "String", "Bool")
			ok := strings.TrimSuffix(reflect.TypeOf(v).String(), "64") == strings.ToLower(n) && reflect.TypeOf(v) != reflect.TypeOf(int64(0))
			if !ok {
				h.fail(fmt.Errorf("but got %T", v))
			}
			return "$errors.Assert" + n + "(" + h.any(v) + ")", value(ok)
		}
	}
	return h.indexBy()
}

var builtinTypes = map[string]reflect.Type{"leaf": tLeaf, "int": tInt, "list": sl(tString), "map": reflect.MapOf(tString, tInt), "float": tFloat, "leaves": sl(tLeaf), "text": tString}

// mapCall looks for a key in a map
func (h *builtinCase) mapCall(ns string) (string, reflect.Value) {
	keyType := pick(h.Rand, tString, tInt, tFloat, tBool, reflect.TypeOf(int64(0)), tUint8, reflect.TypeOf(uint32(0)), tCName, tCCount, tAny)
	elem := pick(h.Rand, tInt, tString, tFloat, tBool, tAny, tLeaf, reflect.TypeOf(int64(0)), sl(tInt))
	m := reflect.MakeMap(reflect.MapOf(keyType, elem))
	plain := func() reflect.Value { // keys that keep their type
		return value(pick[interface{}](h.Rand, h.N(6), h.text(1), float64(h.N(4))/2, h.P(50)))
	}
	key := func() reflect.Value {
		if keyType == tAny {
			return plain()
		}
		v := reflect.New(keyType).Elem()
		switch {
		case keyType.Kind() == reflect.String:
			v.SetString(h.text(1))
		case keyType.Kind() == reflect.Bool:
			v.SetBool(h.P(50))
		case isFloatKind(keyType.Kind()):
			v.SetFloat(float64(h.N(6)) / 2)
		default:
			v.Set(value(h.N(6)).Convert(keyType))
		}
		return v
	}
	for n := h.N(5); n > 0; n-- {
		v := reflect.New(elem).Elem()
		if elem == tAny {
			v.Set(plain())
		} else {
			h.fillCall(v)
		}
		m.SetMapIndex(key(), v)
	}
	k := key()
	if keyType == tAny && h.P(20) {
		k = plain()
	}
	want := m.MapIndex(k)
	given := k.Interface()
	switch {
	case keyType.Kind() >= reflect.Int && keyType.Kind() <= reflect.Uint64 && h.P(50): // another type of the same number
		t := pick(h.Rand, tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)))
		given = k.Convert(t).Interface()
		if keyType == tUint8 && t.Size() > 2 && h.P(30) { // not a key the map can have
			given = value(int(k.Uint()) + 256).Convert(t).Interface()
			want = reflect.Value{}
		}
		h.c.Count("converted key", 1)
	case keyType.Kind() == reflect.String && h.P(30):
		given = k.Convert(pick(h.Rand, tString, tCName)).Interface()
		h.c.Count("converted key", 1)
	case keyType != tAny && h.P(10): // a key of another kind is not in the map
		o := pick[interface{}](h.Rand, h.N(6), h.text(1), h.P(50))
		ok := reflect.TypeOf(o).Kind()
		if ok == keyType.Kind() || ok == reflect.Int && keyType.Kind() >= reflect.Int && keyType.Kind() <= reflect.Uint64 {
			break
		}
		given, want = o, reflect.Value{}
		h.c.Count("converted key", 1)
	}
	if !want.IsValid() {
		h.c.Count("missing key", 1)
	}
	if gv := value(given); ns == "HasKey" && h.P(25) && gv.Type().PkgPath() == "" {
		p := reflect.New(gv.Type())
		p.Elem().Set(gv)
		given = p.Interface()
		if h.P(15) {
			given, want = reflect.Zero(p.Type()).Interface(), reflect.Value{}
		}
		h.c.Count("pointer key", 1)
	}
	ks := h.any(given)
	if ns == "HasKey" {
		return h.receiver(m) + ".HasKey(" + ks + ")", value(want.IsValid())
	}
	if h.P(5) { // what isn't a map
		h.fail(fmt.Errorf("incorrect arg type"))
		n := h.N(6)
		res := reflect.New([]reflect.Type{tBool, tAny, tInt, tFloat, tBool, tString}[n]).Elem()
		return "$maps." + []string{"Has", "Get", "GetInt", "GetFloat", "GetBool", "GetString"}[n] + "(" + h.any(pick[interface{}](h.Rand, []int{1}, "a", 5, Leaf{})) + ", " + ks + ")", res
	}
	ms := h.any(m.Interface())
	switch n := h.N(6); n {
	case 0:
		return "$maps.Has(" + ms + ", " + ks + ")", value(want.IsValid())
	case 1:
		if !want.IsValid() {
			h.c.Count("absent value", 1)
			return "$maps.Get(" + ms + ", " + ks + ")", reflect.New(tAny).Elem()
		}
		return "$maps.Get(" + ms + ", " + ks + ")", anyValue(want.Interface())
	default:
		f := []string{"GetInt", "GetFloat", "GetBool", "GetString"}[n-2]
		res := reflect.New([]reflect.Type{tInt, tFloat, tBool, tString}[n-2]).Elem()
		if want.IsValid() && want.Kind() == reflect.Interface {
			want = want.Elem()
		}
		if want.IsValid() && want.Type() == res.Type() {
			res.Set(want)
		} else {
			h.fail(fmt.Errorf("unexpected map value type"))
		}
		return "$maps." + f + "(" + ms + ", " + ks + ")", res
	}
}

// receiver gives a source something can be called on
func (h *builtinCase) receiver(v reflect.Value) string {
	o := &exprOperand{t: v.Type(), v: v}
	h.keep(v)
	h.place(o)
	return o.src
}

// indexBy indexes a slice by a field and looks something up in the result
func (h *builtinCase) indexBy() (string, reflect.Value) {
	pointers := h.P(50)
	elem := reflect.TypeOf(keyedItem{})
	if pointers {
		elem = reflect.PtrTo(elem)
	}
	list := reflect.MakeSlice(reflect.SliceOf(elem), 0, 4)
	field := pick(h.Rand, "Name", "Code", "Rate", "Big", "On", "Ref", "Text", "Any", "Base", "Ext", "Deep", "Hidden", "Bytes", "Tagged", "Short", "Alt1", "Alt2", "Alt3", keyedPointers[h.N(len(keyedPointers))], keyedPointers[h.N(len(keyedPointers))], keyedPointers[h.N(len(keyedPointers))])
	if h.P(4) { // what can't be indexed by
		field = pick(h.Rand, "Tags", "Nobody", "")
		for n := h.R(1, 4); n > 0; n-- {
			it := h.item()
			if pointers {
				list = reflect.Append(list, value(&it))
			} else {
				list = reflect.Append(list, value(it))
			}
		}
		h.failed = true
		return "$" + h.receiver(list)[1:] + ".IndexBy(" + h.arg(field) + ")", value("")
	}
	last := map[interface{}]keyedItem{}
	normal := func(v reflect.Value) interface{} {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		switch {
		case !v.IsValid():
			return nil
		case v.Kind() == reflect.Slice:
			return string(v.Bytes())
		case v.Kind() == reflect.Float64 || v.Kind() == reflect.String || v.Kind() == reflect.Bool:
			return v.Interface()
		}
		return int(v.Convert(tInt).Int())
	}
	keyOf := func(it keyedItem) interface{} {
		own := map[string]string{"Alt1": "Tagged", "Alt2": "Tagged", "Alt3": "Short"}[field]
		if own == "" {
			own = field
		} else {
			h.c.Count("alternative name", 1)
		}
		f, _ := reflect.TypeOf(it).FieldByName(own)
		v, err := value(it).FieldByIndexErr(f.Index)
		if err != nil { // promoted from nil
			return nil
		}
		return normal(v)
	}
	for n := h.N(5); n > 0; n-- {
		it := h.item()
		if k := keyOf(it); k != nil {
			last[k] = it
		} else {
			h.c.Count("nil key", 1)
		}
		if pointers && h.P(15) {
			list = reflect.Append(list, reflect.Zero(elem))
			h.c.Count("nil item", 1)
		}
		if pointers {
			list = reflect.Append(list, value(&it))
		} else {
			list = reflect.Append(list, value(it))
		}
	}
	pk := keyOf(h.item())
	for pk == nil {
		pk = keyOf(h.item())
	}
	h.n++
	name := fmt.Sprintf("ix%d", h.n)
	indexed := h.receiver(list) + ".IndexBy(" + h.arg(field) + ")"
	if h.P(50) {
		h.c.Count("index of a result", 1)
	} else {
		h.prefix += "#set($" + name + " = " + indexed + ")"
		indexed = "$" + name
	}
	var given interface{} = pk
	if i, ok := pk.(int); ok && h.P(50) {
		given = pick[interface{}](h.Rand, int8(i), int64(i), uint16(i), &i)
		if i < 0 {
			given = int64(i)
		}
	}
	it, found := last[pk]
	if !found {
		h.c.Count("missing key", 1)
	}
	ks := h.any(given)
	if h.P(40) {
		return indexed + ".HasKey(" + ks + ")", value(found)
	}
	h.c.Count("index", 1)
	f := pick(h.Rand, "Name", "Code", "Rate", "On")
	if ks == "true" || ks == "false" { // not an index
		ks = "$" + h.add(value(given))
	}
	if !found && !pointers {
		return indexed + "[" + ks + "]." + f, reflect.Zero(value(it).FieldByName(f).Type())
	}
	return indexed + "[" + ks + "]." + f, value(it).FieldByName(f)
}

func caseBuiltin(c *Ctx) {
	h := &builtinCase{callCase: &callCase{exprHost: &exprHost{Rand: c.Rand, values: map[string]reflect.Value{}, fns: map[string]interface{}{}}, c: c, rec: &recorder{}}}
	var src, want strings.Builder
	for n := c.R(1, 4); n > 0 && !h.failed; n-- {
		s, res := h.call()
		text := renderValue(res)
		if h.failed {
			c.Count("failed call", 1)
			src.WriteString("${" + s[1:] + "}")
			break
		}
		switch k := c.N(10); {
		case k < 3 && res.Kind() != reflect.Interface:
			h.n++
			src.WriteString(fmt.Sprintf("#set($r%d = %s)${r%d}|", h.n, s, h.n))
			c.Count("assigned", 1)
		case k < 6 && res.Kind() == reflect.Bool:
			src.WriteString("#if(" + s + ")true#{else}false#end|")
			c.Count("condition", 1)
		case k < 6 && res.Type() == sl(tString):
			src.WriteString("#foreach($each in " + s + ")<$each>#end|")
			text = ""
			for i := 0; i < res.Len(); i++ {
				text += "<" + res.Index(i).String() + ">"
			}
			c.Count("loop", 1)
		default:
			src.WriteString("${" + s[1:] + "}|")
		}
		want.WriteString(text + "|")
	}
	full := h.prefix + src.String()
	hosts := map[string]reflect.Value{}
	for _, n := range h.names {
		hosts[n] = h.values[n]
	}
	c.Desc("template: %s\n%s", full, describeHosts(hosts, full))
	stage := "definition"
	var err error
	var out string
	panicked, stack := guard(func() {
		pl := velty.New(velty.TypeParser(func(name string) (reflect.Type, error) {
			if t, ok := builtinTypes[name]; ok {
				return t, nil
			}
			return nil, fmt.Errorf("no type %s", name)
		}))
		for _, n := range sortedKeys(h.fns) {
			if err = pl.RegisterFunction(n, h.fns[n]); err != nil {
				return
			}
		}
		for _, n := range h.names {
			if err = pl.DefineVariable(n, h.values[n].Type()); err != nil {
				return
			}
		}
		stage = "compile"
		exec, newState, cerr := pl.Compile([]byte(full))
		if err = cerr; err != nil {
			return
		}
		stage = "execution"
		st := newState()
		for _, n := range h.names {
			if err = st.SetValue(n, h.values[n].Interface()); err != nil {
				return
			}
		}
		err = exec.Exec(st)
		out = st.Buffer.String()
	})
	switch {
	case panicked != nil:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
	case err != nil && (stage != "execution" || !h.failed):
		c.Violate("error in "+stage, "%v", err)
	case h.failed && err == nil:
		c.Violate("no error", "the call fails with %q, the execution gave %q and no error", h.failure, clip(out, 300))
	case h.failed && !strings.Contains(err.Error(), h.failure):
		c.Violate("other error", "the call fails with %q, the execution failed with %v", h.failure, err)
	case h.failed && !strings.HasPrefix(out, want.String()) || !h.failed && out != want.String():
		c.Violate("result", "%s: got %q", firstDiff(want.String(), out), clip(out, 800))
	case h.changed() != "":
		c.Violate("argument changed", "%s", h.changed())
	default:
		c.Count("arguments compared", len(h.given))
		c.Saw(full + out + h.failure)
		c.Sample("%s => %q %s", full, clip(out, 100), h.failure)
	}
}

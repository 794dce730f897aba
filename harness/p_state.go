package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C19: a State holds exactly the values it was given

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "a case is a planner with up to 12 variables of random types, alternative names and embedded types (named, pointer, anonymous, tagged), two templates compiled one after another with variables defined in between, and a history of up to 20 SetValue, EmbedValue, Exec, Reset and #set steps on up to 4 states (now and then up to 84), with values that fit, convert, are nil, of a wrong type, or for names that are not defined (in that state); after every execution each variable of each state renders what a model holds, and an invalid value is an error that changes nothing; distinct by history",
		Plans: []Plan{
			{Variant: "plain", Quick: 160000, Thorough: 2000000},
			{Variant: "checkptr", Quick: 20000, Thorough: 200000},
		},
		Case: caseState,
		Min: []string{"assignable", "dereferenced", "made pointer", "converted", "nil", "wrong type", "undefined name", "defined later", "embedded value", "embedded pointer", "embedded anonymous", "no holder", "executed", "reset", "set in template",
			"alternative name", "many states", "named as a type", "embedded twice", "nil definition"},
	})
}

type StateEmb struct {
	EmbInt  int
	EmbText string
	EmbList []int
}
type StateEmbPtr struct {
	PtrInt  int
	PtrText string
	PtrLeaf Leaf
}
type StateEmbTag struct {
	A int    `velty:"name=TagA"`
	B string `velty:"names=TagB1|TagB2"`
	C int    `velty:"-"`
	D bool
}

type stateHidden struct {
	HidA int
	HidB string
}

func (s stateHidden) Title() string { return s.HidB }
func (s *stateHidden) Rename()      {}

type StateMeth struct {
	MethA string
	MethB []int
}

func (s StateMeth) Title() string { return s.MethA }
func (s *StateMeth) Rename()      {}

type StateBox[T any] struct {
	BoxItem T
	BoxN    int
}

// two types that print the same
var stateTwins = func() [2]reflect.Type {
	type Twin struct{ TwinA int }
	one := reflect.TypeOf(Twin{})
	{
		type Twin struct {
			TwinB string
			TwinC int
		}
		return [2]reflect.Type{one, reflect.TypeOf(Twin{})}
	}
}()

var stateAnon = reflect.StructOf([]reflect.StructField{{Name: "AnonText", Type: tString}, {Name: "AnonInt", Type: tInt}})

var stateTypes = []reflect.Type{tInt, tString, tBool, tFloat, reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), tUint8, reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
	reflect.PtrTo(tInt), reflect.PtrTo(tString), tLeaf, reflect.PtrTo(tLeaf), sl(tInt), sl(tString), sl(tLeaf), reflect.MapOf(tString, tInt), tAny, tCName, tCCount, reflect.TypeOf([2]int{}), reflect.TypeOf(time.Time{})}

type stateVar struct {
	name   string
	t      reflect.Type
	refs   []string // what reads it in a template
	fields []string // the field the reference reads, the whole when empty
	second bool     // defined before the second template
	embed  bool
}

type stateModel struct {
	st     *est.State
	second bool
	values map[string]reflect.Value
	out    string
}

type stateCase struct {
	*Rand
	c    *Ctx
	vars []*stateVar
	log  []string
}

func (h *stateCase) gen(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == tAny:
		v.Set(h.gen(stateTypes[h.N(11)]))
	case t == reflect.TypeOf(time.Time{}):
		v.Set(value(time.Unix(int64(h.N(1<<30)), 0).UTC()))
	case t.Kind() == reflect.String:
		v.SetString(h.word(5))
	case t.Kind() == reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(h.gen(t.Elem()))
	case t == tLeaf:
		h.fill(v, 1)
		v.Field(2).SetFloat(1.5)
	case t.Kind() == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(h.gen(t.Elem()))
		}
	case t.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			v.Field(i).Set(h.gen(t.Field(i).Type))
		}
	case t.Kind() == reflect.Slice || t.Kind() == reflect.Map:
		h.fill(v, 1)
	case t == tCCount:
		v.SetInt(int64(h.Int()))
	case isFloatKind(t.Kind()):
		v.SetFloat(float64(h.R(-999, 999)) / 8)
	default:
		return h.scalar(t, true)
	}
	return v
}

// stored gives what a variable of the type holds after it was set to the value
func stored(t reflect.Type, v reflect.Value) (reflect.Value, string) {
	numeric := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr }
	out := reflect.New(t).Elem()
	vt := v.Type()
	switch {
	case vt.AssignableTo(t):
		out.Set(v)
		return out, "assignable"
	case vt.Kind() == reflect.Ptr && !v.IsNil() && vt.Elem().AssignableTo(t):
		out.Set(v.Elem())
		return out, "dereferenced"
	case t.Kind() == reflect.Ptr && vt.AssignableTo(t.Elem()):
		p := reflect.New(t.Elem())
		p.Elem().Set(v)
		out.Set(p)
		return out, "made pointer"
	case numeric(vt.Kind()) && numeric(t.Kind()), vt.Kind() == t.Kind() && vt.ConvertibleTo(t):
		return v.Convert(t), "converted"
	}
	return out, ""
}

func (h *stateCase) render(m *stateModel, second bool) string {
	var b strings.Builder
	for _, v := range h.vars {
		if v.second && !second {
			continue
		}
		for i, f := range v.fields {
			val := m.values[v.name]
			if f != "" {
				if val.Kind() == reflect.Ptr && val.IsNil() {
					sf, _ := val.Type().Elem().FieldByName(f)
					val = reflect.Zero(sf.Type)
				} else {
					val = reflect.Indirect(val).FieldByName(f)
				}
			}
			b.WriteString(v.refs[i] + "=" + renderValue(val) + ";")
		}
	}
	return b.String()
}

func (h *stateCase) source(second bool, assigned map[string]bool) string {
	var b strings.Builder
	for _, v := range h.vars {
		if v.second && !second {
			continue
		}
		for _, r := range v.refs {
			b.WriteString(r + "=${" + r + "};")
		}
	}
	for _, v := range h.vars { // after everything is rendered
		if assigned[v.name] && (second || !v.second) {
			b.WriteString("#set($" + v.refs[len(v.refs)-1] + " = $" + v.refs[0] + " + 1)")
		}
	}
	return b.String()
}

func caseState(c *Ctx) {
	h := &stateCase{Rand: c.Rand, c: c}
	assigned := map[string]bool{}
	embeds := []reflect.Type{reflect.TypeOf(StateEmb{}), reflect.TypeOf(&StateEmbPtr{}), reflect.TypeOf(StateEmbTag{}), stateAnon,
		reflect.TypeOf(stateHidden{}), reflect.TypeOf(&StateMeth{}), reflect.TypeOf(StateBox[Leaf]{}), stateTwins[0], stateTwins[1]}
	if c.P(50) {
		embeds[4] = reflect.PtrTo(embeds[4])
	}
	if c.P(50) {
		embeds[5] = embeds[5].Elem()
	}
	if c.P(30) {
		embeds[6] = reflect.TypeOf(&StateBox[time.Time]{})
	}
	fields := [][]string{{"EmbInt", "EmbText", "EmbList"}, {"PtrInt", "PtrText", "PtrLeaf"}, {"A", "B", "B", "D"}, {"AnonText", "AnonInt"}, {"HidA", "HidB"}, {"MethA", "MethB"}, {"BoxItem", "BoxN"}, {"TwinA"}, {"TwinB", "TwinC"}}
	names := [][]string{{"EmbInt", "EmbText", "EmbList"}, {"PtrInt", "PtrText", "PtrLeaf"}, {"TagA", "TagB1", "TagB2", "D"}, {"AnonText", "AnonInt"}, {"HidA", "HidB"}, {"MethA", "MethB"}, {"BoxItem", "BoxN"}, {"TwinA"}, {"TwinB", "TwinC"}}
	typeNames := []string{"StateEmb", "stateHidden", "StateMeth", "Twin", "StateBox", "StateEmbPtr"}
	for i, n := 0, c.R(2, 12); i < n; i++ {
		v := &stateVar{second: i > n*2/3}
		if len(embeds) > 0 && c.P(30) {
			k := c.N(len(embeds))
			v.embed, v.t, v.name, v.fields, v.refs = true, embeds[k], fmt.Sprintf("embed %d %v", i, embeds[k]), fields[k], names[k]
			embeds = append(append([]reflect.Type{}, embeds[:k]...), embeds[k+1:]...)
			fields = append(append([][]string{}, fields[:k]...), fields[k+1:]...)
			names = append(append([][]string{}, names[:k]...), names[k+1:]...)
		} else {
			v.t = stateTypes[c.N(len(stateTypes))]
			v.name = fmt.Sprintf("%s%d", pick(c.Rand, "v", "Name", "x_", "Zz"), i)
			if c.P(8) && len(typeNames) > 0 { // the name of a type that may be embedded
				k := c.N(len(typeNames))
				v.name, v.second = typeNames[k], false // an embedded type is there by its name as long as nothing else is
				typeNames = append(append([]string{}, typeNames[:k]...), typeNames[k+1:]...)
				c.Count("named as a type", 1)
			}
			v.refs, v.fields = []string{v.name}, []string{""}
			for c.P(20) {
				v.refs, v.fields = append(v.refs, fmt.Sprintf("alt%d_%d", i, len(v.refs))), append(v.fields, "")
				c.Count("alternative name", 1)
			}
			if v.t == tInt && c.P(40) {
				assigned[v.name] = true
			}
		}
		h.vars = append(h.vars, v)
	}
	var types []string
	for _, v := range h.vars {
		types = append(types, fmt.Sprintf("%v %v second:%v", v.refs, v.t, v.second))
	}
	src := [2]string{h.source(false, assigned), h.source(true, assigned)}
	desc := func() {
		c.Desc("variables: %s\ntemplates: %q\nhistory: %s", strings.Join(types, ", "), src, strings.Join(h.log, "; "))
	}
	desc()
	var failure, detail string
	fail := func(key, f string, args ...interface{}) {
		if failure == "" {
			failure, detail = key, fmt.Sprintf(f, args...)
		}
	}
	panicked, stack := guard(func() {
		pl := velty.New()
		define := func(second bool) error {
			for _, v := range h.vars {
				if v.second != second {
					continue
				}
				var given interface{} = v.t
				if c.P(50) && v.t != tAny {
					given = reflect.Zero(v.t).Interface()
				}
				var err error
				if v.embed {
					err = pl.EmbedVariable(given)
					if err == nil && c.P(10) { // once more
						err = pl.EmbedVariable(given)
						c.Count("embedded twice", 1)
					}
				} else {
					err = pl.DefineVariable(v.name, given, v.refs[1:]...)
				}
				if err != nil {
					return err
				}
			}
			return nil
		}
		var execs [2]*est.Execution
		var newState [2]func() *est.State
		var models []*stateModel
		compile := func(i int) bool {
			if err := define(i == 1); err != nil {
				fail("definition", "%v", err)
				return false
			}
			var err error
			if execs[i], newState[i], err = pl.Compile([]byte(src[i])); err != nil {
				fail("compile", "%v", err)
				return false
			}
			return true
		}
		if !compile(0) {
			return
		}
		if c.P(5) {
			c.Count("nil definition", 1)
			if pl.DefineVariable("nobody", nil) == nil || pl.EmbedVariable(nil) == nil {
				fail("nil", "a variable of no type is defined")
			}
		}
		phase := 0
		steps := c.R(4, 24)
		burst := -1 // the step that makes many states
		if c.P(3) {
			burst = c.N(steps)
		}
		for step := 0; step < steps && failure == ""; step++ {
			if phase == 0 && step > steps/2 {
				if !compile(1) {
					return
				}
				phase = 1
				h.log = append(h.log, "compiled the second")
			}
			most := 1
			if step == burst {
				most = c.R(20, 80)
				c.Count("many states", 1)
			}
			for n := 0; n < most && (len(models) == 0 || step == burst || len(models) < 4 && c.P(15)); n++ {
				m := &stateModel{st: newState[phase](), second: phase == 1, values: map[string]reflect.Value{}}
				for _, v := range h.vars {
					m.values[v.name] = reflect.New(v.t).Elem()
				}
				models = append(models, m)
				h.log = append(h.log, "new state")
				c.Count("state", 1)
				if step == burst {
					h.set(m, len(models)-1, fail)
				}
			}
			mi := c.N(len(models))
			m := models[mi]
			switch k := c.N(10); {
			case k < 6:
				h.set(m, mi, fail)
			case k < 7:
				m.st.Reset()
				m.out = ""
				h.log = append(h.log, fmt.Sprintf("%d reset", mi))
				c.Count("reset", 1)
			default:
				i := 0
				if m.second {
					i = 1
				}
				h.exec(m, mi, execs[i], fail, assigned)
			}
		}
		for i, m := range models { // whatever was done to the others
			e := 0
			if m.second {
				e = 1
			}
			if failure == "" {
				h.exec(m, i, execs[e], fail, assigned)
			}
		}
	})
	desc()
	switch {
	case panicked != nil:
		c.Violate("panic", "%v at %s", panicked, stack)
	case failure != "":
		c.Violate(failure, "%s", detail)
	default:
		c.Saw(strings.Join(h.log, ";"))
		c.Sample("%s: %s", strings.Join(types, ", "), clip(strings.Join(h.log, "; "), 300))
	}
}

func (h *stateCase) exec(m *stateModel, mi int, exec *est.Execution, fail func(string, string, ...interface{}), assigned map[string]bool) {
	h.log = append(h.log, fmt.Sprintf("%d executed", mi))
	h.c.Count("executed", 1)
	m.out += h.render(m, m.second)
	if err := exec.Exec(m.st); err != nil {
		fail("error", "state %d: %v", mi, err)
	}
	if got := m.st.Buffer.String(); got != m.out {
		fail("output", "state %d: %s: got %q", mi, firstDiff(m.out, got), clip(got, 600))
	}
	for _, v := range h.vars {
		if assigned[v.name] && (m.second || !v.second) {
			m.values[v.name] = value(int(m.values[v.name].Int()) + 1)
			h.c.Count("set in template", 1)
		}
	}
}

func (h *stateCase) set(m *stateModel, mi int, fail func(string, string, ...interface{})) {
	v := h.vars[h.N(len(h.vars))]
	if h.P(5) {
		h.c.Count("undefined name", 1)
		n := pick(h.Rand, "nothing", "", "v", "Leaf", strings.ToUpper(v.name)+"x", v.name+".N")
		h.log = append(h.log, fmt.Sprintf("%d set %q", mi, n))
		if err := m.st.SetValue(n, 1); err == nil {
			fail("no error", "SetValue(%q) of no variable", n)
		}
		return
	}
	if v.embed {
		h.embed(m, mi, v, fail)
		return
	}
	var given reflect.Value
	switch h.N(6) {
	case 0:
		given = h.gen(stateTypes[h.N(len(stateTypes))])
	case 1:
		given = h.gen(stateTypes[h.N(11)])
	case 2:
		if v.t != tAny {
			p := reflect.New(v.t)
			p.Elem().Set(h.gen(v.t))
			given = p
			break
		}
		fallthrough
	case 3:
		if v.t.Kind() == reflect.Ptr {
			given = h.gen(v.t.Elem())
			break
		}
		fallthrough
	default:
		given = h.gen(v.t)
	}
	var arg interface{} = given.Interface()
	want, how := stored(v.t, reflect.ValueOf(arg))
	if h.P(4) {
		arg, want, how = nil, reflect.Zero(v.t), "nil"
		if v.t == tAny {
			want = reflect.New(tAny).Elem()
		}
	} else if h.P(3) && v.t.Kind() != reflect.Ptr && v.t != tAny {
		arg, how = reflect.Zero(reflect.PtrTo(v.t)).Interface(), "" // nothing to take the value from
	}
	err := m.st.SetValue(v.name, arg)
	switch {
	case v.second && !m.second:
		h.c.Count("defined later", 1)
		if err == nil {
			fail("no error", "SetValue(%q) of a variable the state was created without", v.name)
		}
	case how == "":
		h.c.Count("wrong type", 1)
		if err == nil {
			fail("no error", "SetValue(%q, %T) for a %v", v.name, arg, v.t)
		}
	default:
		h.c.Count(how, 1)
		if err != nil {
			fail("rejected", "SetValue(%q, %T) for a %v: %v", v.name, arg, v.t, err)
		}
		m.values[v.name] = want
	}
	shown := "nil"
	if arg != nil {
		shown = mustJSON(arg)
	}
	h.log = append(h.log, fmt.Sprintf("%d %s=%T %v (%s)", mi, v.name, arg, shown, how))
}

func (h *stateCase) embed(m *stateModel, mi int, v *stateVar, fail func(string, string, ...interface{})) {
	if h.P(10) {
		h.c.Count("no holder", 1)
		arg := pick[interface{}](h.Rand, 5, "x", Leaf{}, &Leaf{}, []int{1}, struct{ A int }{1}, map[string]int{}, nil, callCase{})
		h.log = append(h.log, fmt.Sprintf("%d embed %T", mi, arg))
		if err := m.st.EmbedValue(arg); err == nil {
			fail("no error", "EmbedValue(%T) with nothing of that type", arg)
		}
		return
	}
	base := v.t
	if base.Kind() == reflect.Ptr {
		base = base.Elem()
	}
	p := reflect.New(base)
	p.Elem().Set(h.gen(base))
	var arg interface{}
	switch {
	case v.t == stateAnon:
		arg = p.Elem().Interface()
		h.c.Count("embedded anonymous", 1)
	case h.P(50):
		arg = p.Interface()
		h.c.Count("embedded pointer", 1)
	default:
		arg = p.Elem().Interface()
		h.c.Count("embedded value", 1)
	}
	if v.second && !m.second { // a variable with the name of the type would take it
		short := base.String()[strings.LastIndex(base.String(), ".")+1:]
		for _, o := range h.vars {
			if o.name == short {
				return
			}
		}
	}
	err := m.st.EmbedValue(arg)
	h.log = append(h.log, fmt.Sprintf("%d embed %T %v", mi, arg, mustJSON(arg)))
	if v.second && !m.second {
		h.c.Count("defined later", 1)
		if err == nil {
			fail("no error", "EmbedValue(%T) the state was created without", arg)
		}
		return
	}
	if err != nil {
		fail("rejected", "EmbedValue(%T): %v", arg, err)
	}
	want, _ := stored(v.t, reflect.ValueOf(arg))
	m.values[v.name] = want
}

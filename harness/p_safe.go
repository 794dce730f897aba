package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/viant/velty"
)

// C22: whatever Compile accepts can be executed: an ill-considered template gives an output, an error or a panic the language
// defines, the same one each time, and never reads or writes memory it has nothing to do with

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "a case is a generated template whose references, literals, operators, functions and directives were exchanged with others at random or whose text was damaged, over data some of which is nil; when it compiles it is executed twice on equal data: outputs, errors, data and panics have to be the same, and the only panics are an index out of range, a division by zero and those of the functions; distinct by template and output",
		Plans: []Plan{
			{Variant: "plain", Quick: 80000, Thorough: 4000000},
			{Variant: "checkptr", Quick: 12000, Thorough: 400000},
		},
		Case: caseSafe,
		Min:  []string{"executed", "rejected", "exchanged", "damaged text", "nil data", "exotic types"},
	})
}

var (
	safeRefs  = regexp.MustCompile(`\$\{?!?[A-Za-z]\w*(\.[A-Za-z]\w*|\[[^\[\]{}#]*\])*`)
	safeLits  = regexp.MustCompile(`"[^"\n]*"|\b\d+(\.\d+)?\b|\btrue\b|\bfalse\b`)
	safeOps   = regexp.MustCompile(` ?(==|!=|<=|>=|<|>|&&|\|\||\+|\*|/| - ) ?`)
	safeSteps = regexp.MustCompile(`\.[A-Z]\w*`)
	safeHuge  = regexp.MustCompile(`\d{4,}|\d{3,}\s*\.\.\.|\.\.\.\s*-?\d{3,}`)
	safeLoops = regexp.MustCompile(`#for\b|#for\s*\(|#\{for`)
)

// exchange replaces pieces of the template with pieces of the same sort
func (r *Rand) exchange(src, other string) string {
	for n := r.R(1, pick(r, 1, 2, 3, 6)); n > 0; n-- {
		re := pick(r, safeRefs, safeRefs, safeRefs, safeLits, safeOps, safeSteps)
		with := re
		if re == safeLits && r.P(40) || re == safeRefs && r.P(10) {
			with = pick(r, safeRefs, safeLits)
		}
		at := re.FindAllStringIndex(src, -1)
		found := with.FindAllString(pick(r, src, other), -1)
		if len(at) == 0 || len(found) == 0 {
			continue
		}
		p := at[r.N(len(at))]
		by := found[r.N(len(found))]
		if re == safeRefs && with == safeRefs { // braces stay as they are
			by = strings.TrimLeft(by, "${!")
			head := src[p[0]:p[1]]
			head = head[:len(head)-len(strings.TrimLeft(head, "${!"))]
			by = head + by
		} else if re == safeLits && with == safeRefs {
			by = "$" + strings.TrimLeft(by, "${!")
		}
		src = src[:p[0]] + by + src[p[1]:]
	}
	return src
}

type safeInner struct {
	I8   int8
	Ptr  *int
	Any  interface{}
	List []*safeInner
	Map  map[string]*safeInner
	Fun  func() int
	Arr  [3]int
	Next *safeInner
	Text *string
	When time.Time
	C    complex64
	Bits []byte
}

func (s safeInner) Size() int { return len(s.List) }
func (s *safeInner) Deep() *safeInner {
	if s == nil {
		return nil
	}
	return s.Next
}

// exotic is data of types templates rarely meet
func (r *Rand) exotic() map[string]reflect.Value {
	var inner func(depth int) *safeInner
	inner = func(depth int) *safeInner {
		i, t := r.Int(), r.word(5)
		s := &safeInner{I8: int8(r.N(100)), Ptr: &i, Any: pick[interface{}](r, 1, "a", 1.5, true, nil, []int{1}, map[string]int{"a": 1}, &t, Leaf{N: 3}), Fun: func() int { return 3 }, Text: &t, When: time.Unix(int64(r.N(1e9)), 0).UTC(), Bits: []byte(t)}
		if depth > 0 {
			s.List = []*safeInner{inner(depth - 1), inner(depth - 1)}
			s.Map = map[string]*safeInner{"a": inner(depth - 1)}
			s.Next = inner(depth - 1)
		}
		return s
	}
	x := inner(2)
	n := r.N(5)
	var nilInner *safeInner
	ints := []int{1, 2, 3}
	xcopy := *x
	xp := &xcopy
	return map[string]reflect.Value{
		"xs": reflect.ValueOf(*x), "xp": reflect.ValueOf(x), "xnil": reflect.ValueOf(nilInner),
		"xany":  reflect.ValueOf([]interface{}{1, "a", nil, 2.5, true, x, *x, []int{1}, map[string]interface{}{"a": 1}}),
		"xmap":  reflect.ValueOf(map[string]interface{}{"a": 1, "b": map[string]interface{}{"c": []interface{}{1, "x"}}, "n": nil}),
		"ximap": reflect.ValueOf(map[interface{}]interface{}{1: "a", "a": 2, true: 3}),
		"xarr":  reflect.ValueOf([3]string{"a", "b", "c"}), "xmat": reflect.ValueOf([][]*Leaf{{{N: 1}, nil}, nil}), "xpi": reflect.ValueOf(&n), "xps": reflect.ValueOf(&ints),
		"xfun": reflect.ValueOf(func(i int) int { return i }), "xch": reflect.ValueOf(make(chan int, 1)), "xc": reflect.ValueOf(complex(1, 2)), "xb": reflect.ValueOf([]byte("ab")),
		"xmp": reflect.ValueOf(map[int]*Leaf{1: {N: 1}, 2: nil}), "xms": reflect.ValueOf(map[Leaf2]int{{1, "a"}: 1}), "xempty": reflect.ValueOf(struct{}{}), "xt": reflect.ValueOf(time.Unix(5, 0).UTC()),
		"xpp": reflect.ValueOf(&xp), "xe": reflect.ValueOf([]error{&Oops{"bad"}, nil}),
	}
}

// Leaf2 is a key
type Leaf2 struct {
	A int
	B string
}

var exoticRefs = strings.Fields("$xs.I8 $xs.Ptr $xs.Any $xs.List $xs.List[0] $xs.List[1].I8 $xs.Map $xs.Map[\"a\"].I8 $xs.Fun $xs.Fun() $xs.Arr $xs.Arr[1] $xs.Next.Next.I8 $xs.Next.Ptr $xs.Text $xs.When $xs.When.Year() $xs.C $xs.Bits $xs.Bits[0] $xs.Size() " +
	"$xp $xp.Ptr $xp.Any $xp.Next.Next.Next.I8 $xp.Deep() $xp.Deep().I8 $xp.Size() $xp.List[0].Map[\"a\"].Text $xnil $xnil.I8 $xnil.Next.I8 $xnil.Deep() $xnil.Size() $xnil.Text $xnil.List[0] $xnil.Map[\"a\"] $xany $xany[0] $xany[2] $xany[4].I8 $xany[6] " +
	"$xmap $xmap[\"a\"] $xmap[\"b\"] $xmap[\"b\"][\"c\"] $xmap[\"b\"][\"c\"][0] $xmap[\"zz\"] $ximap[1] $ximap[\"a\"] $ximap[true] $xarr $xarr[0] $xmat $xmat[0][0].N $xmat[0][1].N $xmat[1] $xmat[0] $xpi $xps $xps[0] $xfun $xfun(1) $xch $xc $xb $xb[1] $xmp[1].N $xmp[2].N $xmp[3].N $xms $xempty $xempty.A $xt $xt.Unix() $xpp $xpp.I8 $xpp.List $xpp.Next.Next.I8 $xpp.List[0].Text $xpp.Map $xpp.Deep() $xpp.Size() $xe $xe[0] $xe[1]")

// hollow makes some of the data nil
func (r *Rand) hollow(v reflect.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	n := 0
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return 0
		}
		if v.CanSet() && r.P(20) {
			v.Set(reflect.Zero(v.Type()))
			return 1
		}
		n += r.hollow(v.Elem(), depth+1)
	case reflect.Slice:
		if v.CanSet() && r.P(10) {
			v.Set(reflect.Zero(v.Type()))
			return 1
		}
		for i := 0; i < v.Len(); i++ {
			n += r.hollow(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.CanSet() && r.P(10) {
			v.Set(reflect.Zero(v.Type()))
			return 1
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += r.hollow(v.Field(i), depth+1)
			}
		}
	}
	return n
}

func caseSafe(c *Ctx) {
	g := newGen(c.Rand)
	program := func() string {
		cp := &Gen{Rand: c.Rand, hosts: g.hosts, fns: g.fns, noEval: true, blockSize: 3}
		for _, v := range g.vars {
			s := *v
			cp.vars = append(cp.vars, &s)
		}
		return source(c.Rand, cp.block(2))
	}
	src, other := program(), program()
	if c.P(60) {
		for n, v := range c.exotic() {
			g.hosts[n] = v
		}
		for n := c.R(2, 12); n > 0; n-- {
			other += exoticRefs[c.N(len(exoticRefs))] + " "
		}
		if c.P(60) { // so that many of them are exchanged
			for n := c.R(1, 6); n > 0; n-- {
				at := safeRefs.FindAllStringIndex(src, -1)
				if len(at) == 0 {
					break
				}
				p := at[c.N(len(at))]
				if src[p[0]:p[1]][1] != '{' {
					src = src[:p[0]] + exoticRefs[c.N(len(exoticRefs))] + src[p[1]:]
				}
			}
		}
		if c.P(30) {
			a, b := exoticRefs[c.N(len(exoticRefs))], exoticRefs[c.N(len(exoticRefs))]
			src += pick(c.Rand, "#set("+a+" = "+b+")", "#foreach($q in "+a+")$q"+"#end", "#if("+a+")y#else n#end", "#if("+a+" == "+b+")y#end", a, "$show("+a+")", "#set($q1 = "+a+")$q1", "#set($q2 = "+a+" + "+b+")$q2", "#foreach($q in "+a+")#foreach($p in $q)$p#end#end", a+"["+b+"]", a+"("+b+")", "#if("+a+" && !"+b+")y#end", "$maps.Get("+a+", "+b+")", "$slices.Length("+a+")", "#set($q3 = "+a+".IndexBy(\"N\"))$q3["+b+"]", a+".HasKey("+b+")", "$json.Marshal("+a+")")
		}
		c.Count("exotic types", 1)
	}
	if c.P(75) {
		src = c.exchange(src, other)
		c.Count("exchanged", 1)
	} else {
		src = string(c.damage([]byte(src), []byte(other)))
		c.Count("damaged text", 1)
	}
	if safeHuge.MatchString(src) || safeLoops.MatchString(src) || strings.Contains(src, "evaluate") {
		c.Count("not bounded, skipped", 1)
		return
	}
	if c.P(50) {
		hosts := map[string]reflect.Value{}
		n := 0
		for _, name := range sortedKeys(g.hosts) {
			v := reflect.New(g.hosts[name].Type()).Elem()
			v.Set(copyOf(g.hosts[name]))
			n += c.hollow(v, 0)
			hosts[name] = v
		}
		g.hosts = hosts
		c.Count("nil data", n)
	}
	p := &Program{Src: src, Hosts: g.hosts, Fns: g.fns}
	c.Desc("template: %s\n%s", src, describeHosts(p.Hosts, src))
	escape := c.P(20)
	var outs [2]string
	for i := range outs {
		var cp *compiled
		var err error
		panicked, stack := guard(func() { cp, err = p.compile(velty.EscapeHTML(escape)) })
		if panicked != nil {
			c.Violate("panic in compile", "%v at %s", panicked, stack)
			return
		}
		if err != nil {
			c.Count("rejected", 1)
			return
		}
		st := cp.state()
		data := copyHosts(p.Hosts)
		if err = fillState(st, data); err != nil {
			c.Violate("error in data", "%v", err)
			return
		}
		panicked, stack = guard(func() { err = cp.exec.Exec(st) })
		outs[i] = st.Buffer.String()
		switch {
		case panicked != nil:
			text := fmt.Sprint(panicked)
			if !strings.HasPrefix(text, "index out of range") && !strings.Contains(text, "runtime error: index out of range") && !strings.Contains(text, "integer divide by zero") && !strings.HasPrefix(text, "value method ") && !(strings.HasPrefix(stack, "/repo/functions/") && !strings.Contains(text, "nil pointer")) {
				c.Violate("panic "+strings.SplitN(stack, " +", 2)[0], "%v at %s", panicked, stack)
				return
			}
			outs[i] += "|panic " + text
			c.Count("panicked", 1)
		case err != nil:
			outs[i] += "|error " + errText(err)
			c.Count("failed", 1)
		}
		for _, n := range sortedKeys(data) {
			outs[i] += fmt.Sprintf("|%s=%v", n, dump(data[n], 0))
		}
	}
	c.Count("executed", 1)
	if a, b := address.ReplaceAllString(outs[0], "0x"), address.ReplaceAllString(outs[1], "0x"); a != b {
		c.Violate("not repeatable", "%s", firstDiff(a, b))
		return
	}
	c.Saw(src + outs[0])
	c.Sample("%s => %s", clip(src, 300), clip(outs[0], 300))
}

// Oops is an error
type Oops struct{ M string }

func (o *Oops) Error() string { return o.M }

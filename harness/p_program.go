package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/viant/velty"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "a case is a random well-typed template over random data, executed and compared with the reference interpreter: output and the data afterwards; non-trivial when the template has at least one directive or reference, distinct by its source",
		Plans: []Plan{
			{Variant: "plain", Quick: 45000, Thorough: 3000000},
			{Variant: "checkptr", Quick: 4000, Thorough: 200000},
		},
		Case:   caseProgram,
		Silent: true,
		Min:    []string{"reference", "set", "branch taken", "foreach iteration", "for iteration", "evaluate", "call"},
	})
}

func caseProgram(c *Ctx) {
	g := newGen(c.Rand)
	if c.P(40) {
		g.addTemplates(c.R(1, 2))
	}
	p := &Program{Fns: g.fns}
	p.Body = g.block(3)
	for c.P(50) {
		p.Body = append(p.Body, g.block(3)...)
	}
	p.Src = source(c.Rand, p.Body)
	p.Hosts = g.hosts
	escape := c.P(25)
	var opts []velty.Option
	opts = append(opts, velty.EscapeHTML(escape))
	if c.P(40) {
		opts = append(opts, velty.CacheSize(c.R(0, 3)))
	}
	if c.P(40) {
		opts = append(opts, velty.BufferSize(pick(c.Rand, 0, 1, 7, 64, 4096)))
	}
	judgeProgram(c, p, escape, opts)
}

// judgeProgram compares an execution of the program with the reference, a failing program is reduced
func judgeProgram(c *Ctx, p *Program, escape bool, opts []velty.Option) bool {
	if c.probing || c.w.shrunk >= 6 {
		return judgeProgramOnce(c, p, escape, opts)
	}
	probe := func(p *Program) (string, bool) {
		pc := &Ctx{Rand: NewRand(1), Prop: c.Prop, Variant: c.Variant, Tier: c.Tier, Index: c.Index, w: c.w, probing: true}
		judged := judgeProgramOnce(pc, p, escape, opts)
		return pc.failedKey, judged
	}
	key, judged := probe(p)
	if key != "" {
		c.w.shrunk++
		shrink(p, func(p *Program) bool { k, _ := probe(p); return k == key })
		return judgeProgramOnce(c, p, escape, opts)
	}
	return judged
}

func judgeProgramOnce(c *Ctx, p *Program, escape bool, opts []velty.Option) bool {
	ref, refHosts, ok, failure := p.reference(escape)
	if !ok {
		c.Count("too long, skipped", 1)
		return false
	}
	c.Desc("template: %s\n%s", p.Src, describeHosts(p.Hosts, p.Src))
	hosts := copyHosts(p.Hosts)
	var out string
	var err error
	stage := "compile"
	panicked, stack := guard(func() {
		var cp *compiled
		if cp, err = p.compile(opts...); err != nil {
			return
		}
		st := cp.state()
		stage = "data"
		if err = fillState(st, hosts); err != nil {
			return
		}
		stage = "execution"
		err = cp.exec.Exec(st)
		out = st.Buffer.String()
	})
	switch {
	case panicked != nil:
		c.Violate("panic in "+stage, "%v at %s", panicked, stack)
		return true
	case failure != "" && stage == "execution":
		if err == nil {
			c.Violate("no error", "the template should have failed: %s", failure)
		} else if !strings.Contains(err.Error(), failure) && !strings.HasPrefix(failure, "not a number") {
			c.Violate("other error", "the error should tell %q: %v", failure, err)
		}
		c.Count("failed as expected", 1)
		return true
	case err != nil:
		c.Violate("error in "+stage, "%v", err)
		return true
	}
	if want := ref.out.String(); out != want {
		c.Violate("output", "%s\nwant %q\ngot  %q", firstDiff(want, out), clip(want, 1500), clip(out, 1500))
		return true
	}
	for n, v := range hosts {
		if !sameData(refHosts[n], v) {
			c.Violate("data", "%s should be %s but is %s", n, clip(renderValue(refHosts[n]), 800), clip(renderValue(v), 800))
			return true
		}
	}
	for name, n := range ref.stats {
		c.Count(name, n)
	}
	c.Count("bytes compared", len(out))
	c.Saw(p.Src)
	c.Sample("%s => %q", p.Src, clip(out, 200))
	return true
}

// sameData compares deeply, NaN equals NaN
func sameData(a, b reflect.Value) bool {
	if reflect.DeepEqual(a.Interface(), b.Interface()) {
		return true
	}
	return fmt.Sprint(dump(a, 0)) == fmt.Sprint(dump(b, 0))
}

func dump(v reflect.Value, depth int) interface{} {
	if depth > 12 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return []interface{}{"&", dump(v.Elem(), depth+1)}
	case reflect.Struct:
		if v.CanInterface() {
			if t, ok := v.Interface().(time.Time); ok {
				return t.String()
			}
		}
		var s []interface{}
		for i := 0; i < v.NumField(); i++ {
			s = append(s, v.Type().Field(i).Name, dump(v.Field(i), depth+1))
		}
		return s
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		s := []interface{}{"["}
		for i := 0; i < v.Len(); i++ {
			s = append(s, dump(v.Index(i), depth+1))
		}
		return s
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			name := fmt.Sprint(k)
			if k.CanInterface() {
				name = fmt.Sprint(k.Interface())
			}
			if k.Kind() == reflect.Interface && k.CanInterface() {
				name = fmt.Sprintf("%T %v", k.Interface(), k.Interface())
			}
			m[name] = dump(v.MapIndex(k), depth+1)
		}
		return m
	}
	if !v.CanInterface() { // a field of an error, say
		return fmt.Sprintf("%q", fmt.Sprint(v))
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}

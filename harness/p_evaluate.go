package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C07: #evaluate renders what its template would render in place, whatever was evaluated before and whatever the cache holds

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "a case is a pool of generated templates (nested ones and ones that don't compile included), evaluated in a random order by one or two planners sharing a cache of random size, in several executions; output and data are compared with the reference, which has no cache; distinct by the history of evaluated templates and cache size",
		Plans: []Plan{
			{Variant: "plain", Quick: 9000, Thorough: 600000},
			{Variant: "checkptr", Quick: 1000, Thorough: 60000},
		},
		Case: caseEvaluate,
		Min:  []string{"evaluate", "broken template evaluated", "nested evaluate", "scopes sharing a cache", "same source, other types", "executions", "variable defined later", "state made before"},
	})
}

var brokenTemplates = []string{"abc #foreach($q in $ints)", "abc #foreach($q in $strs)$q", "#if(true)x", "text $n #if($b)a#else", "$h.Nope1 x", "x $n $h.In.Nope1 y", "#foreach($q in $n)x#end", "#evaluate($n)", "#if($nobodyKnows)a#end", "a#set($n = $ints)", "a#set($ints = $n)"}

// scope is a planner with its data
type evalScope struct {
	p     *Program
	polyT reflect.Type
	exec  *est.Execution
	state func() *est.State
	list  []string
	pl    *velty.Planner
	late  map[string]reflect.Value // variables defined between executions
	old   []*est.State             // states made before
	known []int                    // how many of them each of those knows
}

// lateSources evaluate variables that are defined later, if ever
var lateSources = []string{"<$late0>", "<$late1>", "<$late2>"}

func lateBody(name string, v reflect.Value, defined bool) *Block {
	if !defined {
		return &Block{Body: []Stmt{&Text{S: "<$" + name + ">"}}}
	}
	return &Block{Body: []Stmt{&Text{S: "<"}, &Out{P: &Path{Root: name, T: v.Type()}}, &Text{S: ">"}}}
}

// evalPool generates the templates
func evalPool(g *Gen, n int) (dyn map[string]*Block, srcs []string, nested bool) {
	dyn = map[string]*Block{}
	var inner []string
	level := func(prefix string, noEval bool) ([]Stmt, string) {
		sub := &Gen{Rand: g.Rand, hosts: g.hosts, fns: g.fns, noEval: true, evalBody: g.evalBody, evalSrc: g.evalSrc, blockSize: 3, pfx: prefix}
		for _, v := range g.vars {
			c := *v
			sub.vars = append(sub.vars, &c)
		}
		body := sub.block(2)
		if !noEval && g.P(35) && len(inner) > 0 {
			nested = true
			at := g.N(len(body) + 1)
			name := inner[g.N(len(inner))]
			body = append(body[:at:at], append([]Stmt{&Eval{P: &Path{Root: name, T: tString}, Dyn: dyn}}, body[at:]...)...)
		}
		return body, source(g.Rand, body)
	}
	for i := g.N(3); i > 0; i-- {
		body, src := level("B", true)
		dyn[src] = &Block{body}
		name := fmt.Sprintf("inner%d", len(inner))
		v := reflect.New(tString).Elem()
		v.SetString(src)
		g.hosts[name] = v
		inner = append(inner, name)
		srcs = append(srcs, src)
	}
	for ; n > 0; n-- {
		body, src := level("A", false)
		dyn[src] = &Block{body}
		srcs = append(srcs, src)
	}
	for i := g.R(1, 2); i > 0; i-- {
		src := brokenTemplates[g.N(len(brokenTemplates))]
		if strings.Contains(src, "$h.") && g.lookup("h") == nil || strings.Contains(src, "$ints") && g.lookup("ints") == nil || strings.Contains(src, "$strs") && g.lookup("strs") == nil {
			continue
		}
		dyn[src] = nil
		srcs = append(srcs, src)
	}
	dyn[""] = &Block{}
	return dyn, append(srcs, ""), nested
}

func caseEvaluate(c *Ctx) {
	g := newGen(c.Rand)
	dyn, srcs, nested := evalPool(g, c.R(1, 5))
	polySrc := "<$poly>#set($polyCopy = $poly)$polyCopy"
	srcs = append(srcs, polySrc)
	dyn[polySrc] = &Block{} // differs by scope
	for _, src := range lateSources {
		srcs = append(srcs, src)
		dyn[src] = &Block{}
	}
	cacheSize := c.R(0, 4)
	escape := c.P(20)
	base := velty.New(velty.CacheSize(cacheSize), velty.EscapeHTML(escape), velty.BufferSize(c.R(0, 100)))
	tList := reflect.SliceOf(tString)
	scopes := make([]*evalScope, c.R(1, 3))
	evalTemplate := &Eval{P: &Path{Root: "tp", T: tString}, Dyn: dyn}
	names := sortedKeys(g.fns)
	for _, n := range names {
		if err := base.RegisterFunction(n, g.fns[n].fn); err != nil {
			c.Violate("function", "%v", err)
			return
		}
	}
	var desc []string
	hosts := g.hosts
	for i := range scopes {
		sc := &evalScope{polyT: basic[c.N(len(basic))], p: &Program{Fns: g.fns, Hosts: map[string]reflect.Value{}}}
		for n, v := range copyHosts(hosts) {
			sc.p.Hosts[n] = v
		}
		poly := reflect.New(sc.polyT).Elem()
		c.fill(poly, 0)
		sc.p.Hosts["poly"] = poly
		sc.p.Hosts["tps"] = reflect.Zero(tList)
		// other text and variables around the evaluation
		own := &Gen{Rand: c.Rand, hosts: sc.p.Hosts, fns: g.fns, noEval: true, blockSize: 2, pfx: "M"}
		for _, v := range g.vars {
			cp := *v
			own.vars = append(own.vars, &cp)
		}
		body := own.block(1)
		body = append(body, &Each{Item: "tp", List: &Path{Root: "tps", T: tList}, Body: []Stmt{&Text{S: "["}, evalTemplate, &Text{S: "]"}}})
		body = append(body, own.block(1)...)
		sc.p.Body = body
		sc.p.Src = source(c.Rand, body)
		desc = append(desc, fmt.Sprintf("scope %d: %s poly=%v %s", i, sc.p.Src, sc.polyT, describeHosts(sc.p.Hosts, sc.p.Src)))
		scopes[i] = sc
	}
	history := ""
	rounds := c.R(1, 5)
	type run struct {
		scope  int
		list   []string
		define bool // another variable first
		old    bool // on a state made before
	}
	var runs []run
	poly := map[reflect.Type]bool{}
	for ; rounds > 0; rounds-- {
		r := run{scope: c.N(len(scopes)), define: c.P(25), old: c.P(30)}
		for n := c.R(0, 8); n > 0; n-- {
			k := c.N(len(srcs))
			if srcs[k] == polySrc {
				poly[scopes[r.scope].polyT] = true
			}
			history += fmt.Sprint(r.scope, ":", k, " ")
			r.list = append(r.list, srcs[k])
		}
		runs = append(runs, r)
	}
	c.Desc("cache %d, %s\nruns %s", cacheSize, strings.Join(desc, "\n"), fmt.Sprintf("%+q", fmt.Sprint(runs)))
	for i, sc := range scopes {
		pl := base
		if len(scopes) > 1 {
			pl = base.New()
		}
		var err error
		panicked, stack := guard(func() {
			for _, n := range sc.p.names() {
				if err = pl.DefineVariable(n, sc.p.Hosts[n].Type()); err != nil {
					return
				}
			}
			sc.exec, sc.state, err = pl.Compile([]byte(sc.p.Src))
			sc.pl, sc.late = pl, map[string]reflect.Value{}
		})
		if panicked != nil || err != nil {
			c.Violate("compile", "scope %d: %v %v at %s", i, err, panicked, stack)
			return
		}
	}
	for i, r := range runs {
		sc := scopes[r.scope]
		if n := len(sc.late); r.define && n < len(lateSources) {
			sc.old, sc.known = append(sc.old, sc.state()), append(sc.known, n)
			name := fmt.Sprintf("late%d", n)
			v := reflect.New(basic[c.N(len(basic))]).Elem()
			c.fill(v, 0)
			if err := sc.pl.DefineVariable(name, v.Type()); err != nil {
				c.Violate("late variable", "run %d: %v", i, err)
				return
			}
			sc.late[name], sc.p.Hosts[name] = v, v
			c.Count("variable defined later", 1)
			history += fmt.Sprint("define ", r.scope, " ")
		}
		var oldState *est.State
		unknown := map[string]bool{} // to the state
		if n := len(sc.old); r.old && n > 0 {
			for k := sc.known[n-1]; k < len(sc.late); k++ {
				unknown[fmt.Sprintf("late%d", k)] = true
			}
			oldState, sc.old, sc.known = sc.old[n-1], sc.old[:n-1], sc.known[:n-1]
			c.Count("state made before", 1)
		}
		for k, src := range lateSources {
			name := fmt.Sprintf("late%d", k)
			v, defined := sc.late[name]
			if defined {
				sc.p.Hosts[name] = v
				if unknown[name] {
					sc.p.Hosts[name] = reflect.Zero(v.Type())
				}
			}
			dyn[src] = lateBody(name, v, defined)
		}
		sc.p.Hosts["tps"] = reflect.ValueOf(r.list)
		if r.list == nil {
			sc.p.Hosts["tps"] = reflect.Zero(tList)
		}
		dyn[polySrc] = &Block{Body: []Stmt{&Text{S: "<"}, &Out{P: &Path{Root: "poly", T: sc.polyT}}, &Text{S: ">"}, &Set{Target: &Path{Root: "polyCopy", T: sc.polyT}, E: &Path{Root: "poly", T: sc.polyT}}, &Out{P: &Path{Root: "polyCopy", T: sc.polyT}}}}
		ref, refHosts, ok, failure := sc.p.reference(escape)
		if !ok {
			c.Count("too long, skipped", 1)
			return
		}
		data := copyHosts(sc.p.Hosts)
		var out string
		var err error
		panicked, stack := guard(func() {
			st := sc.state()
			if oldState != nil {
				st = oldState
			}
			for n := range unknown {
				delete(data, n)
			}
			if err = fillState(st, data); err != nil {
				return
			}
			err = sc.exec.Exec(st)
			out = st.Buffer.String()
		})
		switch {
		case panicked != nil:
			c.Violate("panic", "run %d: %v at %s", i, panicked, stack)
			return
		case failure != "":
			if err == nil {
				c.Violate("no error", "run %d should have failed: %s", i, failure)
				return
			}
			continue
		case err != nil:
			c.Violate("error", "run %d: %v", i, err)
			return
		}
		if want := ref.out.String(); want != out {
			c.Violate("output", "run %d: %s\nwant %q\ngot  %q", i, firstDiff(want, out), clip(want, 1500), clip(out, 1500))
			return
		}
		for n, v := range data {
			if !sameData(refHosts[n], v) {
				c.Violate("data", "run %d: %s should be %s but is %s", i, n, clip(renderValue(refHosts[n]), 800), clip(renderValue(v), 800))
				return
			}
		}
		c.Count("executions", 1)
		c.Count("evaluate", ref.stats["evaluate"])
		c.Count("broken template evaluated", ref.stats["broken template evaluated"])
	}
	if nested {
		c.Count("nested evaluate", 1)
	}
	if len(scopes) > 1 {
		c.Count("scopes sharing a cache", 1)
	}
	if len(poly) > 1 {
		c.Count("same source, other types", 1)
	}
	if history != "" {
		c.Saw(fmt.Sprint(cacheSize, history, strings.Join(srcs, "\x00")))
	}
	c.Sample("cache %d, %d scopes, %d templates, history %s", cacheSize, len(scopes), len(srcs), history)
}

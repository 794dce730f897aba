package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C20: what a planner compiled or derived before has no influence on a template

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "a case is a tree of up to 5 planners derived from each other at random moments and up to 9 generated templates compiled by them in random order, between templates that are rejected, on states created before and after other templates were compiled; templates of different planners give variables of the same names different types; every execution is compared with the reference, which knows nothing of the others; distinct by the history and sources",
		Plans: []Plan{
			{Variant: "plain", Quick: 16000, Thorough: 400000},
			{Variant: "checkptr", Quick: 1200, Thorough: 60000},
		},
		Case: casePlanners,
		Min:  []string{"derived planner", "template compiled", "template rejected", "execution", "state created before another template", "state of another template", "same name, own type", "planner with several templates"},
	})
}

type plannerNode struct {
	pl     *velty.Planner
	id     int
	shared bool // defines the names planners have in common
	n      int
}

type plannedTemplate struct {
	p      *Program
	node   *plannerNode
	exec   *est.Execution
	state  func() *est.State
	states []*est.State
	early  int
}

func casePlanners(c *Ctx) {
	g := newGen(c.Rand)
	escape := c.P(25)
	base := &Program{Fns: g.fns, Hosts: g.hosts}
	var log []string
	var templates []*plannedTemplate
	executions := 0
	desc := func() {
		var srcs []string
		for i, t := range templates {
			srcs = append(srcs, fmt.Sprintf("template %d of planner %d: %s", i, t.node.id, t.p.Src))
		}
		c.Desc("escape %v\n%s\nhistory: %s\n%s", escape, strings.Join(srcs, "\n"), strings.Join(log, "; "), describeHosts(g.hosts, strings.Join(srcs, "\n")))
	}
	root, err := base.planner(velty.EscapeHTML(escape), velty.CacheSize(c.R(0, 3)), velty.BufferSize(c.R(0, 64)))
	if err != nil {
		c.Violate("definition", "%v", err)
		return
	}
	nodes := []*plannerNode{{pl: root}}
	sharedTypes := map[reflect.Type]bool{}
	run := func(t *plannedTemplate, i int) bool {
		ref, refHosts, ok, failure := t.p.reference(escape)
		if !ok {
			c.Count("too long, skipped", 1)
			return true
		}
		var st *est.State
		if len(t.states) > 0 && c.P(60) {
			st = t.states[0]
			t.states = t.states[1:]
			if len(templates) > t.early {
				c.Count("state created before another template", 1)
			}
		} else {
			from := t
			if other := templates[c.N(len(templates))]; other.node == t.node && other != t { // any template of the planner gives states that fit
				from = other
				c.Count("state of another template", 1)
			}
			st = from.state()
		}
		log = append(log, fmt.Sprintf("execute %d", i))
		desc()
		hosts := copyHosts(t.p.Hosts)
		if err := fillState(st, hosts); err != nil {
			c.Violate("error in data", "%v", err)
			return false
		}
		err := t.exec.Exec(st)
		executions++
		if failure != "" {
			if err == nil {
				c.Violate("no error", "template %d should have failed: %s", i, failure)
			}
			return err != nil
		}
		if err != nil {
			c.Violate("error in execution", "template %d: %v", i, err)
			return false
		}
		if out, want := st.Buffer.String(), ref.out.String(); out != want {
			c.Violate("output", "template %d: %s\nwant %q\ngot  %q", i, firstDiff(want, out), clip(want, 1200), clip(out, 1200))
			return false
		}
		for n, v := range hosts {
			if !sameData(refHosts[n], v) {
				c.Violate("data", "template %d: %s should be %s but is %s", i, n, clip(renderValue(refHosts[n]), 800), clip(renderValue(v), 800))
				return false
			}
		}
		c.Count("execution", 1)
		return true
	}
	panicked, stack := guard(func() {
		for steps := c.R(4, 16); steps > 0; steps-- {
			node := nodes[c.N(len(nodes))]
			switch k := c.N(10); {
			case k < 2 && len(nodes) < 5:
				child := &plannerNode{pl: node.pl.New(), id: len(nodes), shared: node.shared}
				nodes = append(nodes, child)
				log = append(log, fmt.Sprintf("planner %d derived from %d", child.id, node.id))
				c.Count("derived planner", 1)
			case k < 3:
				src := brokenTemplates[c.N(len(brokenTemplates))]
				if strings.Contains(src, "Nope") && g.lookup("h") == nil || strings.Contains(src, "= $ints") || strings.Contains(src, "$ints =") || strings.Contains(src, "evaluate") || strings.Contains(src, "$q") {
					src = "text #if($nobodyKnows)x#end"
				}
				log = append(log, fmt.Sprintf("planner %d rejects %q", node.id, src))
				desc()
				if _, _, err := node.pl.Compile([]byte(src)); err == nil {
					c.Violate("accepted", "a template that can't be compiled was: %q", src)
					return
				}
				c.Count("template rejected", 1)
			case k < 6 && len(templates) < 9:
				t := &plannedTemplate{node: node, early: len(templates) + 1}
				sub := &Gen{Rand: c.Rand, hosts: copyHosts(g.hosts), fns: g.fns, noEval: true, blockSize: 3}
				for _, v := range g.vars {
					cp := *v
					sub.vars = append(sub.vars, &cp)
				}
				sub.pfx = fmt.Sprintf("P%dx%d", node.id, node.n)
				var body []Stmt
				if !node.shared && c.P(60) {
					node.shared = true
					ty := basic[c.N(len(basic))]
					sharedTypes[ty] = true
					if len(sharedTypes) > 1 {
						c.Count("same name, own type", 1)
					}
					sub.pfx = "Common"
					for i := 0; i < 3; i++ {
						name := fmt.Sprintf("Commonacc%d", i)
						e := sub.leafExpr(ty)
						sub.vars = append(sub.vars, &scopeVar{name: name, t: ty})
						body = append(body, &Set{Target: &Path{Root: name, T: ty}, E: e}, &Out{P: &Path{Root: name, T: ty}})
					}
				}
				body = append(body, sub.block(2)...)
				t.p = &Program{Fns: g.fns, Hosts: sub.hosts, Body: body, Src: source(c.Rand, body)}
				log = append(log, fmt.Sprintf("planner %d compiles %d: %s", node.id, len(templates), t.p.Src))
				desc()
				var err error
				if t.exec, t.state, err = node.pl.Compile([]byte(t.p.Src)); err != nil {
					c.Violate("error in compile", "%v", err)
					return
				}
				node.n++
				if node.n > 1 {
					c.Count("planner with several templates", 1)
				}
				for c.P(50) {
					t.states = append(t.states, t.state())
				}
				templates = append(templates, t)
				c.Count("template compiled", 1)
			case len(templates) > 0:
				i := c.N(len(templates))
				if !run(templates[i], i) {
					return
				}
			}
		}
		for i, t := range templates {
			if !run(t, i) {
				return
			}
		}
	})
	desc()
	if panicked != nil {
		c.Violate("panic", "%v at %s", panicked, stack)
		return
	}
	if executions > 0 {
		var srcs []string
		for _, t := range templates {
			srcs = append(srcs, t.p.Src)
		}
		c.Saw(strings.Join(log, ";") + strings.Join(srcs, ";"))
		c.Sample("%s", clip(strings.Join(log, "; "), 500))
	}
}

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C08: one Execution may be used by many goroutines at once, each with its own State
// C09: the same with #evaluate, whose compiled templates are shared through the cache

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "a case compiles one template and executes it from 2 to 8 goroutines at once, several times each, on states of their own (new or from a pool), with delays injected from functions the template calls; every output and the data afterwards has to be those of a sequential execution, the race detector watches every access; distinct by template and by the order in which the executions overlapped",
		Plans: []Plan{
			{Variant: "race", Quick: 1200, Thorough: 100000, Procs: 4},
			{Variant: "plain", Quick: 4000, Thorough: 400000, Procs: 4},
		},
		Case: func(c *Ctx) { caseConcurrent(c, false) },
		Min:  []string{"concurrent executions", "overlapping executions", "delays injected", "shared read only data"},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "as C08, with templates that evaluate other templates (nested and broken ones included) whose compiled form goes through a shared cache of random size, by one or two planners; distinct by template and by the order in which the executions overlapped",
		Plans: []Plan{
			{Variant: "race", Quick: 1200, Thorough: 100000, Procs: 4},
			{Variant: "plain", Quick: 4000, Thorough: 400000, Procs: 4},
		},
		Case: func(c *Ctx) { caseConcurrent(c, true) },
		Min:  []string{"concurrent executions", "overlapping executions", "delays injected", "evaluate", "broken template evaluated", "scopes sharing a cache"},
	})
}

type concScope struct {
	p     *Program
	exec  *est.Execution
	state func() *est.State
}

type concRun struct {
	scope int
	hosts map[string]reflect.Value
	want  string
	after map[string]reflect.Value
	fails bool
}

func caseConcurrent(c *Ctx, evaluates bool) {
	g := newGen(c.Rand)
	var paused int64
	g.fns["pause"] = &testFunc{name: "pause", records: false, fn: func(n int) string {
		atomic.AddInt64(&paused, 1)
		switch (n + rand.Int()) & 7 {
		case 0:
			time.Sleep(time.Duration(rand.Intn(60)) * time.Microsecond)
		default:
			runtime.Gosched()
		}
		return ""
	}, pure: func(n int) string { return "" }}
	pause := func() Stmt { return &Out{P: callPath("pause", tString, intLit(c.N(100)))} }
	g.fns["waits"] = &testFunc{name: "waits", fn: func(n int) int { runtime.Gosched(); return n }, pure: func(n int) int { return n }}

	gid := reflect.New(tInt).Elem()
	g.hosts["gid"] = gid
	tList := reflect.SliceOf(tString)
	dyn := map[string]*Block{}
	var srcs []string
	if evaluates {
		dyn, srcs, _ = evalPool(g, c.R(1, 4))
		src := "<$gid>#set($twice = $gid + $waits($gid))$pause(1)$twice"
		dyn[src] = &Block{Body: []Stmt{&Text{S: "<"}, &Out{P: intRef("gid")}, &Text{S: ">"}, &Set{Target: intRef("twice"), E: &Bin{Op: "+", X: intRef("gid"), Y: intRef("gid")}}, &Out{P: intRef("twice")}}}
		srcs = append(srcs, src, src)
		for i := c.N(6); i > 0; i-- { // many small ones, so that the cache is cleaned while others read it
			src := fmt.Sprintf("%d:$gid;", i)
			dyn[src] = &Block{Body: []Stmt{&Text{S: fmt.Sprint(i, ":")}, &Out{P: intRef("gid")}, &Text{S: ";"}}}
			srcs = append(srcs, src)
		}
	}
	shared := !evaluates && c.P(40) // the goroutines read the same data
	g.hosts["tps"] = reflect.Zero(tList)
	escape := c.P(20)
	base := velty.New(velty.CacheSize(c.R(0, 5)), velty.EscapeHTML(escape), velty.BufferSize(c.R(0, 64)))
	for _, n := range sortedKeys(g.fns) {
		if err := base.RegisterFunction(n, g.fns[n].fn); err != nil {
			c.Violate("function", "%v", err)
			return
		}
	}
	scopes := make([]*concScope, 1)
	if evaluates {
		scopes = make([]*concScope, c.R(1, 2))
	}
	var desc []string
	for i := range scopes {
		own := &Gen{Rand: c.Rand, hosts: g.hosts, fns: g.fns, noEval: true, blockSize: 4, pfx: "M", noSet: shared}
		for _, v := range g.vars {
			cp := *v
			own.vars = append(own.vars, &cp)
		}
		block := func(depth int) (out []Stmt) {
			for _, s := range own.block(depth) {
				if c.P(30) {
					out = append(out, pause())
				}
				if c.P(15) {
					out = append(out, &Out{P: intRef("gid"), Braces: true})
				}
				out = append(out, s)
			}
			return out
		}
		body := block(2)
		if evaluates {
			body = append(body, &Each{Item: "tp", List: &Path{Root: "tps", T: tList}, Body: []Stmt{pause(), &Text{S: "["}, &Eval{P: &Path{Root: "tp", T: tString}, Dyn: dyn}, &Text{S: "]"}, &Out{P: intRef("gid"), Braces: true}}})
		}
		body = append(body, block(1)...)
		body = append(body, &Text{S: "#"}, &Out{P: intRef("gid")}, pause())
		sc := &concScope{p: &Program{Fns: g.fns, Hosts: g.hosts, Body: body, Src: source(c.Rand, body)}}
		desc = append(desc, sc.p.Src)
		scopes[i] = sc
	}
	c.Desc("templates %s evaluated %q", strings.Join(desc, "\n---\n"), srcs)
	for _, sc := range scopes {
		pl := base
		if len(scopes) > 1 {
			pl = base.New()
		}
		var err error
		panicked, stack := guard(func() {
			for _, n := range sc.p.names() {
				if err = pl.DefineVariable(n, sc.p.Hosts[n].Type()); err != nil {
					return
				}
			}
			sc.exec, sc.state, err = pl.Compile([]byte(sc.p.Src))
		})
		if panicked != nil || err != nil {
			c.Violate("compile", "%v %v at %s", err, panicked, stack)
			return
		}
	}

	// what every execution has to give, decided before any of them starts
	workers, rounds := c.R(2, 8), c.R(1, 4)
	plans := make([][]*concRun, workers)
	id := 0
	for w := range plans {
		for r := 0; r < rounds; r++ {
			id++
			run := &concRun{scope: c.N(len(scopes))}
			sc := scopes[run.scope]
			p := &Program{Fns: g.fns, Body: sc.p.Body, Src: sc.p.Src}
			if shared {
				p.Hosts = map[string]reflect.Value{}
				for n, v := range g.hosts {
					p.Hosts[n] = v
				}
			} else {
				p.Hosts = copyHosts(g.hosts)
			}
			p.Hosts["gid"] = reflect.ValueOf(1000 + id)
			for _, n := range []string{"s", "t"} {
				if c.P(50) {
					p.Hosts[n] = reflect.ValueOf(c.word(8))
				}
			}
			var list []string
			for n := c.R(0, 6); n > 0 && evaluates; n-- {
				list = append(list, srcs[c.N(len(srcs))])
			}
			p.Hosts["tps"] = reflect.ValueOf(list)
			ref, after, ok, failure := p.reference(escape)
			if !ok {
				continue
			}
			run.want, run.after, run.fails, run.hosts = ref.out.String(), after, failure != "", p.Hosts
			c.Count("evaluate", ref.stats["evaluate"])
			c.Count("broken template evaluated", ref.stats["broken template evaluated"])
			plans[w] = append(plans[w], run)
		}
	}
	pool := velty.NewPool(c.R(0, 4), scopes[0].state)
	pooled := len(scopes) == 1 && c.P(40)
	var clock int64
	type event struct{ worker, start, end int64 }
	var mux sync.Mutex
	var events []event
	var failure [2]string
	fail := func(key, format string, args ...interface{}) {
		mux.Lock()
		defer mux.Unlock()
		if failure[0] == "" {
			failure = [2]string{key, fmt.Sprintf(format, args...)}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range plans {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for r, run := range plans[w] {
				sc := scopes[run.scope]
				began := atomic.AddInt64(&clock, 1)
				var out string
				var err error
				panicked, stack := guard(func() {
					var st *est.State
					if pooled {
						st = pool.State()
						defer pool.Put(st)
					} else {
						st = sc.state()
					}
					if err = fillState(st, run.hosts); err != nil {
						return
					}
					err = sc.exec.Exec(st)
					out = st.Buffer.String()
				})
				ended := atomic.AddInt64(&clock, 1)
				mux.Lock()
				events = append(events, event{int64(w), began, ended})
				mux.Unlock()
				switch {
				case panicked != nil:
					fail("panic", "goroutine %d run %d: %v at %s", w, r, panicked, stack)
				case run.fails:
					if err == nil {
						fail("no error", "goroutine %d run %d should have failed", w, r)
					}
				case err != nil:
					fail("error", "goroutine %d run %d: %v", w, r, err)
				case out != run.want:
					fail("output", "goroutine %d run %d: %s", w, r, firstDiff(run.want, out))
				default:
					if shared {
						continue
					}
					for n, v := range run.hosts {
						if !sameData(run.after[n], v) {
							fail("data", "goroutine %d run %d: %s should be %s but is %s", w, r, n, clip(renderValue(run.after[n]), 500), clip(renderValue(v), 500))
						}
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if failure[0] != "" {
		c.Violate(failure[0], "%s", failure[1])
		return
	}
	overlaps := 0
	order := ""
	for i, a := range events {
		order += fmt.Sprint(a.worker, ",")
		for _, b := range events[:i] {
			if a.worker != b.worker && a.start < b.end && b.start < a.end {
				overlaps++
			}
		}
	}
	c.Count("concurrent executions", len(events))
	c.Count("overlapping executions", overlaps)
	c.Count("delays injected", int(paused))
	if shared {
		c.Count("shared read only data", 1)
	}
	if len(scopes) > 1 {
		c.Count("scopes sharing a cache", 1)
	}
	if overlaps > 0 {
		c.Saw(order + desc[0])
	}
	c.Sample("%d goroutines × %d, %d overlaps, order %s: %s", workers, rounds, overlaps, clip(order, 100), clip(desc[0], 300))
}

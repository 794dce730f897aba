package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
)

// C25: goroutines that make, configure and use planners of their own don't notice each other

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "a case is 2 to 8 goroutines, each of which makes planners, registers functions, defines variables, compiles, derives and executes random templates (broken ones and #evaluate included) all at once, with names and evaluated sources in common that mean something else to each; every output and the data afterwards has to be those of the planner on its own, the race detector watches every access; distinct by templates and by the order in which the steps overlapped",
		Plans: []Plan{
			{Variant: "race", Quick: 700, Thorough: 60000, Procs: 4},
			{Variant: "plain", Quick: 2500, Thorough: 250000, Procs: 4},
		},
		Case: caseParallel,
		Min:  []string{"compiled", "overlapping steps", "delays injected", "derived planner", "evaluate", "rejected", "siblings", "failed", "same type", "json", "type parser"},
	})
}

type parallelJob struct {
	id      string
	p       *Program
	opts    []velty.Option
	escape  bool
	want    string
	after   map[string]reflect.Value
	fails   bool
	own     map[string]bool // what this planner registers
	broken  string
	parser  bool
	derives bool
	sibling bool
}

// parallelDoc has methods, and fields of types that every goroutine uses
type parallelDoc struct {
	ID   int `velty:"names=ID|Id"`
	Text string
	Next *parallelDoc
	List []parallelDoc
	By   map[string]int
}

func (d parallelDoc) Title(s string) string { return s + d.Text }

func (j *parallelJob) register(pl *velty.Planner) error {
	id := j.id
	regs := []struct {
		name string
		f    func() error
	}{
		{"who", func() error {
			return pl.RegisterFunction("who", func(n int) string { return fmt.Sprint("who", id, n) })
		}},
		{"whoKind", func() error {
			return pl.RegisterFunctionKind("whoKind", &kindFn{[]reflect.Kind{reflect.Int, reflect.String}, func(v interface{}) (string, error) { return fmt.Sprint("kind", id, v), nil }})
		}},
		{"whoType", func() error {
			return pl.RegisterTypeFunc(reflect.TypeOf(parallelDoc{}), &op.TypeFunc{Name: "whoType", Handler: func(d parallelDoc) (string, error) { return fmt.Sprint("type", id, d.ID), nil }, ResultType: tString})
		}},
		{"whoAlone", func() error {
			return pl.RegisterStandaloneFunction("whoAlone", &op.Function{Handler: func(n int) (string, error) { return fmt.Sprint("alone", id, n), nil }})
		}},
		{"whoNs", func() error { return pl.RegisterFuncNs("whoNs", dispNs2{"ns" + id}) }},
	}
	for _, r := range regs {
		if j.own[r.name] {
			if err := r.f(); err != nil {
				return err
			}
		}
	}
	return nil
}

// ownText is a template of the names all have in common, and what it renders here
func (j *parallelJob) ownText(r *Rand, c *Ctx) (src, want string) {
	parts := []struct{ name, src, have, not string }{
		{"who", "$who(3)|", "who" + j.id + "3|", "$who(3)|"},
		{"whoKind", "${gid.whoKind()}|", "kind" + j.id + j.id + "|", "-"},
		{"whoType", "${pdoc.whoType()}|", "type" + j.id + j.id + "|", "-"},
		{"whoAlone", "$whoAlone(4)|", "alone" + j.id + "4|", "$whoAlone(4)|"},
		{"whoNs", `${whoNs.Do("x")}|`, "ns" + j.id + "!Do(x)|", "-"},
		{"", `${pdoc.Title("t-")}|`, "t-text" + j.id + "|", ""},
		{"", "${pdoc.Next.Id}|${pdoc.ID}|", "7|" + j.id + "|", ""},
		{"", `${pdoc.List[0].By["k"]}|`, j.id + "|", ""},
		{"", "#set($own = $gid + 1)$own|", fmt.Sprint(atoi(j.id)+1) + "|", ""},
		{"", `${json.Marshal($pdoc.By)}|`, `{"k":` + j.id + `}|`, ""},
		{"", `#foreach($d in $pdoc.List)$d.Id,#end|`, j.id + ",|", ""},
		{"parser", `${json.UnmarshalInto($raw, "Own").N}|`, j.id + "|", "-"},
		{"", `${pdoc.By.HasKey("k")}${pdoc.List.IndexBy("Text")[""].Id}${pdoc.List.IndexBy("Id").HasKey($gid)}|`, "true" + j.id + "true|", ""},
		{"", `#evaluate($whoSrc)|`, "<" + j.id + ">" + fmt.Sprint(atoi(j.id)*2) + "|", ""},
		{"", `${strings.ToUpper("q")}${strings.ToLower("AB")}|`, "Qab|", ""},
	}
	for n := r.R(3, 10); n > 0; n-- {
		p := parts[r.N(len(parts))]
		text := p.have
		if p.name == "parser" && j.parser {
			c.Count("type parser", 1)
		} else if p.name != "" && !j.own[p.name] {
			if text = p.not; text == "-" {
				continue
			}
		}
		if strings.Contains(p.src, "json") {
			c.Count("json", 1)
			if j.escape {
				continue
			}
		}
		src, want = src+p.src, want+text
	}
	return src, want
}

// ownTypes are what a type's name means to one planner or another
var ownTypes = []reflect.Type{reflect.TypeOf(struct{ N int }{}), reflect.TypeOf(struct {
	Pad string
	N   string
}{}), reflect.TypeOf(struct {
	Pad [3]int
	N   float64
}{}), reflect.TypeOf(&struct{ X, N int64 }{})}

func atoi(s string) (n int) {
	fmt.Sscan(s, &n)
	return n
}

func caseParallel(c *Ctx) {
	var paused int64
	pause := func(n int) string {
		atomic.AddInt64(&paused, 1)
		switch (n + rand.Int()) & 7 {
		case 0:
			time.Sleep(time.Duration(rand.Intn(40)) * time.Microsecond)
		default:
			runtime.Gosched()
		}
		return ""
	}
	workers := c.R(2, 8)
	jobs := make([][]*parallelJob, workers)
	var desc []string
	next := 100
	siblings := c.P(30)
	base := velty.New(velty.CacheSize(c.R(0, 3)))
	var baseGen *Gen
	if siblings {
		c.Count("siblings", 1)
	}
	for w := range jobs {
		for n := c.R(1, 3); n > 0; n-- {
			next++
			g := newGen(c.Rand)
			g.blockSize = 3
			j := &parallelJob{id: fmt.Sprint(next), own: map[string]bool{}}
			if siblings { // derived from one planner, with its functions
				if baseGen == nil {
					baseGen = g
				}
				g.fns = baseGen.fns
				j.sibling = true
			} else {
				j.escape = c.P(25)
				j.opts = []velty.Option{velty.EscapeHTML(j.escape), velty.CacheSize(c.R(0, 3)), velty.BufferSize(c.R(0, 64))}
				if j.parser = c.P(60); j.parser {
					id, t := j.id, ownTypes[c.N(len(ownTypes))]
					j.opts = append(j.opts, velty.TypeParser(func(name string) (reflect.Type, error) {
						if name == "Own" {
							return t, nil
						}
						return nil, fmt.Errorf("%s has no type %s", id, name)
					}))
					n, _ := json.Marshal(next)
					if t.Kind() == reflect.Struct && t.NumField() > 1 && t.Field(1).Type == tString {
						n, _ = json.Marshal(j.id)
					}
					g.hosts["raw"] = reflect.ValueOf(`{"N":` + string(n) + `}`)
				}
				for _, name := range []string{"who", "whoKind", "whoType", "whoAlone", "whoNs"} {
					j.own[name] = c.P(60)
				}
				j.derives = c.P(30)
			}
			if g.fns["pause"] == nil {
				g.fns["pause"] = &testFunc{name: "pause", fn: pause, pure: func(n int) string { return "" }}
			}
			dyn, srcs, _ := evalPool(g, c.R(1, 2))
			g.hosts["gid"] = reflect.ValueOf(next)
			g.hosts["pdoc"] = reflect.ValueOf(parallelDoc{ID: next, Text: "text" + j.id, Next: &parallelDoc{ID: 7}, By: map[string]int{"k": next}, List: []parallelDoc{{ID: next, By: map[string]int{"k": next}}}})
			g.hosts["whoSrc"] = reflect.ValueOf("<$gid>#set($twice = $gid * 2)$twice")
			g.hosts["tps"] = reflect.ValueOf([]string{srcs[c.N(len(srcs))], srcs[c.N(len(srcs))]})
			var body []Stmt
			for _, s := range g.block(2) {
				if c.P(25) {
					body = append(body, &Out{P: callPath("pause", tString, intLit(c.N(100)))})
				}
				body = append(body, s)
			}
			if c.P(60) {
				body = append(body, &Each{Item: "tp", List: &Path{Root: "tps", T: reflect.SliceOf(tString)}, Body: []Stmt{&Text{S: "["}, &Eval{P: &Path{Root: "tp", T: tString}, Dyn: dyn}, &Text{S: "]"}}})
			}
			if c.P(15) {
				body = append(body, &Out{P: callPath("orFail", tInt, intLit(pick(c.Rand, 3, -1000001)))}, &Text{S: "after"})
			}
			j.p = &Program{Fns: g.fns, Hosts: g.hosts, Body: body, Src: source(c.Rand, body)}
			ref, after, ok, failure := j.p.reference(j.escape)
			if !ok {
				continue
			}
			c.Count("evaluate", ref.stats["evaluate"])
			own, text := j.ownText(c.Rand, c)
			j.p.Src = own + j.p.Src
			j.want, j.after, j.fails = text+ref.out.String(), after, failure != ""
			if c.P(40) {
				j.broken = pick(c.Rand, "text #if($nobodyKnows)x#end", "#foreach($q in $gid)x#end", "$pdoc.Nope x", "#if(true)x", "$gid.nobodys()")
			}
			desc = append(desc, fmt.Sprintf("goroutine %d planner %s %v: %s", w, j.id, sortedKeys(j.own), j.p.Src))
			jobs[w] = append(jobs[w], j)
		}
	}
	if siblings {
		for _, n := range sortedKeys(baseGen.fns) {
			if err := base.RegisterFunction(n, baseGen.fns[n].fn); err != nil {
				c.Violate("function", "%v", err)
				return
			}
		}
	}
	c.Desc("%s", strings.Join(desc, "\n---\n"))
	var clock int64
	type event struct {
		worker, start, end int64
		step               string
	}
	var mux sync.Mutex
	var events []event
	var failure [2]string
	fail := func(key, format string, args ...interface{}) {
		mux.Lock()
		defer mux.Unlock()
		if failure[0] == "" {
			failure = [2]string{key, fmt.Sprintf(format, args...)}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var compiles, rejected, derived, failed int64
	for w := range jobs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			step := func(j *parallelJob, name string, f func() error) bool {
				began := atomic.AddInt64(&clock, 1)
				var err error
				panicked, stack := guard(func() { err = f() })
				ended := atomic.AddInt64(&clock, 1)
				mux.Lock()
				events = append(events, event{int64(w), began, ended, name})
				mux.Unlock()
				if panicked != nil {
					fail("panic in "+name, "goroutine %d planner %s: %v at %s", w, j.id, panicked, stack)
					return false
				}
				if err != nil {
					fail("error in "+name, "goroutine %d planner %s: %v", w, j.id, err)
				}
				return err == nil
			}
			for _, j := range jobs[w] {
				j := j
				var pl *velty.Planner
				var exec *est.Execution
				var state func() *est.State
				if !step(j, "setup", func() (err error) {
					if j.sibling {
						pl = base.New()
					} else {
						pl = velty.New(j.opts...)
						if err = j.register(pl); err != nil {
							return err
						}
						for _, n := range sortedKeys(j.p.Fns) {
							if err = pl.RegisterFunction(n, j.p.Fns[n].fn); err != nil {
								return err
							}
						}
						if j.derives {
							pl = pl.New()
							atomic.AddInt64(&derived, 1)
						}
					}
					for _, n := range j.p.names() {
						if err = pl.DefineVariable(n, j.p.Hosts[n].Type()); err != nil {
							return err
						}
					}
					return nil
				}) {
					return
				}
				if j.broken != "" && !step(j, "rejection", func() error {
					atomic.AddInt64(&rejected, 1)
					if _, _, err := pl.Compile([]byte(j.broken)); err == nil {
						return fmt.Errorf("%q compiled", j.broken)
					}
					return nil
				}) {
					return
				}
				if !step(j, "compile", func() (err error) {
					exec, state, err = pl.Compile([]byte(j.p.Src))
					atomic.AddInt64(&compiles, 1)
					return err
				}) {
					return
				}
				for round := 0; round < 2; round++ {
					hosts := copyHosts(j.p.Hosts)
					if !step(j, "execution", func() error {
						st := state()
						if err := fillState(st, hosts); err != nil {
							return err
						}
						err := exec.Exec(st)
						if j.fails {
							atomic.AddInt64(&failed, 1)
							if err == nil {
								return fmt.Errorf("it should have failed")
							}
							return nil
						}
						if err != nil {
							return err
						}
						if out := st.Buffer.String(); out != j.want {
							fail("output", "goroutine %d planner %s: %s\nwant %q\ngot  %q", w, j.id, firstDiff(j.want, out), clip(j.want, 1500), clip(out, 1500))
							return nil
						}
						for n, v := range hosts {
							if !sameData(j.after[n], v) {
								fail("data", "goroutine %d planner %s: %s should be %s but is %s", w, j.id, n, clip(renderValue(j.after[n]), 500), clip(renderValue(v), 500))
							}
						}
						return nil
					}) {
						return
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if failure[0] != "" {
		c.Violate(failure[0], "%s", failure[1])
		return
	}
	overlaps := 0
	order := ""
	for i, a := range events {
		order += fmt.Sprint(a.worker, a.step[:1], ",")
		for _, b := range events[:i] {
			if a.worker != b.worker && a.start < b.end && b.start < a.end {
				overlaps++
				c.Count(a.step+" during another's", 1)
			}
		}
	}
	c.Count("compiled", int(compiles))
	c.Count("rejected", int(rejected))
	c.Count("derived planner", int(derived))
	c.Count("failed", int(failed))
	c.Count("overlapping steps", overlaps)
	c.Count("delays injected", int(paused))
	c.Count("same type", workers)
	if overlaps > 0 {
		c.Saw(order + desc[0])
	}
	c.Sample("%d goroutines, %d overlaps, order %s: %s", workers, overlaps, clip(order, 100), clip(desc[0], 300))
}

package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C15: a function that fails makes Exec return that error; with PanicOnError nothing happens after it; panics of functions reach the caller

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "a case is a random nest of conditionals, loops and evaluated templates whose conditions, lists, bounds, bodies and arguments call recording functions, some calls of which return an error or panic; the trace, the output, the error of Exec and the panic are compared with those of a reference, with and without PanicOnError; distinct by the recorded trace and mode",
		Plans: []Plan{
			{Variant: "plain", Quick: 24000, Thorough: 1500000},
			{Variant: "checkptr", Quick: 2400, Thorough: 100000},
		},
		Case: caseErrors,
		Min:  []string{"first error returned", "stopped at the first error", "error in an evaluated template", "panic reached the caller", "went on after an error", "no error"},
	})
}

type failureOf struct{ call string }

func (f *failureOf) Error() string { return "failure of " + f.call }

type errHost struct {
	h     *traceHost
	ref   *Interp
	fails func(call string) int // 0 returns, 1 fails, 2 panics
	errs  map[string]*failureOf
}

func (h *errHost) call(name string, args ...interface{}) error {
	call := fmt.Sprintf("%s%v", name, args)
	if h.ref != nil {
		h.ref.log = append(h.ref.log, call)
	} else {
		h.h.log = append(h.h.log, call)
	}
	switch h.fails(call) {
	case 1:
		if h.errs[call] == nil {
			h.errs[call] = &failureOf{call}
		}
		return h.errs[call]
	case 2:
		if h.ref != nil {
			panic(templateFailure{"panic of " + call})
		}
		panic(panicValue(call))
	}
	return nil
}

// panicOf is an error a function panics with, it isn't one of the template
type panicOf struct{ call string }

func (p *panicOf) Error() string { return "panic of " + p.call }

// panicValue returns what the call panics with: a text, an error or any other value
func panicValue(call string) interface{} {
	switch hash64(call) % 4 {
	case 0:
		return &panicOf{call}
	case 1:
		return est.TemplateError(&panicOf{call})
	case 2:
		return struct{ text string }{"panic of " + call}
	}
	return "panic of " + call
}

func answer[T any](err error, v T) (T, error) {
	if err != nil {
		var zero T
		return zero, err
	}
	return v, nil
}

// ErrHost has a method that may fail
type ErrHost struct {
	N     int
	Leafs []Leaf
	eh    *errHost
}

func (h ErrHost) Check(id, k int) (string, error) {
	return answer(h.eh.call("Check", id, k), fmt.Sprint("c", h.N))
}

func caseErrors(c *Ctx) {
	seed, rate, panics := c.U64(), pick(c.Rand, 0, 5, 15, 40), c.P(25)
	eh := &errHost{h: &traceHost{}, errs: map[string]*failureOf{}}
	eh.fails = func(call string) int {
		x := mix(seed ^ hash64(call))
		if int(x%100) >= rate {
			return 0
		}
		if panics && x>>32%3 == 0 {
			return 2
		}
		return 1
	}
	verdicts := make([]bool, c.R(3, 11))
	for i := range verdicts {
		verdicts[i] = c.P(55)
	}
	fns := map[string]*testFunc{}
	add := func(name string, fn interface{}) { fns[name] = &testFunc{name: name, fn: fn} }
	add("recI", func(id, v int) (string, error) {
		return answer(eh.call("recI", id, v), fmt.Sprint("<", v, ">"))
	})
	add("recS", func(id int, v string) (string, error) { return answer(eh.call("recS", id, v), v) })
	add("recF", func(id int, v float64) (string, error) { return answer(eh.call("recF", id, v), "f") })
	add("recB", func(id int, v bool) (string, error) { return answer(eh.call("recB", id, v), "b") })
	add("recL", func(id int, v Leaf) (string, error) { return answer(eh.call("recL", id, v), v.T) })
	add("test", func(id, k int) (bool, error) { return answer(eh.call("test", id, k), verdict(verdicts, id, k)) })
	add("list", func(id, n int) ([]int, error) { return answer(eh.call("list", id, n), upTo(id, n)) })
	add("words", func(id, n int) ([]string, error) { return answer(eh.call("words", id, n), wordsTo(id, n)) })
	add("numF", func(id, n int) (float64, error) { return answer(eh.call("numF", id, n), float64(n)/4) })
	add("numS", func(id, n int) (string, error) { return answer(eh.call("numS", id, n), strconv.Itoa(n)) })
	add("num8", func(id, n int) (int8, error) { return answer(eh.call("num8", id, n), int8(n)) })
	add("num", func(id, n int) (int, error) { return answer(eh.call("num", id, n), n) })

	g := &loopGen{Rand: c.Rand, hosts: map[string]reflect.Value{}, stats: map[string]int{}, budget: 40, failing: true, evalSrcs: map[string]string{}}
	for _, name := range sortedKeys(loopLists) {
		v := reflect.New(loopLists[name]).Elem()
		if n := c.R(-1, 4); n >= 0 {
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				c.fill(v.Index(i), 2)
			}
		}
		g.hosts[name] = v
	}
	leafs := []Leaf{}
	for n := c.N(4); n > 0; n-- {
		leafs = append(leafs, Leaf{N: n, T: "leaf"})
	}
	g.hosts["hs"] = reflect.ValueOf(ErrHost{N: c.N(9), Leafs: leafs, eh: eh})
	for _, n := range []string{"a", "b"} {
		g.hosts[n] = reflect.ValueOf(c.R(-2, 5))
		g.ints = append(g.ints, n)
	}
	p := &Program{Fns: fns, Hosts: g.hosts}
	p.Body = g.block(3)
	for c.P(60) && g.budget > 0 {
		p.Body = append(p.Body, g.block(3)...)
	}
	p.Src = source(c.Rand, p.Body)
	for name, src := range g.evalSrcs {
		p.Hosts[name] = reflect.ValueOf(src)
	}
	stops := c.P(50)
	c.Desc("template: %s\n%sPanicOnError: %v", p.Src, describeHosts(p.Hosts, p.Src), stops)

	ref := NewInterp(false, fns)
	for _, n := range p.names() {
		ref.define(n, p.Hosts[n].Type())
		ref.vars[n].Set(p.Hosts[n])
	}
	eh.ref = ref
	var first error
	failures, inEval := 0, 0
	ref.failed = func(err error) {
		failures++
		if first == nil {
			first = err
		}
		if stops {
			panic(templateFailure{"stopped"})
		}
	}
	ok, failure := ref.Run(p.Body)
	eh.ref = nil
	if !ok {
		c.Count("too long, skipped", 1)
		return
	}
	wantPanic := ""
	if strings.HasPrefix(failure, "panic of ") {
		wantPanic = failure
	} else if failure != "" && failure != "stopped" {
		c.Count("other failure, skipped", 1)
		return
	}
	inEval = ref.stats["evaluate"]

	var out string
	var err error
	panicked, stack := guard(func() {
		pl, perr := p.planner(velty.PanicOnError(stops), velty.BufferSize(c.R(0, 64)), velty.CacheSize(c.N(3)))
		if err = perr; err != nil {
			return
		}
		exec, newState, cerr := pl.Compile([]byte(p.Src))
		if err = cerr; err != nil {
			return
		}
		st := newState()
		if err = fillState(st, p.Hosts); err != nil {
			return
		}
		defer func() { out = st.Buffer.String() }()
		if err = exec.Exec(st); err == nil && !st.IsValid() {
			c.Violate("state", "Exec returned no error, the state holds %v", st.Errors)
		}
	})
	want, got := strings.Join(ref.log, "\n"), strings.Join(eh.h.log, "\n")
	switch {
	case panicked != nil && (wantPanic == "" || !reflect.DeepEqual(panicked, panicValue(strings.TrimPrefix(wantPanic, "panic of ")))):
		c.Violate("panic", "expected %q: %v at %s", wantPanic, panicked, stack)
		return
	case panicked == nil && wantPanic != "":
		c.Violate("panic swallowed", "%q did not reach the caller of Exec, which returned %v", wantPanic, err)
		return
	case wantPanic == "" && first == nil && err != nil:
		c.Violate("error", "no call failed: %v", err)
		return
	case wantPanic == "" && first != nil && err == nil:
		c.Violate("no error", "%v was lost", first)
		return
	case wantPanic == "" && first != nil && !errors.Is(err, first):
		c.Violate("other error", "expected %v: %v", first, err)
		return
	case want != got:
		c.Violate("trace", "%s", firstDiff(want, got))
		return
	case ref.out.String() != out:
		c.Violate("output", "%s", firstDiff(ref.out.String(), out))
		return
	}
	switch {
	case wantPanic != "":
		c.Count("panic reached the caller", 1)
	case first == nil:
		c.Count("no error", 1)
	case stops:
		c.Count("stopped at the first error", 1)
	default:
		c.Count("first error returned", 1)
		if failures > 1 {
			c.Count("went on after an error", 1)
		}
	}
	if first != nil && inEval > 0 {
		c.Count("error in an evaluated template", 1)
	}
	c.Count("recorded call", len(ref.log))
	if len(ref.log) > 0 {
		c.Saw(fmt.Sprint(stops, want, err))
	}
	c.Sample("%s => %v, %s", p.Src, err, clip(strings.ReplaceAll(want, "\n", " "), 300))
}

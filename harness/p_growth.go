package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C24: executing, evaluating and compiling again and again takes no more memory than doing it a few times

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "a case repeats one kind of use hundreds of times (executions on one state, on new ones, on those of a pool, evaluations of ever other templates through caches of random size, planners made, derived and dropped; failing and panicking ones included) with a random template and watches the heap and the goroutines between four garbage collected checkpoints; a case fails when the heap grew with the number of repetitions; distinct by template and kind of use",
		Plans: []Plan{
			{Variant: "plain", Quick: 640, Thorough: 40000, Env: "GOMAXPROCS=2"},
		},
		Case: caseGrowth,
		Min:  []string{"same state", "new states", "pool", "evaluate others", "evaluate again", "planners", "derived planners", "failed", "panicked", "broken template evaluated", "checkpoints"},
	})
}

func heapNow() (bytes, objects int64) {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), int64(ms.HeapObjects)
}

func caseGrowth(c *Ctx) {
	if len(c.w.viols) > 3 { // each of them takes seconds
		return
	}
	g := newGen(c.Rand)
	g.noEval = true
	p := &Program{Fns: g.fns, Hosts: g.hosts}
	boom := errors.New("boom")
	counter := reflect.New(tInt).Elem()
	g.hosts["seq"] = counter
	fails, panics := c.P(25), c.P(10)
	kind := c.N(7)
	if g.noSet = c.P(80); g.noSet { // nothing changes the data, so it needs no copies
		p.Body = g.block(2)
	} else {
		p.Body = g.block(1)
	}
	names := []string{"same state", "new states", "pool", "evaluate others", "evaluate again", "planners", "derived planners"}
	evaluates := kind == 3 || kind == 4 || c.P(20)
	var dynSrc []string
	p.Src = source(c.Rand, p.Body)
	if fails {
		p.Src += "$mayFail($seq)"
	}
	if panics {
		p.Src += "$mayPanic($seq)"
	}
	if evaluates {
		for n := c.R(1, 4); n > 0; n-- {
			if c.P(20) {
				dynSrc = append(dynSrc, brokenTemplates[c.N(len(brokenTemplates))])
				c.Count("broken template evaluated", 1)
				continue
			}
			sub := &Gen{Rand: c.Rand, hosts: g.hosts, fns: g.fns, noEval: true, noSet: g.noSet, blockSize: 3, pfx: "A"}
			for _, v := range g.vars {
				cp := *v
				sub.vars = append(sub.vars, &cp)
			}
			dynSrc = append(dynSrc, source(c.Rand, sub.block(1)))
		}
		tp := reflect.New(tString).Elem()
		g.hosts["tp"] = tp
		p.Src += "#evaluate($tp)"
	}
	if _, _, ok, _ := p.reference(false); !ok {
		c.Count("too long, skipped", 1)
		return
	}
	opts := []velty.Option{velty.CacheSize(pick(c.Rand, 0, 0, 1, 3, 20)), velty.BufferSize(c.R(0, 64)), velty.PanicOnError(c.P(15))}
	planner := func() (*velty.Planner, error) {
		pl, err := p.planner(opts...)
		if err == nil {
			err = pl.RegisterFunction("mayFail", func(n int) (string, error) {
				if n%2 == 0 {
					return "", boom
				}
				return "x", nil
			})
		}
		if err == nil {
			err = pl.RegisterFunction("mayPanic", func(n int) string {
				if n%3 == 0 {
					panic("host function panics")
				}
				return "x"
			})
		}
		return pl, err
	}
	c.Desc("%s: %s\nevaluating %q", names[kind], p.Src, dynSrc)
	pl, err := planner()
	var exec *est.Execution
	var newState func() *est.State
	if err == nil {
		exec, newState, err = pl.Compile([]byte(p.Src))
	}
	if err != nil {
		c.Violate("error in compile", "%v", err)
		return
	}
	seq := 0
	once := func(exec *est.Execution, st *est.State) error {
		seq++
		hosts := p.Hosts
		if !g.noSet {
			hosts = copyHosts(hosts)
		}
		if err := fillState(st, hosts); err != nil {
			return err
		}
		if err := st.SetValue("seq", seq); err != nil {
			return err
		}
		if evaluates {
			src := dynSrc[seq%len(dynSrc)]
			if kind == 3 {
				src += fmt.Sprintf(" %d", seq)
			}
			if err := st.SetValue("tp", src); err != nil {
				return err
			}
		}
		panicked, _ := guard(func() {
			if exec.Exec(st) != nil {
				c.Count("failed", 1)
			}
		})
		if panicked != nil {
			c.Count("panicked", 1)
		}
		return nil
	}
	var iterate func() error
	rounds := 500
	switch kind {
	case 1:
		iterate = func() error { return once(exec, newState()) }
	case 2:
		pool := velty.NewPool(c.R(0, 3), newState)
		iterate = func() error {
			st, other := pool.State(), pool.State()
			err := once(exec, st)
			pool.Put(other)
			pool.Put(st)
			return err
		}
	case 5:
		rounds = 60
		iterate = func() error {
			pl, err := planner()
			if err != nil {
				return err
			}
			exec, newState, err := pl.Compile([]byte(p.Src))
			if err != nil {
				return err
			}
			return once(exec, newState())
		}
	case 6:
		rounds = 60
		iterate = func() error {
			child := pl.New()
			if err := child.DefineVariable("own", seq); err != nil {
				return err
			}
			exec, newState, err := child.Compile([]byte(p.Src + "$own"))
			if err != nil {
				return err
			}
			return once(exec, newState())
		}
	default:
		st := newState()
		iterate = func() error { st.Reset(); return once(exec, st) }
	}
	goroutines := runtime.NumGoroutine()
	var bytes, objects, done [5]int64
	start, last := cpuNanos(), 4
	for w := 0; w < len(bytes); w++ {
		n := rounds
		if w == 0 {
			n = rounds / 2 // everything that is remembered once
		}
		began := cpuNanos()
		for i := 0; i < n && (i < 20 || cpuNanos()-began < 500e6); i++ {
			done[w]++
			if err := iterate(); err != nil {
				c.Violate("error", "%s, repetition %d: %v", names[kind], seq, err)
				return
			}
		}
		bytes[w], objects[w] = heapNow()
		c.Count("checkpoints", 1)
		if w >= 3 && cpuNanos()-start > 4e9 { // slow because of what it piles up, or slow anyway
			last = w
			break
		}
		if w == 2 && bytes[2]-bytes[0] < done[1]+done[2] { // nothing grows
			break
		}
	}
	runtime.KeepAlive(pl)
	runtime.KeepAlive(iterate)
	if bytes[last] != 0 {
		grew, grewObjects := 0, 0
		for w := 1; w <= last; w++ {
			limit, limitObjects := 4096+done[w]*12, 64+done[w]/4 // the runtime itself keeps up to some 20 objects more
			if bytes[w]-bytes[w-1] > limit {
				grew++
			}
			if objects[w]-objects[w-1] > limitObjects {
				grewObjects++
			}
		}
		if grew >= 3 || grewObjects >= 3 {
			c.Violate("memory grows: "+names[kind], "%s: after %d repetitions the heap holds %d bytes in %d objects, after %d ones %d bytes in %d objects (checkpoints %v bytes, %v objects)", names[kind], done[0], bytes[0], objects[0], seq, bytes[last], objects[last], bytes, objects)
			return
		}
	}
	for i := 0; runtime.NumGoroutine() > goroutines; i++ {
		if i > 2000 {
			c.Violate("goroutines", "%s: %d goroutines before, %d after", names[kind], goroutines, runtime.NumGoroutine())
			return
		}
		runtime.Gosched()
	}
	c.Count(names[kind], 1)
	c.Count("repetitions", seq)
	c.Saw(names[kind] + p.Src)
	c.Sample("%s × %d: %v bytes, template %s", names[kind], seq, bytes, clip(p.Src, 200))
}

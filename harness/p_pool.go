package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C10: the life of a State: a pool hands a clean one to one holder at a time; after Reset it renders as a new one that has the same variables

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "a case is a history: either goroutines taking states from a pool of random size, rendering (failing and panicking templates included) and putting them back, recorded with who holds what; or one state executed, reset and changed (its variables and the data of the caller they lead to) several times, compared with a reference that keeps its variables; distinct by the order of takes and puts or by template and history",
		Plans: []Plan{
			{Variant: "plain", Quick: 12000, Thorough: 800000},
			{Variant: "race", Quick: 1000, Thorough: 60000},
		},
		Case: func(c *Ctx) {
			if c.P(40) {
				casePool(c)
			} else {
				caseReset(c)
			}
		},
		Min: []string{"states taken", "states held at once", "execution on a reset state", "reset after a failure", "reset after many failures", "pool of size 0", "caller's data changed"},
	})
}

func casePool(c *Ctx) {
	size, workers, rounds := c.R(0, 4), c.R(2, 8), c.R(2, 12)
	bufSize := c.R(0, 32)
	pl := velty.New(velty.BufferSize(bufSize), velty.PanicOnError(c.P(30)))
	boom := fmt.Errorf("boom")
	err := pl.RegisterFunction("mayFail", func(n int) (string, error) {
		runtime.Gosched()
		if n%3 == 1 {
			return "", boom
		}
		if n%7 == 2 {
			panic("host function panics")
		}
		return "ok", nil
	})
	if err == nil {
		err = pl.DefineVariable("id", 0)
	}
	if err == nil {
		err = pl.DefineVariable("text", "")
	}
	var exec *est.Execution
	var newState func() *est.State
	again := ""
	for n := c.R(0, 3); n > 0; n-- {
		again += "#if($id >= 0 && $mayFail($id) == \"no\")never#end"
	}
	if err == nil {
		exec, newState, err = pl.Compile([]byte("a$id|$text|$mayFail($id)|" + again + "#foreach($i in [1...4])$id,#end$text"))
	}
	if err != nil {
		c.Violate("compile", "%v", err)
		return
	}
	c.Desc("pool of %d, %d goroutines × %d, buffer %d", size, workers, rounds, bufSize)
	pool := velty.NewPool(size, newState)
	holders := sync.Map{}
	var held, maxHeld, taken int64
	var mux sync.Mutex
	order := ""
	bad := [2]string{}
	fail := func(key, format string, args ...interface{}) {
		mux.Lock()
		defer mux.Unlock()
		if bad[0] == "" {
			bad = [2]string{key, fmt.Sprintf(format, args...)}
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		words := make([]string, rounds)
		for i := range words {
			words[i] = c.word(20)
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for i := 0; i < rounds; i++ {
				st := pool.State()
				if st == nil {
					fail("nil", "the pool handed out nil")
					return
				}
				if other, loaded := holders.LoadOrStore(st, w); loaded {
					fail("shared", "goroutine %d was handed the state goroutine %v holds", w, other)
					return
				}
				if n := atomic.AddInt64(&held, 1); n > atomic.LoadInt64(&maxHeld) {
					atomic.StoreInt64(&maxHeld, n)
				}
				atomic.AddInt64(&taken, 1)
				if s := st.Buffer.String(); s != "" || len(st.Errors) != 0 || !st.IsValid() {
					fail("dirty", "goroutine %d was handed a state with the output %q and the errors %v", w, s, st.Errors)
				}
				id := w*1000 + i
				_ = st.SetValue("id", id)
				_ = st.SetValue("text", words[i])
				var err error
				panicked, stack := guard(func() { err = exec.Exec(st) })
				switch {
				case id%3 == 1:
					if err == nil || panicked != nil {
						fail("no error", "id %d: should have failed: %v at %s", id, panicked, stack)
					}
				case id%7 == 2:
					if panicked == nil {
						fail("no panic", "id %d: the panic of the host function is lost", id)
					}
				default:
					want := fmt.Sprintf("a%d|%s|ok|%d,%d,%d,%s", id, words[i], id, id, id, words[i])
					if got := st.Buffer.String(); err != nil || panicked != nil || got != want {
						fail("output", "id %d: %v %v want %q got %q at %s", id, err, panicked, want, got, stack)
					}
				}
				mux.Lock()
				order += fmt.Sprint(w)
				mux.Unlock()
				atomic.AddInt64(&held, -1)
				holders.Delete(st)
				pool.Put(st)
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if bad[0] != "" {
		c.Violate(bad[0], "%s", bad[1])
		return
	}
	c.Count("states taken", int(taken))
	if maxHeld > 1 {
		c.Count("states held at once", int(maxHeld))
	}
	if size == 0 {
		c.Count("pool of size 0", 1)
	}
	c.Saw(fmt.Sprint(size, ":", order))
	c.Sample("pool of %d, puts in order %s", size, clip(order, 200))
}

func caseReset(c *Ctx) {
	g := newGen(c.Rand)
	if c.P(30) {
		g.addTemplates(1)
	}
	g.fns["failing"] = &testFunc{name: "failing", fn: func(n int) (string, error) {
		if n > 0 {
			return "", fmt.Errorf("failing %d", n)
		}
		return "fine", nil
	}, pure: func(n int) string {
		if n > 0 {
			panic(templateFailure{fmt.Sprint("failing ", n)})
		}
		return "fine"
	}}
	fl := reflect.New(tInt).Elem()
	g.hosts["fl"] = fl
	p := &Program{Fns: g.fns, Hosts: g.hosts}
	p.Body = g.block(2)
	p.Body = append(p.Body, g.block(2)...)
	for n := c.N(4); n > 0; n-- { // whole variables, what they lead to changes between the executions
		name := pick(c.Rand, "hp", "mp", "lp", "pn", "ps", "mm", "h", "mid", "any", "ptrs", "leafs")
		if v, ok := g.hosts[name]; ok {
			p.Body = append(p.Body, &Out{P: &Path{Root: name, T: v.Type()}})
		}
	}
	for n := c.R(1, 4); n > 0; n-- { // an execution goes on after a failure and may fail again
		p.Body = append(p.Body, &Out{P: callPath("failing", tString, intRef("fl"))})
	}
	p.Src = source(c.Rand, p.Body)
	escape := c.P(20)
	data, refData := copyHosts(p.Hosts), copyHosts(p.Hosts)
	c.Desc("template: %s\n%s", p.Src, describeHosts(p.Hosts, p.Src))
	in := NewInterp(escape, p.Fns)
	for n, v := range refData {
		in.define(n, v.Type())
		in.vars[n].Set(v)
	}
	var st *est.State
	var exec *est.Execution
	var err error
	panicked, stack := guard(func() {
		var cp *compiled
		if cp, err = p.compile(velty.EscapeHTML(escape), velty.BufferSize(c.R(0, 50))); err != nil {
			return
		}
		exec = cp.exec
		st = cp.state()
		err = fillState(st, data)
	})
	if panicked != nil || err != nil {
		c.Violate("compile", "%v %v at %s", err, panicked, stack)
		return
	}
	history := ""
	for round, n := 0, c.R(2, 5); round < n; round++ {
		if round > 0 {
			st.Reset()
			in.out.Reset()
			in.steps = 0
			if s := st.Buffer.String(); s != "" || len(st.Errors) > 0 || !st.IsValid() {
				c.Violate("reset", "round %d: after Reset the output is %q and the errors are %v", round, s, st.Errors)
				return
			}
			for _, name := range []string{"hp", "mp", "lp", "pn", "ps", "mm"} { // the data of the caller changes
				v, ok := data[name]
				if !ok || !c.P(40) {
					continue
				}
				seed := c.U64()
				for _, v := range []reflect.Value{v, refData[name]} {
					if r := NewRand(seed); v.Kind() == reflect.Map {
						v.SetMapIndex(reflect.ValueOf(pick(r, "a", "b", "c", "d")), reflect.ValueOf(r.N(99)))
					} else {
						r.fill(v.Elem(), 1)
					}
				}
				c.Count("caller's data changed", 1)
				history += name
			}
			for _, name := range []string{"n", "s", "f", "b"} { // some variables get another value
				if c.P(40) {
					v := reflect.New(g.hosts[name].Type()).Elem()
					c.fill(v, 0)
					in.vars[name].Set(v)
					if err := st.SetValue(name, v.Interface()); err != nil {
						c.Violate("set value", "%v", err)
						return
					}
					history += name
				}
			}
		}
		fails := c.P(15)
		flv := 0
		if fails {
			flv = round + 1
		}
		in.vars["fl"].SetInt(int64(flv))
		_ = st.SetValue("fl", flv)
		ok, failure := in.Run(p.Body)
		if !ok {
			c.Count("too long, skipped", 1)
			return
		}
		var out string
		panicked, stack := guard(func() {
			err = exec.Exec(st)
			out = st.Buffer.String()
		})
		if panicked != nil {
			c.Violate("panic", "round %d: %v at %s", round, panicked, stack)
			return
		}
		if failure != "" {
			if err == nil {
				c.Violate("no error", "round %d should have failed: %s", round, failure)
				return
			}
			if !fails { // what a failing template did before is not defined
				st.Reset()
				if s := st.Buffer.String(); s != "" || !st.IsValid() {
					c.Violate("reset", "round %d: after Reset the output is %q and the errors are %v", round, s, st.Errors)
				}
				c.Count("reset after a failure", 1)
				return
			}
			c.Count("reset after a failure", 1)
			if len(st.Errors) > 1 {
				c.Count("reset after many failures", 1)
			}
			history += "!"
			continue
		}
		if err != nil {
			c.Violate("error", "round %d: %v", round, err)
			return
		}
		if want := in.out.String(); want != out {
			c.Violate("output", "round %d: %s\nwant %q\ngot  %q", round, firstDiff(want, out), clip(want, 1500), clip(out, 1500))
			return
		}
		for name, v := range data {
			if v.Kind() == reflect.Ptr && !sameData(in.vars[name], reflect.ValueOf(v.Interface())) && refData[name].Interface() == in.vars[name].Interface() {
				c.Violate("data", "round %d: %s should be %s but is %s", round, name, clip(renderValue(in.vars[name]), 500), clip(renderValue(v), 500))
				return
			}
		}
		if round > 0 {
			c.Count("execution on a reset state", 1)
		}
		history += fmt.Sprint(round)
	}
	c.Saw(p.Src + history)
	c.Sample("%s history %s", clip(p.Src, 300), history)
}

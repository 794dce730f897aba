package main

import (
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// C12: values stay intact while the garbage collector runs at any point of an execution: everything a template can still reach is
// reachable for the collector, and every unsafe access stays within its object

func init() {
	register(&Prop{
		CPULimit: 120,
		ID:       "C12",
		Rule:     "a case is a generated template whose data only its State holds, executed with a collector running all the time and collections forced between statements and inside calls, with freed memory overwritten (clobberfree) and every unsafe pointer checked (checkptr) or raced accesses reported; output and data are compared with the reference after another collection; distinct by template",
		Plans: []Plan{
			{Variant: "checkptr", Quick: 3000, Thorough: 100000, Env: "GOMAXPROCS=2 GOGC=1 GODEBUG=clobberfree=1,invalidptr=1,gcstoptheworld=0"},
			{Variant: "checkptr", Quick: 30000, Thorough: 1000000, Env: "MEMORY_CASES=others GOGC=20 GODEBUG=clobberfree=1,invalidptr=1"},
			{Variant: "checkptr", Quick: 1000, Thorough: 30000, Env: "GOMAXPROCS=2 GOGC=5 GODEBUG=clobberfree=1,invalidptr=1,gccheckmark=0,gcstoptheworld=1"},
		},
		Case: caseMemory,
		Min:  []string{"case of another check", "collections", "set", "reference", "collected before the execution", "values kept over a collection"},
	})
}

var (
	collectorOnce sync.Once
	garbage       atomic.Value
)

func startCollector() {
	collectorOnce.Do(func() {
		go func() {
			for {
				began := time.Now()
				runtime.GC()
				time.Sleep(2*time.Since(began) + 100*time.Microsecond)
			}
		}()
	})
}

// litter takes memory of many sizes, so that what was freed is used again
func litter(n int) {
	var keep [][]byte
	for i := 0; i < n; i++ {
		b := make([]byte, 8<<(i%6))
		for j := range b {
			b[j] = 0xA5
		}
		keep = append(keep, b)
	}
	garbage.Store(keep)
}

func caseMemory(c *Ctx) {
	others := os.Getenv("MEMORY_CASES") == "others"
	if !others {
		startCollector()
	}
	if others || c.P(20) { // what other checks execute, observed the same way
		delegated = true
		c.Count("case of another check", 1)
		pick(c.Rand, caseCall, caseCall, caseBuiltin, caseIndex, caseShape, caseAssign, caseExpr, caseLoop, caseState, caseEscape, caseErrors)(c)
		if !others {
			runtime.GC()
		}
		return
	}
	collections := 0
	g := newGen(c.Rand)
	if c.P(30) {
		g.addTemplates(1)
	}
	g.fns["collect"] = &testFunc{name: "collect", fn: func(n int) string {
		if n%3 == 0 {
			runtime.GC()
		}
		litter(n % 40)
		collections++
		return ""
	}, pure: func(n int) string { return "" }}
	g.fns["remake"] = &testFunc{name: "remake", fn: func(s string) string { litter(10); return strings.Repeat(s, 1) + "" }, pure: func(s string) string { return s }}
	g.fns["leafOf"] = &testFunc{name: "leafOf", fn: func(n int, s string) *Leaf {
		return &Leaf{N: n, T: s + "!", Tags: []string{s, s + "?"}}
	}, pure: func(n int, s string) *Leaf { return &Leaf{N: n, T: s + "!", Tags: []string{s, s + "?"}} }}
	collect := func() Stmt { return &Out{P: callPath("collect", tString, intLit(c.N(100)))} }
	p := &Program{Fns: g.fns, Hosts: g.hosts}
	kept := 0
	tp := reflect.PtrTo(tLeaf)
	for n := c.R(1, 3); n > 0; n-- {
		for _, s := range g.block(2) {
			p.Body = append(p.Body, s)
			if c.P(40) {
				p.Body = append(p.Body, collect())
			}
		}
		// something only a template variable holds
		switch c.N(4) {
		case 0:
			p.Body = append(p.Body, &Set{Target: &Path{Root: "keptLeaf", T: tp}, E: callPath("leafOf", tp, &Path{Root: "n", T: tInt}, &Path{Root: "s", T: tString})}, collect(),
				&Out{P: &Path{Root: "keptLeaf", Steps: []Step{{Field: "T", Out: tString}}, T: tString}}, &Out{P: &Path{Root: "keptLeaf", Steps: []Step{{Field: "Tags", Out: reflect.SliceOf(tString)}}, T: reflect.SliceOf(tString)}, Braces: true})
			kept++
		case 1:
			p.Body = append(p.Body, &Set{Target: &Path{Root: "keptText", T: tString}, E: &Bin{Op: "+", X: &Bin{Op: "+", X: &Path{Root: "s", T: tString}, Y: strLit("-")}, Y: &Path{Root: "t", T: tString}}}, collect(), collect(),
				&Out{P: &Path{Root: "keptText", T: tString}, Braces: true})
			kept++
		case 2:
			if g.lookup("h") != nil && g.lookup("hp") != nil {
				path := func(root, f string, t reflect.Type) *Path {
					return &Path{Root: root, Steps: []Step{{Field: f, Out: t}}, T: t}
				}
				p.Body = append(p.Body, &Set{Target: path("hp", "B", tString), E: callPath("remake", tString, &Path{Root: "s", T: tString})}, collect(),
					&Set{Target: path("h", "B", tString), E: &Bin{Op: "+", X: path("hp", "B", tString), Y: &Path{Root: "t", T: tString}}}, collect(), collect(),
					&Out{P: path("h", "B", tString), Braces: true}, &Out{P: path("hp", "B", tString), Braces: true})
				kept++
			}
		}
	}
	p.Src = source(c.Rand, p.Body)
	c.Desc("template: %s\n%s", p.Src, describeHosts(p.Hosts, p.Src))
	ref, _, ok, failure := p.reference(false)
	if !ok || failure != "" {
		c.Count("too long, skipped", 1)
		return
	}
	var out string
	var err error
	var st *est.State
	panicked, stack := guard(func() {
		cp, cerr := p.compile(velty.BufferSize(c.R(0, 64)), velty.CacheSize(c.R(0, 2)))
		if err = cerr; err != nil {
			return
		}
		st = cp.state()
		if err = fillState(st, copyHosts(p.Hosts)); err != nil { // nothing else holds this copy
			return
		}
		runtime.GC()
		litter(60)
		c.Count("collected before the execution", 1)
		err = cp.exec.Exec(st)
		runtime.GC()
		litter(60)
		out = st.Buffer.String()
	})
	if panicked != nil {
		c.Violate("panic", "%v at %s", panicked, stack)
		return
	}
	if err != nil {
		c.Violate("error", "%v", err)
		return
	}
	if want := ref.out.String(); want != out {
		c.Violate("output", "%s\nwant %q\ngot  %q", firstDiff(want, out), clip(want, 1500), clip(out, 1500))
		return
	}
	// the data is read back from the memory of the state
	mem := reflect.ValueOf(st.Mem).Elem()
	for _, n := range p.names() {
		f := mem.FieldByName(n)
		if !f.IsValid() || !f.CanInterface() {
			accessor, ok := st.StateType.ValueAccessor(n)
			if !ok {
				c.Violate("accessor", "no accessor of %s", n)
				return
			}
			f = reflect.NewAt(accessor.Type, accessor.Pointer(st.MemPtr)).Elem()
		}
		if !sameData(ref.vars[n], f) {
			c.Violate("data", "%s should be %s but is %s", n, clip(renderValue(ref.vars[n]), 800), clip(renderValue(f), 800))
			return
		}
	}
	runtime.KeepAlive(st)
	for name, n := range ref.stats {
		c.Count(name, n)
	}
	c.Count("collections", collections)
	c.Count("values kept over a collection", kept)
	c.Saw(p.Src)
	c.Sample("%s => %q", clip(p.Src, 300), clip(out, 200))
}

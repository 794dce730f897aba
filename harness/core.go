package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"
)

// ---------------------------------------------------------------- PRNG

// Rand is a splitmix64 generator: a case is a pure function of (seed, property, case index).
type Rand struct{ s uint64 }

func NewRand(parts ...uint64) *Rand {
	r := &Rand{}
	for _, p := range parts {
		r.s = mix(r.s ^ mix(p+0x9e3779b97f4a7c15))
	}
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0, n)
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// R returns a number in [a, b]
func (r *Rand) R(a, b int) int { return a + r.N(b-a+1) }

// P returns true pct times out of 100
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

// Int returns an int with boundary values over-represented
func (r *Rand) Int() int {
	switch r.N(10) {
	case 0:
		return pick(r, 0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 255, 256, -128, 127, 65535, 1<<32, 1<<62)
	case 1, 2:
		return int(r.U64())
	case 3, 4:
		return r.R(-100000, 100000)
	default:
		return r.R(-20, 20)
	}
}

// ---------------------------------------------------------------- case context

// Ctx is handed to every case of a property
type Ctx struct {
	*Rand
	Prop    string
	Variant string
	Tier    string
	Index   int
	w       *worker
	tags    []string
	desc    string
	failed  bool

	probing   bool // violations are not recorded, only their key
	failedKey string
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Desc records what the case is about to do, so that a crash of the process can be attributed to it
func (c *Ctx) Desc(format string, args ...interface{}) {
	c.desc = fmt.Sprintf(format, args...)
	c.w.setDesc(c.desc)
}

// Saw records a distinct, non-trivial behaviour that was observed and judged
func (c *Ctx) Saw(fingerprint string) { c.w.distinct[hash64(fingerprint)] = struct{}{} }

// Count adds observed events
func (c *Ctx) Count(name string, n int) { c.w.counts[name] += n }

// Sample keeps some cases for the evidence
func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.w.samples) < 4 || (len(c.w.samples) < 8 && c.N(200) == 0) {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		c.w.samples = append(c.w.samples, s)
	}
}

// Violate reports the property as broken by this case. key is a short stable class of the violation.
func (c *Ctx) Violate(key, format string, args ...interface{}) {
	c.failed = true
	c.failedKey = key
	if c.probing {
		return
	}
	c.w.violate(Violation{Prop: c.Prop, Variant: c.Variant, Index: c.Index, Key: key, Detail: fmt.Sprintf(format, args...), Desc: c.desc})
}

type Violation struct {
	Prop, Variant string
	Index         int
	Key           string
	Detail        string
	Desc          string
	Stderr        string `json:",omitempty"`
}

// ---------------------------------------------------------------- properties

// Prop is a property with the workload and the oracle that decide it
type Prop struct {
	ID    string
	Rule  string
	Plans []Plan // what a run consists of
	Case  func(c *Ctx)
	// Min lists the events that must have been observed, otherwise the run is inconclusive
	Min         []string
	CPULimit    int  // seconds of CPU one case may take, 0 means 30
	Silent      bool // nothing may be written to the standard output
	Assumptions []string
}

// Plan is a number of cases executed by one build variant
type Plan struct {
	Variant  string // plain, race, checkptr
	Quick    int
	Thorough int
	Procs    int    // parallel processes, 0 means 8
	Env      string // additional environment, space separated
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// guard runs f and returns the panic it ended with
func guard(f func()) (panicked interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
			if _, isErr := r.(runtime.Error); isErr || true {
				stack = trimStack(string(debug.Stack()))
			}
		}
	}()
	f()
	return nil, ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "xunsafe") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
}

// firstDiff describes where two outputs differ
func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := i - 30
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		e := i + 60
		if e > len(s) {
			e = len(s)
		}
		if from > len(s) {
			return ""
		}
		return s[from:e]
	}
	return fmt.Sprintf("first difference at byte %d: want …%q got …%q", i, cut(want), cut(got))
}

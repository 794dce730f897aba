package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vmon check ID | list | worker … | replay FILE")
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "variants":
		p := props[os.Args[2]]
		if p == nil {
			usage()
		}
		set := map[string]bool{}
		for _, plan := range p.Plans {
			set[plan.Variant] = true
		}
		var vs []string
		for v := range set {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		fmt.Println(strings.Join(vs, "\n"))
	case "worker":
		runWorker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		usage()
	}
}

// ---------------------------------------------------------------- worker process

type worker struct {
	prop     *Prop
	variant  string
	tier     string
	counts   map[string]int
	distinct map[uint64]struct{}
	samples  []string
	evals    int
	viols    []Violation
	perKey   map[string]int
	shrunk   int

	mem       []byte // shared with the parent: survives a crash
	current   int64
	caseStart int64
}

type workerResult struct {
	Evals    int
	Counts   map[string]int
	Distinct []uint64
	Samples  []string
	Viols    []Violation
	Next     int
}

const progressSize = 1 << 16

func (w *worker) setDesc(s string) {
	if len(s) > progressSize-32 {
		s = s[:progressSize-32]
	}
	copy(w.mem[16:], s)
	putInt(w.mem[8:], len(s))
}

func putInt(b []byte, v int) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * i))
	}
}

func getInt(b []byte) (v int) {
	for i := 0; i < 8; i++ {
		v |= int(b[i]) << (8 * i)
	}
	return v
}

func (w *worker) violate(v Violation) {
	if w.perKey[v.Key]++; w.perKey[v.Key] > 3 {
		return
	}
	v.Detail = clip(v.Detail, 4000)
	v.Desc = clip(v.Desc, 8000)
	w.viols = append(w.viols, v)
}

// worker PROP VARIANT TIER SEED FROM TO STEP PROGRESS RESULT
func runWorker(args []string) {
	prop := props[args[0]]
	atoi := func(s string) int { v, _ := strconv.Atoi(s); return v }
	seed, from, to, step := atoi(args[3]), atoi(args[4]), atoi(args[5]), atoi(args[6])
	w := &worker{prop: prop, variant: args[1], tier: args[2], counts: map[string]int{}, distinct: map[uint64]struct{}{}, perKey: map[string]int{}}
	f, err := os.OpenFile(args[7], os.O_RDWR, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.mem, err = syscall.Mmap(int(f.Fd()), 0, progressSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	debug.SetPanicOnFault(true)
	go w.watchdog()

	distinctLimit := 3_000_000
	for i := from; i < to; i += step {
		putInt(w.mem, i)
		putInt(w.mem[8:], 0)
		atomic.StoreInt64(&w.current, int64(i))
		atomic.StoreInt64(&w.caseStart, cpuNanos())
		c := &Ctx{Rand: NewRand(uint64(seed), hash64(prop.ID), hash64(w.variant), uint64(i)), Prop: prop.ID, Variant: w.variant, Tier: w.tier, Index: i, w: w}
		panicked, stack := guard(func() { prop.Case(c) })
		if panicked != nil {
			c.Violate("harness-panic", "the case ended with a panic nothing expected: %v at %s", panicked, stack)
		}
		w.evals++
		if len(w.distinct) > distinctLimit {
			break
		}
	}
	res := workerResult{Evals: w.evals, Counts: w.counts, Samples: w.samples, Viols: w.viols}
	for h := range w.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	out, err := os.Create(args[8])
	if err == nil {
		bw := bufio.NewWriter(out)
		err = json.NewEncoder(bw).Encode(res)
		_ = bw.Flush()
		_ = out.Close()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	exitSpin   = 91 // one case burnt 30 s of CPU, or the limit of the property
	exitMemory = 92 // one case took more than 3 GB
)

// watchdog ends a case that does not terminate: decided on the CPU time the case burnt and the memory it took, not on the wall clock
func (w *worker) watchdog() {
	var last int64 = -1
	base := cpuNanos()
	limit := int64(30)
	if w.prop.CPULimit > 0 {
		limit = int64(w.prop.CPULimit)
	}
	for {
		time.Sleep(500 * time.Millisecond)
		cur := atomic.LoadInt64(&w.current)
		if cur != last {
			last, base = cur, cpuNanos()
		}
		if used := cpuNanos() - base; used > limit*1e9 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "WATCHDOG: case %d burnt %d ms of CPU\n%s\n", cur, used/1e6, buf[:n])
			os.Exit(exitSpin)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "WATCHDOG: case %d holds %d MB\n", cur, ms.HeapAlloc>>20)
			os.Exit(exitMemory)
		}
	}
}

// ---------------------------------------------------------------- driver

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() (res []finding) {
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range bytes.Split(data, []byte("\n")) {
		line = bytes.TrimSpace(line)
		if len(line) == 0 {
			continue
		}
		var f finding
		if json.Unmarshal(line, &f) == nil && f.Status == "known" {
			res = append(res, f)
		}
	}
	return res
}

func check(id string) int {
	start := time.Now()
	prop := props[id]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	bin := os.Getenv("VMON_BIN") // directory with the build variants
	if bin == "" {
		bin = filepath.Dir(os.Args[0])
	}
	tmp, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	total := workerResult{Counts: map[string]int{}}
	distinct := map[uint64]struct{}{}
	perVariant := map[string]int{}
	var mux sync.Mutex
	var inconclusive []string
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for planIdx, plan := range prop.Plans {
		cases := plan.Quick
		if tier == "thorough" {
			cases = plan.Thorough
		}
		if cases == 0 {
			continue
		}
		procs := plan.Procs
		if procs == 0 {
			procs = 8
		}
		if procs > cases {
			procs = cases
		}
		for k := 0; k < procs; k++ {
			wg.Add(1)
			go func(planIdx, k int, plan Plan) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				from := k
				crashes := 0
				for from < cases {
					res, next, crash := runShard(bin, tmp, prop, plan, tier, seed, from, cases, procs, fmt.Sprintf("%d-%d", planIdx, k))
					mux.Lock()
					total.Evals += res.Evals
					perVariant[plan.Variant] += res.Evals
					for n, v := range res.Counts {
						total.Counts[n] += v
					}
					for _, h := range res.Distinct {
						distinct[h] = struct{}{}
					}
					if len(total.Samples) < 8 {
						total.Samples = append(total.Samples, res.Samples...)
					}
					total.Viols = append(total.Viols, res.Viols...)
					if crash != nil {
						if crash.Key == "worker-failed" {
							inconclusive = append(inconclusive, crash.Detail)
						} else {
							total.Viols = append(total.Viols, *crash)
						}
					}
					mux.Unlock()
					if crash == nil || crash.Key == "worker-failed" {
						return
					}
					if crashes++; crashes >= 2 {
						return
					}
					from = next
				}
			}(planIdx, k, plan)
		}
	}
	wg.Wait()

	// verdict
	findings := loadFindings()
	knownHit := map[string]bool{}
	var viols []Violation
	for _, v := range total.Viols {
		known := false
		for _, f := range findings {
			if f.Property == id && f.Key == v.Key && (f.Contains == "" || strings.Contains(v.Detail+v.Desc+v.Stderr, f.Contains)) {
				known = true
				if !knownHit[f.Key+f.Contains] {
					knownHit[f.Key+f.Contains] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				}
				break
			}
		}
		if !known {
			viols = append(viols, v)
		}
	}
	sort.Slice(viols, func(i, j int) bool {
		if len(viols[i].Desc) != len(viols[j].Desc) {
			return len(viols[i].Desc) < len(viols[j].Desc)
		}
		return viols[i].Index < viols[j].Index
	})

	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{}
	}
	if len(viols) == 0 && len(inconclusive) == 0 {
		for _, name := range prop.Min {
			if total.Counts[name] == 0 {
				inconclusive = append(inconclusive, "no event observed: "+name)
			}
		}
		if len(distinct) == 0 {
			inconclusive = append(inconclusive, "nothing distinct was observed")
		}
	}
	evidence := map[string]interface{}{
		"property": id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(distinct),
			"rule":                prop.Rule,
			"samples":             total.Samples,
			"events":              total.Counts,
			"cases_per_build":     perVariant,
			"inconclusive":        inconclusive,
		},
		"assumptions": prop.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	if prop.Assumptions == nil {
		delete(evidence, "assumptions")
	}
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0755)
	data, _ := json.MarshalIndent(evidence, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	if len(viols) > 0 {
		repDir := filepath.Join(evDir, "replay")
		_ = os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, id+".json")
		if len(viols) > 40 {
			viols = viols[:40]
		}
		data, _ := json.MarshalIndent(map[string]interface{}{"property": id, "seed": seed, "tier": tier, "violations": viols}, "", " ")
		_ = os.WriteFile(path, data, 0644)
		shown := map[string]bool{}
		for _, v := range viols {
			if shown[v.Key] || len(shown) >= 6 {
				continue
			}
			shown[v.Key] = true
			fmt.Printf("--- %s [%s case %d] %s\n    %s\n    %s\n", v.Key, v.Variant, v.Index, clip(v.Detail, 900), clip(v.Desc, 900), clip(v.Stderr, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if len(inconclusive) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, strings.Join(inconclusive, "; "))
		return 2
	}
	fmt.Printf("HELD property=%s on %d executions, %d distinct behaviours, %.1fs %v\n", id, total.Evals, len(distinct), time.Since(start).Seconds(), total.Counts)
	return 0
}

func runShard(bin, tmp string, prop *Prop, plan Plan, tier string, seed, from, to, step int, name string) (workerResult, int, *Violation) {
	progress := filepath.Join(tmp, name+".progress")
	result := filepath.Join(tmp, name+".result")
	_ = os.Remove(result)
	if err := os.WriteFile(progress, make([]byte, progressSize), 0600); err != nil {
		return workerResult{}, to, &Violation{Key: "worker-failed", Detail: err.Error()}
	}
	cmd := exec.Command(filepath.Join(bin, "vmon-"+plan.Variant), "worker", prop.ID, plan.Variant, tier, strconv.Itoa(seed), strconv.Itoa(from), strconv.Itoa(to), strconv.Itoa(step), progress, result)
	var stderr tailBuffer
	var stdout tailBuffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stdout
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	if plan.Variant == "checkptr" {
		cmd.Env = append(cmd.Env, "GODEBUG=clobberfree=1,invalidptr=1", "GOGC=20")
	}
	if plan.Env != "" {
		cmd.Env = append(cmd.Env, strings.Fields(plan.Env)...)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return workerResult{}, to, &Violation{Key: "worker-failed", Detail: err.Error()}
	}
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	timedOut := int32(0)
	timer := time.AfterFunc(limit, func() { atomic.StoreInt32(&timedOut, 1); _ = cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()

	if err == nil {
		data, rerr := os.ReadFile(result)
		var res workerResult
		if rerr == nil {
			rerr = json.Unmarshal(data, &res)
		}
		if rerr != nil {
			return workerResult{}, to, &Violation{Key: "worker-failed", Detail: rerr.Error()}
		}
		if out := stdout.String(); prop.Silent && out != "" {
			res.Viols = append(res.Viols, Violation{Prop: prop.ID, Variant: plan.Variant, Index: from, Key: "stdout", Detail: fmt.Sprintf("cases from %d wrote to the standard output: %q", from, clip(out, 500))})
		}
		return res, to, nil
	}
	mem, _ := os.ReadFile(progress)
	index, dlen := getInt(mem), getInt(mem[8:])
	desc := ""
	if dlen >= 0 && dlen+16 <= len(mem) {
		desc = string(mem[16 : 16+dlen])
	}
	if atomic.LoadInt32(&timedOut) == 1 {
		return workerResult{}, to, &Violation{Key: "worker-failed", Detail: "worker of " + plan.Variant + " ran out of its wall clock limit"}
	}
	key := "crash"
	code := cmd.ProcessState.ExitCode()
	text := stderr.String()
	switch {
	case code == exitSpin:
		key = "no-termination"
	case code == exitMemory:
		key = "memory"
	case code == 66 || strings.Contains(text, "DATA RACE"):
		key = "data-race"
	case strings.Contains(text, "checkptr:"):
		key = "checkptr"
	case code == 3:
		return workerResult{}, to, &Violation{Key: "worker-failed", Detail: clip(text, 500)}
	case code == -1 && !strings.Contains(text, "fatal error") && !strings.Contains(text, "panic"):
		return workerResult{}, to, &Violation{Key: "worker-failed", Detail: "worker was killed: " + err.Error() + " " + clip(text, 300)}
	}
	return workerResult{Evals: (index-from)/step + 1}, index + step, &Violation{Prop: prop.ID, Variant: plan.Variant, Index: index, Key: key, Desc: clip(desc, 8000), Detail: "the process running the case ended: " + err.Error(), Stderr: clip(text, 12000)}
}

// tailBuffer keeps the first bytes of what a process wrote
type tailBuffer struct {
	mux sync.Mutex
	buf bytes.Buffer
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mux.Lock()
	defer b.mux.Unlock()
	if b.buf.Len() < 1<<18 {
		b.buf.Write(p)
	}
	return len(p), nil
}

func (b *tailBuffer) String() string {
	b.mux.Lock()
	defer b.mux.Unlock()
	return b.buf.String()
}

// replay runs again the cases of a replay file and reports whether they still fail
func replay(file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rep struct {
		Property   string
		Seed       int
		Tier       string
		Violations []Violation
	}
	if err := json.Unmarshal(data, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tmp, _ := os.MkdirTemp("", "vmon-replay-")
	defer os.RemoveAll(tmp)
	bin := filepath.Dir(os.Args[0])
	code := 0
	for i, v := range rep.Violations {
		plan := Plan{Variant: v.Variant}
		res, _, crash := runShard(bin, tmp, props[rep.Property], plan, rep.Tier, rep.Seed, v.Index, v.Index+1, 1, fmt.Sprint(i))
		if crash != nil {
			res.Viols = append(res.Viols, *crash)
		}
		fmt.Printf("case %d (%s): %d violations\n", v.Index, v.Variant, len(res.Viols))
		for _, rv := range res.Viols {
			code = 1
			fmt.Printf("  %s: %s\n  %s\n%s\n", rv.Key, rv.Detail, rv.Desc, rv.Stderr)
		}
	}
	return code
}

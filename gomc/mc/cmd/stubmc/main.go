// stubmc explores programs of goroutines that use the Go binding over a model of the library.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	possum "github.com/anacrolix/possum/go"

	"gomc.local/mc/harness"
	"gomc.local/mc/stub"
	"gomc.local/mcrt"
)

// A unit is a program, all of whose executions within the bounds are explored, or a list of
// sequences to compare with the real library.
type unit struct {
	name    string
	threads [][]harness.Op
	own     func(u *unit, x *execution) // a program of its own
	preempt int
	fails   int
	real    [][]int
}

type execution struct {
	errs []string
	obs  []string
}

type result struct {
	Unit        string
	Executions  int
	Transitions int
	Points      int
	Failures    int
	Real        int
	States      []uint64
	Obs         []uint64
	Longest     int
	Cut         bool
	Bad         string
	Choices     []int
	Sample      string
}

type choice struct {
	kind           string
	n, cost, taken int
}

var errNondeterminism = "the same choices gave different choice points"

// execute runs the program once with the given choices and defaults after them.
func execute(u *unit, prefix []int) (x execution, trace []choice, msg string) {
	pathLen := 0
	dir := "/" + strings.Repeat("d", 236)
	if u.own == nil {
		pathLen = len(dir) + 1
	}
	stub.Reset(pathLen, false)
	nondet := false
	chooser := func(kind string, n, cost int) int {
		i := len(trace)
		t := 0
		if i < len(prefix) {
			t = prefix[i]
			if t >= n {
				nondet = true
				t = 0
			}
		}
		trace = append(trace, choice{kind, n, cost, t})
		return t
	}
	msg = mcrt.Run(chooser, func() {
		if u.own != nil {
			u.own(u, &x)
			return
		}
		h, err := possum.Open(dir)
		if err != nil {
			x.errs = append(x.errs, "Open: "+err.Error())
			return
		}
		e := &harness.Env{H: h, Dir: dir, Log: stub.Log}
		for _, op := range harness.Setup() {
			x.obs = append(x.obs, e.Do(op))
		}
		stub.SetFails(u.fails > 0)
		if len(u.threads) == 1 {
			for _, op := range u.threads[0] {
				x.obs = append(x.obs, e.Do(op))
			}
		} else {
			obs := make([][]string, len(u.threads))
			for i, ops := range u.threads {
				i, ops := i, ops
				mcrt.Spawn(fmt.Sprint("T", i+1), func() {
					for _, op := range ops {
						obs[i] = append(obs[i], e.Do(op))
					}
				})
			}
			mcrt.Join()
			for _, o := range obs {
				x.obs = append(x.obs, o...)
			}
		}
		stub.SetFails(false)
		x.obs = append(x.obs, e.Do(harness.List("")))
		for _, op := range harness.After() {
			e.Do(op)
		}
		x.errs = append(x.errs, e.Errs...)
		x.errs = append(x.errs, stub.Leaks(e.LostValue)...)
	})
	if mcrt.Finalizers > 0 {
		finalize()
		var again []string
		if msg == "" {
			for _, l := range stub.Leaks(true) {
				again = append(again, "after finalizers: "+l)
			}
		}
		if len(x.errs) == 0 {
			x.errs = again
		}
	}
	x.errs = append(x.errs, stub.Bad()...)
	if msg != "" {
		x.errs = append([]string{msg}, x.errs...)
	}
	if nondet {
		fmt.Fprintln(os.Stderr, errNondeterminism, u.name, prefix)
		os.Exit(2)
	}
	return
}

// finalize runs the finalizers of what is unreachable.
func finalize() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		s := new([16]byte)
		runtime.SetFinalizer(s, func(*[16]byte) { close(done) })
		s = nil
		runtime.GC()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	}
}

func explore(u *unit, deadline time.Time) (r result) {
	r.Unit = u.name
	states := map[uint64]bool{}
	obs := map[uint64]bool{}
	stub.OnState = func(s uint64) { states[s] = true }
	var prefix []int
	for {
		if r.Executions&255 == 255 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 256<<20 {
				runtime.GC()
			}
			if time.Now().After(deadline) {
				r.Cut = true
				break
			}
		}
		x, trace, _ := execute(u, prefix)
		r.Executions++
		r.Points += mcrt.Steps()
		r.Transitions += len(trace) - len(prefix) + 1
		r.Longest = max(r.Longest, len(trace))
		for _, c := range trace[min(len(prefix), len(trace)):] {
			_ = c
		}
		if len(prefix) > 0 && len(trace) >= len(prefix) && trace[len(prefix)-1].kind == "fail" {
			r.Failures++
		}
		h := fnv.New64a()
		fmt.Fprint(h, u.name, x.obs)
		obs[h.Sum64()] = true
		if len(x.errs) > 0 {
			r.Bad = strings.Join(x.errs, "; ")
			for _, c := range trace {
				r.Choices = append(r.Choices, c.taken)
			}
			break
		}
		r.Sample = fmt.Sprintf("%s: %d choice points, choices %v -> %v", u.name, len(trace), prefix, x.obs)
		// The next one differs in the last choice that has another alternative within the bounds.
		i := len(trace) - 1
		for ; i >= 0; i-- {
			c := trace[i]
			if c.taken+1 >= c.n {
				continue
			}
			if c.taken == 0 && c.cost > 0 {
				used := 0
				for _, d := range trace[:i] {
					if d.kind == c.kind && d.taken > 0 {
						used += d.cost
					}
				}
				bound := u.preempt
				if c.kind == "fail" {
					bound = u.fails
				}
				if used+c.cost > bound {
					continue
				}
			}
			break
		}
		if i < 0 {
			break
		}
		prefix = prefix[:0:0]
		for _, c := range trace[:i] {
			prefix = append(prefix, c.taken)
		}
		prefix = append(prefix, trace[i].taken+1)
	}
	for s := range states {
		r.States = append(r.States, s)
	}
	for s := range obs {
		r.Obs = append(r.Obs, s)
	}
	return
}

// compare runs sequences on the model and on the real library.
func compare(u *unit, scratch string) (r result) {
	r.Unit = u.name
	ops := harness.Ops()
	var in strings.Builder
	var want []string
	for _, seq := range u.real {
		p := &unit{threads: [][]harness.Op{nil}}
		var f []string
		for _, i := range seq {
			p.threads[0] = append(p.threads[0], ops[i])
			f = append(f, strconv.Itoa(i))
		}
		in.WriteString(strings.Join(f, " ") + "\n")
		x, _, _ := execute(p, nil)
		if len(x.errs) > 0 {
			r.Bad = fmt.Sprintf("sequence %v: %s", names(seq), strings.Join(x.errs, "; "))
			return
		}
		want = append(want, strings.Join(x.obs, " | "))
	}
	dir, err := os.MkdirTemp(scratch, "real-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	c := exec.Command(filepath.Join(filepath.Dir(self), "realmc"), dir)
	c.Stdin = strings.NewReader(in.String())
	var stderr strings.Builder
	c.Stderr = &stderr
	c.Env = append(os.Environ(), "RUST_LOG=off")
	out, err := c.Output()
	got := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	for i, seq := range u.real {
		g := "nothing: " + fmt.Sprint(err) + " " + tail(stderr.String())
		if i < len(got) && got[i] != "" {
			g = got[i]
		}
		r.Real++
		if g != want[i] {
			r.Bad = fmt.Sprintf("sequence %v: with the real library: %s; should be: %s", names(seq), g, want[i])
			r.Choices = seq
			return
		}
		r.Sample = fmt.Sprintf("real library: %v -> %s", names(seq), g)
	}
	return
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return strings.ReplaceAll(s, "\n", " ")
}

func names(seq []int) (l []string) {
	for _, i := range seq {
		l = append(l, harness.Ops()[i].Name)
	}
	return
}

func worker(tier string) {
	us := units(tier)
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var i int
		var dl int64
		fmt.Sscan(in.Text(), &i, &dl)
		u := us[i]
		var r result
		if u.real != nil {
			r = compare(u, stub.Scratch)
		} else {
			r = explore(u, time.Unix(dl, 0))
		}
		out.Encode(r)
	}
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func check(tier string) int {
	verif := env("MC_VERIF", "/verif")
	budget := 75
	if tier == "thorough" {
		budget = 780
	}
	if v, err := strconv.Atoi(os.Getenv("MC_BUDGET")); err == nil {
		budget = v
	}
	start := time.Now()
	deadline := start.Add(time.Duration(budget) * time.Second)
	us := units(tier)
	jobs := make(chan int, len(us))
	for i := range us {
		jobs <- i
	}
	close(jobs)
	var mu sync.Mutex
	var all []result
	var bad *result
	var noAnswer string
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil {
		workers = v
	}
	skipped := 0
	self, _ := os.Executable()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := exec.Command(self, "worker", tier)
			stdin, _ := c.StdinPipe()
			stdout, _ := c.StdoutPipe()
			var stderr strings.Builder
			c.Stderr = &stderr
			c.Env = append(os.Environ(), "GOMC_SCRATCH="+stub.Scratch)
			if err := c.Start(); err != nil {
				panic(err)
			}
			defer c.Wait()
			defer stdin.Close()
			dec := json.NewDecoder(stdout)
			for i := range jobs {
				mu.Lock()
				stop := bad != nil || noAnswer != "" || time.Now().After(deadline)
				if stop && bad == nil {
					skipped++
				}
				mu.Unlock()
				if stop {
					continue
				}
				fmt.Fprintln(stdin, i, deadline.Unix()+1)
				var r result
				hang := time.AfterFunc(time.Until(deadline)+60*time.Second, func() {
					mu.Lock()
					noAnswer = us[i].name + " does not end"
					mu.Unlock()
					c.Process.Kill()
				})
				err := dec.Decode(&r)
				hang.Stop()
				if err != nil {
					c.Wait()
					mu.Lock()
					if noAnswer == "" {
						if strings.Contains(stderr.String(), errNondeterminism) {
							noAnswer = tail(stderr.String())
						} else {
							bad = &result{Unit: us[i].name, Bad: "the process died: " + head(stderr.String())}
						}
					}
					mu.Unlock()
					return
				}
				mu.Lock()
				all = append(all, r)
				if r.Bad != "" && bad == nil {
					bad = &r
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var execs, trans, points, fails, realN, longest int
	cut := skipped > 0
	states, obs := map[uint64]bool{}, map[uint64]bool{}
	per := map[string]int{}
	var samples []string
	for i, r := range all {
		execs += r.Executions
		trans += r.Transitions
		points += r.Points
		fails += r.Failures
		realN += r.Real
		longest = max(longest, r.Longest)
		cut = cut || r.Cut
		per[strings.SplitN(r.Unit, ":", 2)[0]] += r.Executions + r.Real
		for _, s := range r.States {
			states[s] = true
		}
		for _, s := range r.Obs {
			obs[s] = true
		}
		if r.Sample != "" && (i%(len(all)/6+1) == 0) {
			samples = append(samples, r.Sample)
		}
	}
	violations := 0
	if bad != nil {
		violations = 1
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	ev := map[string]any{
		"property": "C23", "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(start).Seconds(), "violations": violations, "assumptions": []string{},
		"coverage": map[string]any{
			"states": len(states), "transitions": trans, "traces_validated_against_impl": execs + realN,
			"distinct_final_observations": len(obs), "scheduling_points": points, "injected_failures": fails,
			"sequences_compared_with_the_real_library": realN, "longest_execution_choices": longest,
			"programs": len(all), "programs_skipped": skipped, "exhaustive": !cut, "wall_cap_hit": cut,
			"executions_per_group": per, "samples": samples,
			"rule":        "every program of goroutines over the exported operations under every schedule up to the preemption bound and every failure of a call up to the bound; every sequence of operations to a depth, compared with the real library",
			"explanation": "the Go code runs, with scheduling points before every statement, over a model of the library; states: distinct states of the model; the model is compared with the real library on every sequence to a depth",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verif+"/evidence", 0o755)
	os.WriteFile(verif+"/evidence/C23.json", append(b, '\n'), 0o644)
	if bad != nil {
		os.MkdirAll(verif+"/replays", 0o755)
		h := fnv.New32a()
		fmt.Fprint(h, bad.Unit, bad.Choices)
		p := fmt.Sprintf("%s/replays/C23-%08x.json", verif, h.Sum32())
		b, _ := json.MarshalIndent(map[string]any{"property": "C23", "tier": tier, "unit": bad.Unit, "choices": bad.Choices, "message": bad.Bad}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", bad.Unit, clean(bad.Bad))
		fmt.Printf("VIOLATION property=C23 replay=%s\n", p)
		return 1
	}
	if noAnswer != "" {
		fmt.Println("C23: no answer:", noAnswer)
		return 2
	}
	fmt.Printf("C23 %s: %d programs, %d executions, %d sequences on the real library, %d states, %.1f s%s\n", tier, len(all), execs,
		realN, len(states), time.Since(start).Seconds(), map[bool]string{true: " (cut short)"}[cut])
	return 0
}

func head(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Tier, Unit, Message string
		Choices             []int
	}
	json.Unmarshal(b, &r)
	for _, u := range units(r.Tier) {
		if u.name != r.Unit {
			continue
		}
		mcrt.Trace = func(s string) { fmt.Println("  ", s) }
		var res result
		if u.real != nil {
			u.real = [][]int{r.Choices}
			res = compare(u, stub.Scratch)
		} else if r.Choices == nil {
			mcrt.Trace = nil
			res = explore(u, time.Now().Add(time.Hour))
		} else {
			x, _, _ := execute(u, r.Choices)
			res.Bad = strings.Join(x.errs, "; ")
		}
		fmt.Println(u.name, "->", res.Bad)
		if res.Bad != "" {
			return 1
		}
		return 0
	}
	fmt.Println("no such program:", r.Unit)
	return 2
}

func main() {
	debug.SetGCPercent(-1)
	tier := env("VERIF_TIER", "quick")
	base := os.Getenv("GOMC_SCRATCH")
	own := base == ""
	if own {
		base = "/dev/shm"
		if _, err := os.Stat(base); err != nil {
			base = os.TempDir()
		}
	}
	var err error
	stub.Scratch, err = os.MkdirTemp(base, fmt.Sprintf("possum-mc-%d-go-", os.Getpid()))
	if err != nil {
		panic(err)
	}
	code := 0
	switch {
	case len(os.Args) > 2 && os.Args[1] == "worker":
		worker(os.Args[2])
	case len(os.Args) > 2 && os.Args[1] == "replay":
		code = replay(os.Args[2])
	case len(os.Args) > 1 && os.Args[1] == "check":
		code = check(tier)
	case len(os.Args) > 1 && os.Args[1] == "list":
		var l []string
		for _, u := range units(tier) {
			l = append(l, u.name)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	default:
		fmt.Println("stubmc check | replay FILE | list")
		code = 2
	}
	os.RemoveAll(stub.Scratch)
	os.Exit(code)
}

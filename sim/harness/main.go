// Command harness is the simulator with the instrumented library linked in.
//
//	harness check -prop C01 -tier quick -seed 1 -evidence FILE -replays DIR -findings FILE
//	harness replay FILE
//	harness selftest -prop C01 -n 500
//	harness show -prop C01 -seed 1 -index 17
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"zzsim.local/rt"
)

type stats struct {
	Runs      int
	Steps     int64
	SimUS     int64
	Switches  int64
	Decisions int64
	Orders    int64
	Tasks     int64
	Probes    map[string]int
	Faults    map[string]int
	States    []uint64 // distinct states of the reference model
	Traces    []uint64 // distinct interleavings
	Cases     int      // distinct non-trivial cases
	Sites     []int    // instrumented statements, which were executed
	Known     map[string]int
}

type report struct {
	Stats   stats
	Failed  bool
	Class   string
	Msg     string
	Case    *Case
	Earlier []int // cases executed before in the same process
}

const maxDistinct = 400000

// worker executes the cases from, from+stride, ... below to
func worker(prop string, seed uint64, from, stride, to int, deadline time.Time, findings []Finding) *report {
	rep := &report{}
	st := &rep.Stats
	st.Probes, st.Faults, st.Known = map[string]int{}, map[string]int{}, map[string]int{}
	states, traces, cases := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	earlier := []int{}
	for i := from; i < to; i += stride {
		if st.Runs%64 == 0 && time.Now().After(deadline) {
			break
		}
		c := genCase(prop, seed, i)
		out := runCase(c, false)
		st.Runs++
		st.Steps += int64(out.Res.Steps)
		st.SimUS += out.Res.SimTime.Microseconds()
		st.Switches += int64(len(out.Res.Switches))
		st.Decisions += int64(out.Res.Decisions)
		st.Orders += int64(out.Res.OrderPicks)
		st.Tasks += int64(out.Res.Tasks)
		for k, n := range out.Probes {
			st.Probes[k] += n
		}
		nfaults := 0
		for k, n := range out.Faults {
			st.Faults[k] += n
			nfaults += n
		}
		for h := range out.States {
			if len(states) < maxDistinct {
				states[h] = true
			}
		}
		if len(out.Res.Switches) > 0 && len(traces) < maxDistinct {
			traces[out.Res.TraceHash] = true
		}
		if len(c.Ops) > 1 && (nfaults > 0 || len(out.Res.Switches) > 0 || out.Res.OrderPicks > 0 || len(out.States) > 1) {
			cases[out.Res.Hash^out.Res.TraceHash] = true
		}
		if out.failed() {
			if f := known(findings, prop, out); f != nil {
				st.Known[f.What]++
				continue
			}
			rep.Failed = true
			rep.Class, rep.Msg = out.Class, out.Msg
			c.Sched.Switches = out.Res.Switches
			c.Sched.Mode = "replay"
			rep.Case = c
			rep.Earlier = earlier
			break
		}
		earlier = append(earlier, i)
	}
	for h := range states {
		st.States = append(st.States, h)
	}
	for h := range traces {
		st.Traces = append(st.Traces, h)
	}
	st.Cases = len(cases)
	for i, ok := range rt.Reached {
		if ok {
			st.Sites = append(st.Sites, i)
		}
	}
	return rep
}

// Finding is a genuine defect, which is recorded and not repaired
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"` // part of the message, identifies the failing site or input
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(path string) []Finding {
	res := []Finding{}
	f, err := os.Open(path)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var fd Finding
		if err := json.Unmarshal([]byte(line), &fd); err != nil {
			die("known findings: %v", err)
		}
		res = append(res, fd)
	}
	return res
}

func known(findings []Finding, prop string, out *Outcome) *Finding {
	for i := range findings {
		f := &findings[i]
		if f.Property == prop && f.Status == "open" && f.Class == out.Class && f.Match != "" && strings.Contains(out.Msg, f.Match) {
			return f
		}
	}
	return nil
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(2)
}

// Replay is the file, which reproduces a violation
type Replay struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Case     *Case  `json:"case"`
	// cases of the same process, which have to be executed before; empty, if
	// the violation does not depend on state outside the case
	Prelude  []int    `json:"prelude,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Original *Case    `json:"original,omitempty"`
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%s: %v", path, err)
	}
	return r
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		die("usage: harness check|replay|selftest|show ...")
	}
	fl := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	tier := fl.String("tier", "quick", "quick or thorough")
	seed := fl.Uint64("seed", 1, "seed")
	evidence := fl.String("evidence", "", "evidence file")
	replays := fl.String("replays", "/verif/replays", "directory of replay files")
	findingsFile := fl.String("findings", "", "known findings")
	runs := fl.Int("runs", 0, "number of runs")
	cap := fl.Int("cap", 0, "seconds")
	workers := fl.Int("workers", 8, "processes")
	from := fl.Int("from", 0, "")
	stride := fl.Int("stride", 1, "")
	to := fl.Int("to", 0, "")
	index := fl.Int("index", 0, "")
	n := fl.Int("n", 300, "")
	out := fl.String("out", "", "")
	_ = fl.Parse(os.Args[2:])
	if os.Args[1] != "replay" && os.Args[1] != "minimise" && props[*prop] == nil {
		die("unknown property %q", *prop)
	}

	switch os.Args[1] {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *evidence, *replays, *findingsFile, *runs, *cap, *workers))
	case "worker":
		runtime.GOMAXPROCS(2)
		rep := worker(*prop, *seed, *from, *stride, *to, time.Now().Add(time.Duration(*cap)*time.Second), loadFindings(*findingsFile))
		b, err := json.Marshal(rep)
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			die("%v", err)
		}
	case "minimise":
		runtime.GOMAXPROCS(2)
		r := readReplay(fl.Arg(0))
		minimise(r, time.Duration(*cap)*time.Second)
		writeJSON(fl.Arg(0), r)
	case "replay":
		r := readReplay(fl.Arg(0))
		ok, o := reproduce(r)
		for _, l := range o.Log {
			fmt.Println(l)
		}
		if !ok {
			fmt.Printf("NOT REPRODUCED property=%s expected %s, got %q %s\n", r.Property, r.Class, o.Class, o.Msg)
			os.Exit(0)
		}
		fmt.Printf("%s: %s\n", o.Class, o.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fl.Arg(0))
		os.Exit(1)
	case "selftest":
		h := uint64(0)
		for i := *from; i < *from+*n; i++ {
			c := genCase(*prop, *seed, i)
			a := runCase(c, true)
			b := runCase(c.clone(), true)
			if a.Res.Hash != b.Res.Hash || a.Res.Steps != b.Res.Steps || a.Res.TraceHash != b.Res.TraceHash || a.Class != b.Class {
				for j := range a.Log {
					if j >= len(b.Log) || a.Log[j] != b.Log[j] {
						fmt.Println("A", a.Log[j])
						if j < len(b.Log) {
							fmt.Println("B", b.Log[j])
						}
						break
					}
				}
				die("case %d is not deterministic: steps %d/%d", i, a.Res.Steps, b.Res.Steps)
			}
			// recorded switches give the same run
			c.Sched.Mode = "replay"
			c.Sched.Switches = a.Res.Switches
			r := runCase(c, true)
			if a.Res.Hash != r.Res.Hash || a.Res.Steps != r.Res.Steps || a.Res.TraceHash != r.Res.TraceHash {
				die("case %d: the replay of its switches differs: steps %d/%d", i, a.Res.Steps, r.Res.Steps)
			}
			h = rt.Mix(h, a.Res.Hash, a.Res.TraceHash, uint64(a.Res.Steps))
		}
		fmt.Printf("%s %d cases deterministic, log hash %016x\n", *prop, *n, h)
	case "show":
		c := genCase(*prop, *seed, *index)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
		o := runCase(c, true)
		for _, l := range o.Log {
			fmt.Println(l)
		}
		fmt.Println("steps", o.Res.Steps, "outcome", o.Class, o.Msg, "probes", o.Probes, "faults", o.Faults)
	default:
		die("unknown command")
	}
}

// reproduce executes a replay file
func reproduce(r *Replay) (bool, *Outcome) {
	for _, i := range r.Prelude {
		runCase(genCase(r.Property, r.Case.Seed, i), false)
	}
	o := runCase(r.Case, true)
	return o.Class == r.Class, o
}

func self(timeout time.Duration, args ...string) (string, int, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", 2, err
	}
	cmd := exec.Command(exe, args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		return "", 2, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
		return buf.String(), 2, fmt.Errorf("timeout")
	}
	code := cmd.ProcessState.ExitCode()
	return buf.String(), code, err
}

func check(prop, tier string, seed uint64, evidence, replays, findingsFile string, runs, capS, workers int) int {
	start := time.Now()
	p := props[prop]
	if runs == 0 {
		runs = p.Quick
		if tier == "thorough" {
			runs = p.Thorough
		}
	}
	if capS == 0 {
		capS = 240
		if tier == "thorough" {
			capS = 3600
		}
	}
	fmt.Printf("%s: seed %d, up to %d runs\n", prop, seed, runs)
	deadline := start.Add(time.Duration(capS) * time.Second)
	tmp, err := os.MkdirTemp("", "zzsim")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)

	// batches of cases, every batch in a fresh process
	const batchesPerWorker = 4
	batch := runs/(workers*batchesPerWorker) + 1
	type job struct{ from, to int }
	jobs := []job{}
	for f := 0; f < runs; f += batch {
		t := f + batch
		if t > runs {
			t = runs
		}
		jobs = append(jobs, job{f, t})
	}
	var mu sync.Mutex
	next := 0
	reports := []*report{}
	failed := false
	trouble := ""
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || failed || trouble != "" || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				id := next
				next++
				mu.Unlock()
				left := int(time.Until(deadline).Seconds()) + 1
				out := filepath.Join(tmp, fmt.Sprintf("r%d.json", id))
				log, _, err := self(time.Duration(left+60)*time.Second, "worker", "-prop", prop, "-seed", fmt.Sprint(seed),
					"-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-cap", fmt.Sprint(left), "-findings", findingsFile, "-out", out)
				mu.Lock()
				if err != nil {
					trouble = fmt.Sprintf("worker %d-%d: %v\n%s", j.from, j.to, err, tail(log, 4000))
				} else if b, err := os.ReadFile(out); err != nil {
					trouble = err.Error()
				} else {
					rep := &report{}
					if err := json.Unmarshal(b, rep); err != nil {
						trouble = err.Error()
					}
					if rep.Failed {
						failed = true
					}
					reports = append(reports, rep)
				}
				_ = os.Remove(out)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	total := stats{Probes: map[string]int{}, Faults: map[string]int{}, Known: map[string]int{}}
	states, traces, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var bad *report
	nbad := 0
	for _, rep := range reports {
		st := rep.Stats
		total.Runs += st.Runs
		total.Steps += st.Steps
		total.SimUS += st.SimUS
		total.Switches += st.Switches
		total.Decisions += st.Decisions
		total.Orders += st.Orders
		total.Tasks += st.Tasks
		total.Cases += st.Cases
		for k, n := range st.Probes {
			total.Probes[k] += n
		}
		for k, n := range st.Faults {
			total.Faults[k] += n
		}
		for k, n := range st.Known {
			total.Known[k] += n
		}
		for _, h := range st.States {
			states[h] = true
		}
		for _, h := range st.Traces {
			traces[h] = true
		}
		for _, i := range st.Sites {
			sites[i] = true
		}
		if rep.Failed {
			nbad++
			if bad == nil || rep.Case.Index < bad.Case.Index {
				bad = rep
			}
		}
	}
	exploreS := time.Since(start).Seconds()

	code := 0
	if bad == nil && trouble != "" {
		fmt.Fprintf(os.Stderr, "harness: %s\n", trouble)
		return 2
	}
	if bad != nil {
		code = reportViolation(prop, bad, replays)
	}
	for what, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, what, n)
	}
	if code == 2 {
		return 2
	}
	if evidence != "" {
		samples := []interface{}{}
		for _, i := range []int{0, 1, total.Runs / 2} {
			samples = append(samples, genCase(prop, seed, i))
		}
		perHour := 0
		if exploreS > 0 {
			perHour = int(float64(total.Runs) / exploreS * 3600)
		}
		ev := map[string]interface{}{
			"property":   prop,
			"tier":       tier,
			"seed":       seed,
			"level":      "exploration",
			"wall_s":     time.Since(start).Seconds(),
			"violations": nbad,
			"assumptions": []string{
				"a clean batch of sampled runs is evidence, not proof",
				"the simulator's model of locks, maps, the disk and storage back ends is faithful (DESIGN.md, section 1)",
			},
			"coverage": map[string]interface{}{
				"evaluations":              total.Runs,
				"distinct_nontrivial":      total.Cases,
				"rule":                     p.Rule + " Case i is generated from (VERIF_SEED, property, i). Non-trivial: at least two operations and at least one fault that took effect, schedule switch, chosen enumeration order or second reference state. Distinct: by hash of event log and interleaving, within a batch.",
				"samples":                  samples,
				"runs_per_hour":            perHour,
				"seeds":                    fmt.Sprintf("VERIF_SEED=%d, case indices 0..%d", seed, total.Runs-1),
				"simulated_seconds":        float64(total.SimUS) / 1e6,
				"steps":                    total.Steps,
				"tasks":                    total.Tasks,
				"schedule_decisions":       total.Decisions,
				"schedule_switches":        total.Switches,
				"distinct_interleavings":   len(traces),
				"distinct_model_states":    len(states),
				"statements_reached":       fmt.Sprintf("%d of %d instrumented statements of the library", reachedSites(sites), librarySites()),
				"enumeration_orders_drawn": total.Orders,
				"faults_injected":          total.Faults,
				"probes":                   total.Probes,
				"components_real":          p.Components,
				"components_stubbed":       p.Stubs,
				"known_findings_seen":      total.Known,
			},
		}
		writeJSON(evidence, ev)
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d states, %d interleavings, faults %s, %.1fs\n",
		prop, total.Runs, total.Cases, len(states), len(traces), mapString(total.Faults), time.Since(start).Seconds())
	fmt.Printf("%s: probes %s\n", prop, mapString(total.Probes))
	return code
}

func mapString(m map[string]int) string {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := []string{}
	for _, k := range keys {
		res = append(res, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return "{" + strings.Join(res, " ") + "}"
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func reportViolation(prop string, bad *report, replays string) int {
	path := filepath.Join(replays, fmt.Sprintf("%s-seed%d-case%d.json", prop, bad.Case.Seed, bad.Case.Index))
	r := &Replay{Property: prop, Class: bad.Class, Message: bad.Msg, Case: bad.Case, Original: bad.Case}
	writeJSON(path, r)
	_, code, _ := self(120*time.Second, "replay", path)
	if code != 1 {
		// the violation depends on what happened before in that process
		r.Prelude = bad.Earlier
		writeJSON(path, r)
		out, code, _ := self(600*time.Second, "replay", path)
		if code != 1 {
			fmt.Fprintf(os.Stderr, "harness: a violation could not be reproduced: %s %s\n%s\n", bad.Class, bad.Msg, tail(out, 2000))
			return 2
		}
	} else {
		// minimise in a process of its own, keep the original if that fails
		if log, code, err := self(150*time.Second, "minimise", "-cap", "60", path); err != nil || code != 0 {
			fmt.Fprintf(os.Stderr, "minimise: %v %s\n", err, tail(log, 2000))
			writeJSON(path, r)
		} else if _, code, _ := self(120*time.Second, "replay", path); code != 1 {
			fmt.Fprintln(os.Stderr, "minimise: the minimised case does not reproduce, keeping the original")
			writeJSON(path, r)
		}
	}
	m := readReplay(path)
	fmt.Printf("violation class %s: %s\n", m.Class, tailHead(m.Message, 3000))
	fmt.Printf("minimised from %d to %d operations\n", len(bad.Case.Ops), len(m.Case.Ops))
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func tailHead(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// librarySites counts the instrumented statements of /repo
func librarySites() int {
	n := 0
	for _, name := range rt.Sites {
		if !strings.Contains(name, "@") {
			n++
		}
	}
	return n
}

// reachedSites counts the statements of /repo, which were executed.
// ZZCOV names a file, which receives the numbers of all of them (for development)
func reachedSites(sites map[int]bool) int {
	n := 0
	names := []string{}
	for i, name := range rt.Sites {
		if !strings.Contains(name, "@") && sites[i] {
			n++
		}
		if !sites[i] {
			names = append(names, name)
		}
	}
	if f := os.Getenv("ZZCOV"); f != "" {
		_ = os.WriteFile(f, []byte(strings.Join(names, "\n")+"\n"), 0o644)
	}
	return n
}

package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	MapSeed  uint64   `json:"map_seed"`
	Prefix   []int    `json:"prefix_runs,omitempty"`
	Choices  []uint32 `json:"choices"`
	LogHash  string   `json:"log_hash"`
	Found    int      `json:"choices_when_found"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
}

// KnownFinding is an entry of /verif/known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Input    string `json:"input,omitempty"`
}

type batch struct {
	hashes map[int]string
	nontr  map[string]struct{}
	ntRuns int
	sums   []Summary
	viol   *ViolReport
	job    Job // of the worker that found viol
	harn   string
	runs   int
}

func runBatch(p *Property, seed uint64, n, workers int, deadline time.Time, idx []int) (*batch, error) {
	b := &batch{hashes: map[int]string{}, nontr: map[string]struct{}{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var all []*child
	stop := false
	var firstErr error
	for w := 0; w < workers; w++ {
		job := Job{Prop: p.ID, Seed: seed, Start: w, Stride: workers, End: n, Deadline: deadline.Unix()}
		if idx != nil {
			job.Idx = []int{}
			for k := w; k < len(idx); k += workers {
				job.Idx = append(job.Idx, idx[k])
			}
		}
		c, err := spawn("worker")
		if err != nil {
			return nil, err
		}
		all = append(all, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			jb, _ := json.Marshal(job)
			c.in.Write(append(jb, '\n'))
			cur, ended := -1, false
			for {
				line, err := c.out.ReadString('\n')
				if err != nil {
					break
				}
				c.touch()
				mu.Lock()
				switch line[0] {
				case 'B':
					fmt.Sscanf(line, "B %d", &cur)
				case 'R':
					var i, nt int
					var h string
					fmt.Sscanf(line, "R %d %s %d", &i, &h, &nt)
					b.hashes[i] = h
					b.runs++
					if nt == 1 {
						b.ntRuns++
						b.nontr[h] = struct{}{}
					}
				case 'V':
					var v ViolReport
					json.Unmarshal([]byte(line[2:]), &v)
					if v.Harness != "" && v.Class == "" {
						if b.harn == "" {
							b.harn = fmt.Sprintf("run %d (%s): %s", v.Idx, v.Scenario, v.Harness)
						}
					} else if b.viol == nil || v.Idx < b.viol.Idx {
						b.viol = &v
						b.job = job
					}
					stop = true
				case 'D':
					var s Summary
					json.Unmarshal([]byte(line[2:]), &s)
					b.sums = append(b.sums, s)
					ended = true
				}
				kill := stop
				mu.Unlock()
				if kill {
					for _, x := range all {
						x.cmd.Process.Kill()
					}
				}
			}
			werr := c.close()
			mu.Lock()
			defer mu.Unlock()
			if ended || stop {
				return
			}
			cl, msg := c.deathClass(werr)
			if cur < 0 {
				firstErr = fmt.Errorf("worker failed to start: %s %s", cl, msg)
				return
			}
			sc := p.ScenarioFor(cur)
			s, ms := RunSeed(seed, p.ID, cur)
			// the choices are not known: rerun in search mode is needed
			_ = s
			b.viol = &ViolReport{Idx: cur, Scenario: sc.Name, MapSeed: ms, Class: cl, Msg: msg}
			b.job = job
			stop = true
			for _, x := range all {
				x.cmd.Process.Kill()
			}
		}()
	}
	wg.Wait()
	return b, firstErr
}

// recordChoices reruns index idx in a process that streams its choices
// to a file as it goes, for runs that kill their process.
func recordChoices(p *Property, seed uint64, idx int) []uint32 {
	c, err := spawn("record")
	if err != nil {
		return nil
	}
	jb, _ := json.Marshal(Job{Prop: p.ID, Seed: seed, Idx: []int{idx}})
	c.in.Write(append(jb, '\n'))
	var r []uint32
	for {
		line, err := c.out.ReadString('\n')
		if err != nil {
			break
		}
		var v uint32
		fmt.Sscanf(line, "%d", &v)
		r = append(r, v)
	}
	c.close()
	return r
}

func fatal(format string, a ...interface{}) {
	fmt.Printf("ERROR "+format+"\n", a...)
	os.Exit(3)
}

// Check runs property p's check and returns the exit code.
func Check(verifDir string, p *Property, tier string, seed uint64, maxWall time.Duration) int {
	t0 := time.Now()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	n := p.QuickRuns
	if tier == "thorough" {
		n = p.ThorRuns
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		fmt.Sscanf(s, "%d", &n)
	}
	fmt.Printf("check %s tier=%s seed=%d runs=%d workers=%d\n", p.ID, tier, seed, n, workers)

	known := loadKnown(verifDir, p.ID)
	or := &Oracle{Fresh: true}
	knownSeen := 0
	for _, k := range known {
		if k.Status != "known" {
			continue
		}
		if p.Recheck == nil {
			fatal("%s has known findings but no recheck", p.ID)
		}
		rep, err := or.Try(TryReq{Prop: p.ID, Recheck: k.Input})
		if err != nil {
			fatal("recheck: %v", err)
		}
		if rep.Fails || rep.Class != "" {
			knownSeen++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		} else {
			fmt.Printf("note: listed finding no longer fails: %s\n", k.What)
		}
	}
	or.Close()

	b, err := runBatch(p, seed, n, workers, t0.Add(maxWall), nil)
	if err != nil {
		fatal("%v", err)
	}
	if b.viol == nil && b.harn != "" {
		fatal("harness failure in %s", b.harn)
	}
	viols := 0
	det := map[string]interface{}{}
	if b.viol == nil {
		// Determinism: rerun a sample in other processes, at another
		// worker count and so with other predecessors, and compare logs.
		var idx []int
		step := n/400 + 1
		for i := 0; i < n; i += step {
			if _, ok := b.hashes[i]; ok {
				idx = append(idx, i)
			}
		}
		d, err := runBatch(p, seed, n, 3, time.Now().Add(5*time.Minute), idx)
		if err != nil {
			fatal("%v", err)
		}
		if d.viol != nil {
			b.viol, b.job = d.viol, d.job
		} else if d.harn != "" {
			fatal("harness failure in %s", d.harn)
		} else {
			bad := []int{}
			for i, h := range d.hashes {
				if b.hashes[i] != h {
					bad = append(bad, i)
				}
			}
			sort.Ints(bad)
			det["runs_repeated"] = len(d.hashes)
			det["log_mismatches"] = len(bad)
			if len(bad) > 0 {
				if p.ID == "C20" {
					s := p.ScenarioFor(bad[0])
					_, ms := RunSeed(seed, p.ID, bad[0])
					b.viol = &ViolReport{Idx: bad[0], Scenario: s.Name, MapSeed: ms, Class: "nondeterminism",
						Msg: "the same run gave different event logs in different processes"}
					return reportRaw(verifDir, p, seed, b, t0, tier)
				}
				fatal("nondeterminism: runs %v gave different event logs in different processes", bad)
			}
		}
	}
	code := 0
	if b.viol != nil {
		viols = 1
		code = report(verifDir, p, seed, b)
	}
	writeEvidence(verifDir, p, tier, seed, b, det, viols, knownSeen, time.Since(t0))
	fmt.Printf("%s: %d runs, %d non-trivial (%d distinct), %.1fs, violations=%d\n", p.ID, b.runs, b.ntRuns, len(b.nontr), time.Since(t0).Seconds(), viols)
	return code
}

func loadKnown(dir, id string) (r []KnownFinding) {
	raw, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		fatal("known findings: %v", err)
	}
	var f struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		fatal("known findings: %v", err)
	}
	for _, k := range f.Findings {
		if k.Property == id {
			r = append(r, k)
		}
	}
	return
}

func reportRaw(dir string, p *Property, seed uint64, b *batch, t0 time.Time, tier string) int {
	v := b.viol
	rf := ReplayFile{Property: p.ID, Scenario: v.Scenario, Class: v.Class, Message: v.Msg, Seed: seed, Index: v.Idx, MapSeed: v.MapSeed}
	path := writeReplay(dir, rf)
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", v.Msg, p.ID, path)
	writeEvidence(dir, p, tier, seed, b, map[string]interface{}{}, 1, 0, time.Since(t0))
	return 1
}

func writeReplay(dir string, rf ReplayFile) string {
	os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
	path := filepath.Join(dir, "replays", fmt.Sprintf("%s-s%d-i%d.json", rf.Property, rf.Seed, rf.Index))
	rf.How = "bash bin/check.sh replay " + path
	out, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(out, '\n'), 0o644); err != nil {
		fatal("replay file: %v", err)
	}
	return path
}

// report confirms, minimises and writes a violation.
func report(dir string, p *Property, seed uint64, b *batch) int {
	v := b.viol
	fmt.Printf("run %d (%s) violates: [%s] %s\n", v.Idx, v.Scenario, v.Class, v.Msg)
	if v.Class == "process-killed" || v.Class == "process-slow" {
		fatal("worker ended from outside or starved in run %d: %s", v.Idx, v.Msg)
	}
	if v.Choices == nil {
		v.Choices = recordChoices(p, seed, v.Idx)
	}
	or := &Oracle{Fresh: true}
	rq := TryReq{Prop: p.ID, Scenario: v.Scenario, Choices: v.Choices, MapSeed: v.MapSeed, Seed: seed}
	rep, err := or.Try(rq)
	if err != nil {
		fatal("confirming: %v", err)
	}
	if rep.Class == "" {
		// Not on its own: does it need what the process did before?
		prev := []int{}
		b.job.indices(func(i int) bool {
			if i == v.Idx {
				return false
			}
			prev = append(prev, i)
			return true
		})
		for k := 1; ; k *= 4 {
			if k > len(prev) {
				k = len(prev)
			}
			rq.Prefix = prev[len(prev)-k:]
			rep, err = or.Try(rq)
			if err == nil && rep.Class != "" {
				break
			}
			if k == len(prev) {
				fatal("run %d does not reproduce, alone or after its predecessors: %s", v.Idx, v.Msg)
			}
		}
		// shorten the prefix
		for changed := true; changed && len(rq.Prefix) > 1; {
			changed = false
			for size := (len(rq.Prefix) + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(rq.Prefix); {
					c := append(append([]int{}, rq.Prefix[:i]...), rq.Prefix[i+size:]...)
					r2 := rq
					r2.Prefix = c
					if rp, err := or.Try(r2); err == nil && rp.Class == rep.Class {
						rq.Prefix = c
						changed = true
					} else {
						i += size
					}
				}
				if len(rq.Prefix) <= 8 {
					break
				}
			}
			if len(rq.Prefix) <= 8 {
				break
			}
		}
	}
	class := rep.Class
	found := len(trimZeros(rep.Choices))
	m := &Oracle{Fresh: rq.Prefix != nil}
	budget := 60 * time.Second
	best := Minimise(m, rq, class, rep, budget, 3000)
	m.Close()
	// replay the minimised file twice, each in a fresh process
	rq.Choices = trimZeros(best.Choices)
	rq.Keep = true
	r1, err1 := or.Try(rq)
	r2, err2 := or.Try(rq)
	or.Close()
	if err1 != nil || err2 != nil || r1.Class != class || r2.Class != class {
		// fall back on the run as found
		rq.Choices = v.Choices
		r1, err1 = or.Try(rq)
		r2, err2 = or.Try(rq)
		or.Close()
		if err1 != nil || err2 != nil || r1.Class == "" || r1.Class != r2.Class {
			fatal("run %d does not replay reliably: %q %q", v.Idx, r1.Class, r2.Class)
		}
	}
	if r1.Hash != r2.Hash {
		fatal("run %d replays with different event logs", v.Idx)
	}
	rf := ReplayFile{Property: p.ID, Scenario: v.Scenario, Class: r1.Class, Message: r1.Msg, Seed: seed, Index: v.Idx, MapSeed: v.MapSeed,
		Prefix: rq.Prefix, Choices: rq.Choices, LogHash: r1.Hash, Found: found, Trace: r1.Lines}
	path := writeReplay(dir, rf)
	fmt.Printf("minimised from %d to %d choices\n", found, len(rq.Choices))
	for _, l := range r1.Lines {
		fmt.Printf("  | %s\n", l)
	}
	fmt.Printf("[%s] %s\n", r1.Class, r1.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

// Replay re-executes a replay file in a fresh process.
func Replay(path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(raw, &rf); err != nil {
		fatal("%v", err)
	}
	or := &Oracle{Fresh: true}
	rep, err := or.Try(TryReq{Prop: rf.Property, Scenario: rf.Scenario, Choices: rf.Choices, MapSeed: rf.MapSeed, Seed: rf.Seed, Prefix: rf.Prefix, Keep: true})
	or.Close()
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range rep.Lines {
		fmt.Printf("  | %s\n", l)
	}
	if rep.Harness != "" {
		fatal("harness: %s", rep.Harness)
	}
	if rep.Class == "" {
		fmt.Printf("the property held on this replay (log %s)\n", rep.Hash)
		return 0
	}
	same := ""
	if rep.Class == rf.Class && rep.Hash == rf.LogHash {
		same = " (identical event log)"
	}
	fmt.Printf("[%s] %s%s\nVIOLATION property=%s replay=%s\n", rep.Class, rep.Msg, same, rf.Property, path)
	return 1
}

func writeEvidence(dir string, p *Property, tier string, seed uint64, b *batch, det map[string]interface{}, viols, knownSeen int, wall time.Duration) {
	faults, faultRuns, probes, per := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	states := map[string]struct{}{}
	var steps int64
	var samples []string
	capped, timedOut := false, false
	for _, s := range b.sums {
		steps += s.Steps
		for k, v := range s.Faults {
			faults[k] += v
		}
		for k, v := range s.FaultRuns {
			faultRuns[k] += v
		}
		for k, v := range s.Probes {
			probes[k] += v
		}
		for k, v := range s.PerScenario {
			per[k] += v
		}
		for _, k := range s.States {
			states[k] = struct{}{}
		}
		samples = append(samples, s.Samples...)
		capped = capped || s.StatesCapped
		timedOut = timedOut || s.TimedOut
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if viols > 0 && b.viol != nil {
		samples = append(samples, "violating run: "+b.viol.Msg)
	}
	hours := wall.Hours()
	cov := map[string]interface{}{
		"evaluations":                           b.runs,
		"distinct_nontrivial":                   len(b.nontr),
		"rule":                                  p.Rule,
		"samples":                               samples,
		"runs_per_scenario":                     per,
		"simulated_runs_per_hour_one_seed_each": int(float64(b.runs) / hours),
		"simulated_time":                        map[string]interface{}{"unit": "steps of the system under test (the code has no clock the property depends on)", "steps": steps},
		"faults_injected":                       faults,
		"runs_with_fault":                       faultRuns,
		"reach_probes":                          probes,
		"distinct_states":                       map[string]interface{}{"count": len(states), "capped": capped, "measure": "distinct hashes recorded by the scenarios (see rule)"},
		"determinism":                           det,
		"components":                            p.Components,
		"stopped_by_wall_limit":                 timedOut,
		"known_findings_seen":                   knownSeen,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": wall.Seconds(), "violations": viols,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	out, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(out, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
	if strings.TrimSpace(p.Rule) == "" {
		fatal("no rule for %s", p.ID)
	}
}

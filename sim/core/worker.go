package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Job is what the parent asks of a worker process.
type Job struct {
	Prop     string
	Seed     uint64
	Idx      []int // explicit indices, or
	Start    int
	Stride   int
	End      int
	Deadline int64 // unix seconds: stop starting runs after it
}

func (j *Job) indices(f func(i int) bool) {
	if j.Idx != nil {
		for _, i := range j.Idx {
			if !f(i) {
				return
			}
		}
		return
	}
	for i := j.Start; i < j.End; i += j.Stride {
		if !f(i) {
			return
		}
	}
}

// ViolReport is a worker's report of a violation.
type ViolReport struct {
	Idx      int
	Scenario string
	MapSeed  uint64
	Choices  []uint32
	Class    string
	Msg      string
	Hash     string
	Harness  string
}

type Summary struct {
	Runs         int
	Steps        int64
	Faults       map[string]int
	FaultRuns    map[string]int
	Probes       map[string]int
	States       []string
	StatesCapped bool
	PerScenario  map[string]int
	Samples      []string
	TimedOut     bool
}

// ScenarioFor maps a run index to its scenario, by weight.
func (p *Property) ScenarioFor(idx int) *Scenario {
	tot := 0
	for _, s := range p.Scenarios {
		tot += s.Weight
	}
	// spread: a fixed permutation so that every prefix has the mix
	r := int(Mix(uint64(idx), 0x5ca1ab1e) % uint64(tot))
	for _, s := range p.Scenarios {
		if r < s.Weight {
			return s
		}
		r -= s.Weight
	}
	panic("unreachable")
}

func RunSeed(seed uint64, prop string, idx int) (src, mapSeed uint64) {
	h := seed
	for _, c := range []byte(prop) {
		h = Mix(h, uint64(c))
	}
	h = Mix(h, uint64(idx))
	return Mix(h, 1), Mix(h, 2)
}

func limits() {
	const lim = 12 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

// Worker executes a job, reporting on fd 3.
func Worker() {
	limits()
	out := os.NewFile(3, "proto")
	in := bufio.NewReader(os.Stdin)
	line, err := in.ReadBytes('\n')
	if err != nil {
		os.Exit(4)
	}
	var job Job
	if err := json.Unmarshal(line, &job); err != nil {
		os.Exit(4)
	}
	p := Props[job.Prop]
	if p == nil {
		os.Exit(4)
	}
	sum := Summary{Faults: map[string]int{}, FaultRuns: map[string]int{}, Probes: map[string]int{}, PerScenario: map[string]int{}}
	states := map[uint64]struct{}{}
	job.indices(func(i int) bool {
		if job.Deadline != 0 && time.Now().Unix() >= job.Deadline {
			sum.TimedOut = true
			return false
		}
		sc := p.ScenarioFor(i)
		s, ms := RunSeed(job.Seed, p.ID, i)
		fmt.Fprintf(out, "B %d\n", i)
		src := NewSrc(s)
		o := RunOne(sc, src, ms, false)
		if o.Viol != nil || o.Harness != "" {
			v := ViolReport{Idx: i, Scenario: sc.Name, MapSeed: ms, Choices: src.Choices(), Hash: fmt.Sprintf("%x", o.Hash), Harness: o.Harness}
			if o.Viol != nil {
				v.Class, v.Msg = o.Viol.Class, o.Viol.Msg
			}
			b, _ := json.Marshal(v)
			fmt.Fprintf(out, "V %s\n", b)
			return false
		}
		nt := 0
		if o.T.nontriv {
			nt = 1
		}
		fmt.Fprintf(out, "R %d %x %d\n", i, o.Hash, nt)
		sum.Runs++
		sum.Steps += o.T.Steps
		sum.PerScenario[sc.Name]++
		for k, n := range o.T.Faults {
			sum.Faults[k] += n
			sum.FaultRuns[k]++
		}
		for k, n := range o.T.Probes {
			sum.Probes[k] += n
		}
		if len(states) < 200000 {
			for k := range o.T.States {
				states[k] = struct{}{}
			}
		} else {
			sum.StatesCapped = true
		}
		if o.T.sample != "" && o.T.nontriv && len(sum.Samples) < 3 && sum.Runs%7 == 3 {
			sum.Samples = append(sum.Samples, fmt.Sprintf("run %d (%s): %s", i, sc.Name, o.T.sample))
		}
		return true
	})
	for k := range states {
		sum.States = append(sum.States, strconv.FormatUint(k, 36))
	}
	sort.Strings(sum.States)
	b, _ := json.Marshal(sum)
	fmt.Fprintf(out, "D %s\n", b)
	os.Exit(0)
}

// TryReq asks a serving process for one run from recorded choices.
type TryReq struct {
	Prop, Scenario string
	Choices        []uint32
	MapSeed        uint64
	Keep           bool
	// Prefix: indices of earlier runs of (Prop,Seed) to execute first.
	Seed    uint64
	Prefix  []int
	Recheck string // run a known finding's input instead
}

type TryRep struct {
	Class, Msg string
	Harness    string
	Hash       string
	Choices    []uint32
	Spans      []Span
	Lines      []string
	Faults     map[string]int
	Sample     string
	Fails      bool
}

// Serve answers TryReqs on stdin, replies on fd 3.
func Serve() {
	limits()
	out := os.NewFile(3, "proto")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var rq TryReq
		if err := json.Unmarshal(line, &rq); err != nil {
			os.Exit(4)
		}
		var rep TryRep
		p := Props[rq.Prop]
		if rq.Recheck != "" {
			SetMapSeed(1)
			BeforeRun(nil)
			rep.Fails, rep.Msg = p.Recheck(rq.Recheck)
			AfterRun(nil)
		} else {
			for _, i := range rq.Prefix {
				s, ms := RunSeed(rq.Seed, p.ID, i)
				RunOne(p.ScenarioFor(i), NewSrc(s), ms, false)
			}
			var sc *Scenario
			for _, x := range p.Scenarios {
				if x.Name == rq.Scenario {
					sc = x
				}
			}
			if sc == nil {
				os.Exit(4)
			}
			src := NewReplay(rq.Choices)
			o := RunOne(sc, src, rq.MapSeed, rq.Keep)
			if o.Viol != nil {
				rep.Class, rep.Msg = o.Viol.Class, o.Viol.Msg
			}
			rep.Harness = o.Harness
			rep.Hash = fmt.Sprintf("%x", o.Hash)
			rep.Choices = src.Choices()
			rep.Spans = src.Spans
			rep.Lines = o.Lines
			rep.Faults = o.T.Faults
			rep.Sample = o.T.sample
		}
		b, _ := json.Marshal(rep)
		fmt.Fprintf(out, "%s\n", strings.ReplaceAll(string(b), "\n", " "))
	}
}

// OnChoice, when set, is told every choice as it is made.
var OnChoice func(v uint32)

// Record reruns one index and streams its choices, for runs that kill
// their process.
func Record() {
	limits()
	out := os.NewFile(3, "proto")
	in := bufio.NewReader(os.Stdin)
	line, err := in.ReadBytes('\n')
	if err != nil {
		os.Exit(4)
	}
	var job Job
	json.Unmarshal(line, &job)
	p := Props[job.Prop]
	i := job.Idx[0]
	s, ms := RunSeed(job.Seed, p.ID, i)
	OnChoice = func(v uint32) { fmt.Fprintf(out, "%d\n", v) }
	RunOne(p.ScenarioFor(i), NewSrc(s), ms, false)
	os.Exit(0)
}

// Log prints the event log of the last of idx to stderr.
func Log(p *Property, seed uint64, idx []int) {
	for k, i := range idx {
		s, ms := RunSeed(seed, p.ID, i)
		o := RunOne(p.ScenarioFor(i), NewSrc(s), ms, k == len(idx)-1)
		if k < len(idx)-1 {
			continue
		}
		for _, l := range o.Lines {
			fmt.Fprintln(os.Stderr, l)
		}
		fmt.Fprintf(os.Stderr, "hash %x viol %v harness %s\n", o.Hash, o.Viol, o.Harness)
	}
}

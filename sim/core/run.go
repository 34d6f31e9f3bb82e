package core

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	_ "unsafe"
)

// runtimeSetMapSeed is provided by the overlaid runtime/rand.go: it
// decides map iteration order and hash seeds of maps made from then on.
//
//go:linkname runtimeSetMapSeed
func runtimeSetMapSeed(x uint64)

// SetMapSeed hands the randomness of Go maps to the simulator.
func SetMapSeed(x uint64) { runtimeSetMapSeed(x) }

// Violation is a property violation found in a run. Class is a short
// stable name that minimisation preserves.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// T is the context of one simulated run.
type T struct {
	*Src
	MapSeed uint64

	hash    uint64
	lines   []string
	keep    bool
	Faults  map[string]int
	Probes  map[string]int
	States  map[uint64]struct{}
	Steps   int64 // simulated time: steps of the system under test
	nontriv bool
	sample  string
	failed  *Violation
}

type failNow struct{}

// Logf appends to the run's event log. The log must be a pure function
// of the run's choices and the code under test.
func (t *T) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := t.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h = (h ^ 10) * 1099511628211
	t.hash = h
	if t.keep {
		t.lines = append(t.lines, s)
	}
}

func (t *T) Fault(kind string)         { t.Faults[kind]++ }
func (t *T) Probe(name string)         { t.Probes[name]++ }
func (t *T) ProbeN(name string, n int) { t.Probes[name] += n }
func (t *T) NonTrivial()               { t.nontriv = true }

// Sample notes a readable form of the run for evidence.
func (t *T) Sample(s string) { t.sample = s }

// State counts a distinct state or interleaving reached.
func (t *T) State(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	t.States[h] = struct{}{}
}

// Failf ends the run as a violation of the property.
func (t *T) Failf(class, format string, a ...interface{}) {
	t.failed = &Violation{class, fmt.Sprintf(format, a...)}
	panic(failNow{})
}

// Scenario is one family of simulated runs deciding a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	// Runs in the quick and thorough tiers come from the property's
	// total, split by weight.
	Run func(t *T)
}

// Property gathers what is needed to check one property.
type Property struct {
	ID        string
	Level     string
	Rule      string
	QuickRuns int
	ThorRuns  int
	Scenarios []*Scenario
	// Known runs the listed findings; see known_findings.json.
	Assumptions []string
	Components  map[string]interface{}
	// Recheck runs one known finding's input on the real code and
	// reports whether it still fails as recorded.
	Recheck func(input string) (bool, string)
}

var Props = map[string]*Property{}

func Register(p *Property) { Props[p.ID] = p }

// BeforeRun resets whatever process-global state the system under test
// keeps, so that a run depends on nothing before it.
var BeforeRun = func(t *T) {}
var AfterRun = func(t *T) {}

// Outcome is what one run produced.
type Outcome struct {
	Viol    *Violation
	Hash    uint64
	Src     *Src
	T       *T
	Lines   []string
	Harness string // harness failure: not a property violation
}

// HarnessError marks a defect of the machinery itself.
type HarnessError struct{ Msg string }

func (t *T) Harnessf(format string, a ...interface{}) {
	panic(HarnessError{fmt.Sprintf(format, a...)})
}

// RunOne executes one simulated run.
func RunOne(sc *Scenario, src *Src, mapSeed uint64, keep bool) (o Outcome) {
	t := &T{Src: src, MapSeed: mapSeed, hash: 14695981039346656037, keep: keep,
		Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]struct{}{}}
	SetMapSeed(mapSeed)
	BeforeRun(t)
	SetMapSeed(mapSeed) // whatever the preparation used up
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case failNow:
			case HarnessError:
				o.Harness = x.Msg
			default:
				// a panic nobody claimed: a harness defect, unless the
				// scenario guards the call (see Guard).
				o.Harness = fmt.Sprintf("unclaimed panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		sc.Run(t)
	}()
	AfterRun(t)
	o.Viol = t.failed
	o.Hash = t.hash
	o.Src = src
	o.T = t
	o.Lines = t.lines
	return
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}

// Guard calls f and returns the panic value (and a stack) if it panics.
// Violations and harness errors pass through.
func Guard(f func()) (panicked interface{}, stack string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case failNow, HarnessError:
			panic(r)
		}
		panicked = r
		stack = trimStack(string(debug.Stack()))
	}()
	f()
	return nil, ""
}

func SortedKeys(m map[string]int) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

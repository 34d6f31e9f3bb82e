// Package core is the deterministic simulator's kernel: the choice
// source that decides everything, the run context, the worker, the
// minimiser and the replay files. It knows nothing about zygomys.
package core

// Choice is one recorded decision: V in [0,N).
type Choice struct {
	V uint32
	N uint32
}

// Span marks the choices [From,To) as belonging to one generated
// step; the minimiser tries to drop whole spans.
type Span struct {
	From, To int
	Depth    int
}

// Src is the only source of decisions in a run. In search mode every
// decision comes from a PRNG and is recorded; in replay mode it comes from
// a recorded list, and is 0 (the simplest alternative) past its end.
type Src struct {
	state  uint64
	replay []uint32
	isRep  bool
	pos    int
	Rec    []Choice
	Spans  []Span
	depth  int
	// Limit bounds the number of choices of one run.
	Limit int
}

func NewSrc(seed uint64) *Src { return &Src{state: seed, Limit: 1 << 18} }

func NewReplay(choices []uint32) *Src {
	return &Src{isRep: true, replay: choices, Limit: 1 << 18}
}

// Mix is splitmix64's finaliser over a and b.
func Mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Src) raw() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Src) record(v, n int) int {
	s.Rec = append(s.Rec, Choice{uint32(v), uint32(n)})
	if OnChoice != nil {
		OnChoice(uint32(v))
	}
	s.pos++
	return v
}

// Exhausted reports that the run has used up its choices; generators
// of unbounded sequences stop then.
func (s *Src) Exhausted() bool { return s.pos >= s.Limit }

// Intn returns a decision in [0,n). 0 is taken to be the simplest.
func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	if s.isRep || s.Exhausted() {
		v := 0
		if s.pos < len(s.replay) {
			v = int(s.replay[s.pos])
			if v >= n {
				v = n - 1
			}
		}
		return s.record(v, n)
	}
	return s.record(int(s.raw()%uint64(n)), n)
}

// Chance is true with probability num/den; false is the simpler.
func (s *Src) Chance(num, den int) bool {
	if s.isRep || s.Exhausted() {
		return s.Intn(2) == 1
	}
	v := 0
	if int(s.raw()%uint64(den)) < num {
		v = 1
	}
	return s.record(v, 2) == 1
}

func (s *Src) Bool() bool { return s.Intn(2) == 1 }

// Range returns a decision in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Pick chooses an alternative by weight. Earlier alternatives
// are the simpler ones.
func (s *Src) Pick(w ...int) int {
	if s.isRep || s.Exhausted() {
		v := s.Intn(len(w))
		for w[v] == 0 && v > 0 {
			v--
		}
		for w[v] == 0 {
			v++
		}
		return v
	}
	tot := 0
	for _, x := range w {
		tot += x
	}
	r := int(s.raw() % uint64(tot))
	for i, x := range w {
		if r < x {
			return s.record(i, len(w))
		}
		r -= x
	}
	panic("unreachable")
}

// Span runs f as one unit that the minimiser may drop as a whole.
func (s *Src) Span(f func()) {
	from := s.pos
	i := len(s.Spans)
	s.Spans = append(s.Spans, Span{from, from, s.depth})
	s.depth++
	defer func() {
		s.depth--
		if i < len(s.Spans) {
			s.Spans[i].To = s.pos
		}
	}()
	f()
}

// Many repeats f between min and max times; each repetition, with the
// decision to make it, is a span. expect is the mean count aimed at.
func (s *Src) Many(min, max, expect int, f func(i int)) int {
	i := 0
	for i < max {
		stop := false
		s.Span(func() {
			if i >= min {
				if expect <= min {
					expect = min + 1
				}
				if s.Exhausted() || !s.Chance(expect-min, expect-min+1) {
					stop = true
					return
				}
			}
			f(i)
		})
		if stop {
			break
		}
		i++
	}
	return i
}

// Choices returns the recorded decision values.
func (s *Src) Choices() []uint32 {
	r := make([]uint32, len(s.Rec))
	for i, c := range s.Rec {
		r[i] = c.V
	}
	return r
}

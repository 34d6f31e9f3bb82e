package core

import "time"

// sameClass: a minimised run must fail the same way.
func sameClass(a, b string) bool { return a == b }

func sum(c []uint32) (s uint64) {
	for _, x := range c {
		s += uint64(x)
	}
	return
}

func simpler(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func trimZeros(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

// Minimise shrinks choices while the violation class persists: drop
// spans, drop blocks, zero blocks, lower single decisions.
func Minimise(o *Oracle, rq TryReq, class string, first TryRep, budget time.Duration, maxTries int) TryRep {
	best := first
	end := time.Now().Add(budget)
	tries := 0
	if len(class) > 8 && class[:8] == "process-" {
		// each try costs a process; and no spans come back
		maxTries /= 4
	}
	try := func(c []uint32) bool {
		if tries >= maxTries || time.Now().After(end) {
			return false
		}
		c = trimZeros(c)
		if !simpler(c, trimZeros(best.Choices)) {
			return false
		}
		tries++
		rq.Choices = c
		rep, err := o.Try(rq)
		if err != nil || rep.Harness != "" || !sameClass(rep.Class, class) {
			return false
		}
		if !simpler(trimZeros(rep.Choices), trimZeros(best.Choices)) {
			return false
		}
		best = rep
		return true
	}
	cut := func(c []uint32, from, to int) []uint32 {
		if from < 0 || to > len(c) || from >= to {
			return c
		}
		r := append([]uint32{}, c[:from]...)
		return append(r, c[to:]...)
	}
	for progress := true; progress && tries < maxTries && time.Now().Before(end); {
		progress = false
		// 1. replace spans by the simplest alternative (one zero, which
		// makes most generators stop), or drop them
		for i := 0; i < len(best.Spans); {
			s := best.Spans[i]
			if s.To > s.From && s.To <= len(best.Choices) {
				c := append([]uint32{}, best.Choices[:s.From]...)
				c = append(append(c, 0, 0), best.Choices[s.To:]...)
				if s.To-s.From > 2 && try(c) || try(cut(best.Choices, s.From, s.To)) {
					progress = true
					continue // spans changed: same position again
				}
			}
			i++
		}
		// 2. drop blocks
		for size := 64; size >= 1; size /= 2 {
			if size > len(best.Choices) {
				continue
			}
			for i := len(best.Choices) - size; i >= 0; i -= size {
				if i+size <= len(best.Choices) && try(cut(best.Choices, i, i+size)) {
					progress = true
				}
			}
		}
		// 3. zero spans and blocks
		for i := 0; i < len(best.Spans); i++ {
			s := best.Spans[i]
			c := append([]uint32{}, best.Choices...)
			z := false
			for j := s.From; j < s.To && j < len(c); j++ {
				z = z || c[j] != 0
				c[j] = 0
			}
			if z && try(c) {
				progress = true
			}
		}
		// 4. lower decisions
		for i := 0; i < len(best.Choices); i++ {
			for _, v := range []uint32{0, best.Choices[i] / 2, best.Choices[i] - 1} {
				if i < len(best.Choices) && best.Choices[i] > 0 && v < best.Choices[i] {
					c := append([]uint32{}, best.Choices...)
					c[i] = v
					if try(c) {
						progress = true
						break
					}
				}
			}
		}
	}
	return best
}

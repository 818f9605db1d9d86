// Package simrt is the deterministic simulator's runtime: the instrumented copy of the code under
// test calls it for every goroutine, channel, lock, timer and preemption point.
package simrt

// Kinds of recorded choices.
const (
	KSched  = 'S' // which task runs next
	KBudget = 'B' // statements until the next preemption point
	KSelect = 'C' // which ready select case is taken
	KWork   = 'W' // workload shape
	KFault  = 'F' // fault injection
	KKnob   = 'K' // per-run tuning knobs and policies
)

// Choice is one recorded decision: V out of [0,N).
type Choice struct {
	K byte
	L string // label, workload/fault/knob choices only
	N uint32
	V uint32
}

// Source is the only origin of nondeterminism of a run. In generating mode values come from a
// PRNG seeded by the run's seed, in replay mode from a recorded list (0 when it is exhausted).
// Value 0 is always the plainest option.
type Source struct {
	s       [4]uint64
	replay  []uint32
	pos     int
	isRep   bool
	Rec     []Choice
	MaxRec  int
	Overrun bool
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Source) seed(seed uint64) {
	for i := range s.s {
		s.s[i] = splitmix(&seed)
	}
}

// NewSource makes a generating source.
func NewSource(seed uint64) *Source {
	s := &Source{}
	s.seed(seed)
	return s
}

// NewReplay makes a source that replays recorded values.
func NewReplay(vals []uint32) *Source {
	s := &Source{replay: vals, isRep: true}
	s.seed(1)
	return s
}

// Replaying tells whether values come from a recording.
func (s *Source) Replaying() bool { return s.isRep }

// Used returns the number of recorded values consumed so far.
func (s *Source) Used() int { return len(s.Rec) }

// raw is the hidden generator; never recorded, only used to produce recorded values.
func (s *Source) raw() uint64 {
	rotl := func(x uint64, k uint) uint64 { return (x << k) | (x >> (64 - k)) }
	r := rotl(s.s[1]*5, 7) * 9
	t := s.s[1] << 17
	s.s[2] ^= s.s[0]
	s.s[3] ^= s.s[1]
	s.s[1] ^= s.s[2]
	s.s[0] ^= s.s[3]
	s.s[2] ^= t
	s.s[3] = rotl(s.s[3], 45)
	return r
}

func (s *Source) rawn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.raw() % uint64(n))
}

func (s *Source) next(n int) int {
	v := uint32(0)
	if s.pos < len(s.replay) {
		v = s.replay[s.pos]
	}
	s.pos++
	if n > 0 && v >= uint32(n) {
		v = uint32(n - 1)
	}
	return int(v)
}

func (s *Source) record(k byte, label string, n, v int) int {
	s.Rec = append(s.Rec, Choice{K: k, L: label, N: uint32(n), V: uint32(v)})
	return v
}

// Intn draws a uniform value in [0,n).
func (s *Source) Intn(k byte, label string, n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.isRep {
		v = s.next(n)
	} else {
		v = s.rawn(n)
	}
	return s.record(k, label, n, v)
}

// Weighted draws an index with the given weights.
func (s *Source) Weighted(k byte, label string, w ...int) int {
	var v int
	if s.isRep {
		v = s.next(len(w))
	} else {
		t := 0
		for _, x := range w {
			t += x
		}
		r := s.rawn(t)
		for v = 0; v < len(w)-1; v++ {
			if r < w[v] {
				break
			}
			r -= w[v]
		}
	}
	return s.record(k, label, len(w), v)
}

// Range draws a uniform value in [lo,hi].
func (s *Source) Range(k byte, label string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Intn(k, label, hi-lo+1)
}

// Chance is true with probability num/den.
func (s *Source) Chance(k byte, label string, num, den int) bool {
	var v int
	if s.isRep {
		v = s.next(2)
	} else if s.rawn(den) < num {
		v = 1
	}
	return s.record(k, label, 2, v) == 1
}

// Seed32 draws a content seed.
func (s *Source) Seed32(k byte, label string) uint32 {
	return uint32(s.Intn(k, label, 1<<20))
}

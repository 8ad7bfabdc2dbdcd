package simrt

// Tape is a stream of bounded choices. In recording mode the choices come from
// a seeded generator and are remembered; in replay mode they come from the
// recorded list, and every choice past its end is 0. By convention 0 is the
// simplest choice everywhere (no fault, no preemption, smallest workload), so
// that cutting or zeroing a tape simplifies the run it drives.
type Tape struct {
	Rec    []uint32
	pos    int
	replay bool
	s      uint64
	mem    []uint32 // crash-surviving copy: mem[0] is the length
}

// NewTapeIn returns a recording tape whose record lives in mem, which the
// caller may map to a file so that it survives a crash of the process.
func NewTapeIn(seed uint64, mem []uint32) *Tape {
	mem[0] = 0
	return &Tape{s: mix(seed), Rec: mem[1:1:len(mem)], mem: mem}
}

// NewTape returns a recording tape seeded with seed.
func NewTape(seed uint64) *Tape { return &Tape{s: mix(seed), Rec: make([]uint32, 0, 64)} }

// ReplayTape returns a tape that plays rec.
func ReplayTape(rec []uint32) *Tape { return &Tape{Rec: rec, replay: true} }

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Mix is a 64-bit mixing function for deriving seeds.
func Mix(x uint64) uint64 { return mix(x) }

// Draw returns a choice in [0,n).
//
//go:norace
func (t *Tape) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	if t.replay {
		if t.pos >= len(t.Rec) {
			return 0
		}
		v := t.Rec[t.pos]
		t.pos++
		return int(v % uint32(n))
	}
	t.s += 0x9E3779B97F4A7C15
	x := t.s
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	x ^= x >> 31
	v := uint32(x>>33) % uint32(n)
	if len(t.Rec) == cap(t.Rec) {
		t.grow()
	}
	t.Rec = t.Rec[:len(t.Rec)+1]
	t.Rec[len(t.Rec)-1] = v
	if t.mem != nil {
		t.mem[0] = uint32(len(t.Rec))
	}
	return int(v)
}

//go:norace
func (t *Tape) grow() {
	t.mem = nil
	raceOff()
	n := make([]uint32, len(t.Rec), 2*cap(t.Rec)+64)
	for i := 0; i < len(t.Rec); i++ {
		n[i] = t.Rec[i]
	}
	t.Rec = n
	raceOn()
}

// Remaining reports whether a replayed tape has recorded choices left.
func (t *Tape) Remaining() int {
	if !t.replay {
		return 0
	}
	return len(t.Rec) - t.pos
}

// Range returns a choice in [lo,hi]; the simplest choice is lo.
func (t *Tape) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.Draw(hi-lo+1)
}

// Chance is true with probability num/den; the simplest choice is false.
func (t *Tape) Chance(num, den int) bool { return t.Draw(den) >= den-num }

// Used returns the consumed part of the tape.
func (t *Tape) Used() []uint32 {
	if t.replay {
		if t.pos < len(t.Rec) {
			return t.Rec[:t.pos]
		}
		return t.Rec
	}
	return t.Rec
}

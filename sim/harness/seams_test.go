package harness

import (
	"errors"
	"fmt"
	"io"
	"time"

	"verifsim/simrt"
)

// Fault kinds injected by the seams, counted without synchronisation because
// exactly one task runs at a time and the counters must stay out of the race
// detector's sight.
const (
	fkRead = iota
	fkReadOnce
	fkReadPartial
	fkShortPart
	fkOpenPart
	fkWrite
	fkWriteOnce
	fkWriteShort
	fkNoProgress
	fkLatency
	fkCancel
	fkCancelTask
	fkDeadline
	fkBadPart
	fkDiskOpen
	fkDiskStat
	fkDiskRead
	fkDiskWrite
	fkDiskClose
	fkDiskCreate
	fkNoSpace
	fkCrash
	fkTruncate
	fkLost
	fkFlip
	fkMutate
	fkRand
	fkChunk
	fkMissing
	fkStall
	fkExtension
	nfk
)

var fkNames = [nfk]string{"read error (persistent)", "read error (transient)", "read error after partial data", "part truncated", "part cannot be opened",
	"write error (persistent)", "write error (transient)", "short write", "read without progress", "delayed read or write", "context cancelled inside a read",
	"context cancelled by another task", "deadline passed", "damaged part", "open fails", "stat fails", "file read fails", "file write fails", "close fails", "create fails",
	"disk full", "crash", "truncation", "lost or zeroed range", "flipped bytes", "document mutation", "random source error", "byte stream split", "part missing", "stream stalled", "extension fails"}

var (
	fkN    [nfk]int
	fkPeak [nfk]int
)

//go:norace
func fired(k int) { fkN[k]++ }

//go:norace
func firedTotal() int {
	n := 0
	for i := 0; i < nfk; i++ {
		if i != fkChunk && i != fkLatency && i != fkNoProgress {
			n += fkN[i]
		}
	}
	return n
}

//go:norace
func firedReset() { fkN = [nfk]int{} }

// chunk decides how many bytes an operation handles.
type chunk struct {
	mode int
	r    rng
}

func newChunk(t *simrt.Tape) chunk {
	return chunk{mode: t.Draw(7), r: rng{uint64(t.Draw(1 << 30))}}
}

//go:norace
func (c *chunk) next(n int) int {
	k := n
	switch c.mode {
	case 1:
		k = 1 + c.r.n(512)
	case 2:
		k = 1 + c.r.n(7)
	case 3:
		k = 4095 + c.r.n(3)
	case 4:
		k = 1
		if c.r.n(6) == 0 {
			k = 1 + c.r.n(6000)
		}
	case 5:
		if c.r.n(3) > 0 {
			k = 1 + c.r.n(n)
		}
	case 6:
		k = 13
		if c.r.n(9) == 0 {
			k = n
		}
	}
	if k > n {
		k = n
	}
	if k != n {
		fkN[fkChunk]++
	}
	return k
}

var errStream = errors.New("stream failure")

// stream is a simulated byte source.
type stream struct {
	data     []byte
	off      int
	ch       chunk
	zero     int // one read in zero delivers nothing; 0: never
	lat      int // one read in lat is delayed; 0: never
	failAt   int // -1: never
	once     bool
	withData bool // the failing read delivers data too
	failErr  error
	eofData  bool // EOF comes with the last bytes
	hookAt   int  // -1: none
	hook     func()
	idx      int
	closed   bool
	closes   int
	reads    int
	afterEnd int // reads after close
	fkind    int
	limit    int // >=0: ends there, as if truncated
	fails    int
	stall    bool // from failAt on, reads deliver nothing and no error
}

func newStream(data []byte) *stream {
	return &stream{data: data, failAt: -1, hookAt: -1, limit: -1, failErr: errStream, fkind: fkRead}
}

// shape draws how the stream splits its bytes.
func (s *stream) shape(t *simrt.Tape) *stream {
	s.ch = newChunk(t)
	if t.Chance(1, 5) {
		s.zero = 3
	}
	if t.Chance(1, 4) {
		s.lat = 5
	}
	s.eofData = t.Chance(1, 3)
	return s
}

//go:norace
func (s *stream) Read(p []byte) (int, error) {
	simrt.IOPoint()
	s.reads++
	if s.closed {
		s.afterEnd++
		return 0, errors.New("read of a closed stream")
	}
	if s.lat > 0 && s.ch.r.n(s.lat) == 0 {
		fkN[fkLatency]++
		simrt.Sleep(time.Duration(1+s.ch.r.n(5000)) * time.Microsecond)
	}
	if s.hookAt >= 0 && s.off >= s.hookAt && s.hook != nil {
		h := s.hook
		s.hook = nil
		h()
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	if s.limit >= 0 && s.limit < end {
		end = s.limit
	}
	if s.failAt >= 0 && s.off >= s.failAt {
		s.fails++
		if s.stall {
			fkN[fkStall]++
			return 0, nil
		}
		fkN[s.fkind]++
		simrt.Log("stream.fail", int64(s.idx), int64(s.off))
		if s.once {
			s.failAt = -1
		}
		return 0, s.failErr
	}
	n := end - s.off
	if n > len(p) {
		n = len(p)
	}
	if n <= 0 {
		simrt.Log("stream.eof", int64(s.idx), int64(s.off))
		if s.limit >= 0 {
			fkN[fkShortPart]++
		}
		return 0, io.EOF
	}
	if s.zero > 0 && s.ch.r.n(s.zero) == 0 && s.reads%3 != 0 {
		fkN[fkNoProgress]++
		return 0, nil
	}
	n = s.ch.next(n)
	fail := false
	if s.failAt >= 0 && s.off+n >= s.failAt {
		n = s.failAt - s.off
		fail = s.withData
		if n == 0 || fail {
			fail = true
		}
	}
	if s.hookAt >= 0 && s.hook != nil && s.off < s.hookAt && s.off+n > s.hookAt {
		n = s.hookAt - s.off
	}
	for i := 0; i < n; i++ {
		p[i] = s.data[s.off+i]
	}
	s.off += n
	simrt.Log("stream.read", int64(s.idx), int64(n))
	if fail && !s.stall {
		s.fails++
		fkN[fkReadPartial]++
		if s.once {
			s.failAt = -1
		}
		return n, s.failErr
	}
	if s.off == end && s.eofData && s.limit < 0 && s.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

//go:norace
func (s *stream) Close() error {
	s.closed = true
	s.closes++
	return nil
}

// readerAt is a simulated random-access source.
type readerAt struct {
	data    []byte
	lat     int
	r       rng
	n       int // operations so far
	failOp  int // -1: none; the operation that fails
	failLo  int // byte range that cannot be read; lo>=hi: none
	failHi  int
	persist bool
	partial bool
	eofFull bool // a read up to the end also reports EOF
	err     error
	hookOp  int
	hook    func()
	bytes   int64
}

func newReaderAt(data []byte) *readerAt {
	return &readerAt{data: data, failOp: -1, hookOp: -1, err: errStream}
}

func (s *readerAt) shape(t *simrt.Tape) *readerAt {
	if t.Chance(1, 4) {
		s.lat = 6
	}
	s.r = rng{uint64(t.Draw(1 << 30))}
	s.eofFull = t.Chance(1, 3)
	return s
}

//go:norace
func (s *readerAt) ReadAt(p []byte, off int64) (int, error) {
	simrt.IOPoint()
	op := s.n
	s.n++
	if s.lat > 0 && s.r.n(s.lat) == 0 {
		fkN[fkLatency]++
		simrt.Sleep(time.Duration(1+s.r.n(5000)) * time.Microsecond)
	}
	if s.hookOp == op && s.hook != nil {
		h := s.hook
		s.hook = nil
		h()
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < int64(len(s.data)) {
		n = len(s.data) - int(off)
		if n > len(p) {
			n = len(p)
		}
	}
	fail := false
	kind := fkReadOnce
	if s.failOp >= 0 && (op == s.failOp || s.persist && op > s.failOp) {
		fail = true
		if s.persist {
			kind = fkRead
		}
	}
	if s.failLo < s.failHi && int(off) < s.failHi && int(off)+n > s.failLo {
		fail = true
		kind = fkRead
		if s.persist == false {
			s.failLo, s.failHi = 0, 0
			kind = fkReadOnce
		} else if int(off) < s.failLo && s.partial {
			n = s.failLo - int(off)
		}
	}
	if fail {
		if s.partial {
			n = s.r.n(n + 1)
			kind = fkReadPartial
		} else {
			n = 0
		}
		fkN[kind]++
	}
	for i := 0; i < n; i++ {
		p[i] = s.data[int(off)+i]
	}
	s.bytes += int64(n)
	simrt.Log("src.read", off, int64(n))
	if fail {
		return n, s.err
	}
	if n < len(p) || s.eofFull && int(off)+n == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

// writer is a simulated destination.
type writer struct {
	data   []byte
	ch     chunk
	lat    int
	n      int
	failAt int // byte offset at which a write fails; -1: never
	failOp int // -1: never
	once   bool
	short  bool // the failing write accepts some bytes
	err    error
	fails  int
}

func newWriter() *writer { return &writer{failAt: -1, failOp: -1, err: errors.New("write failure")} }

func (w *writer) Write(p []byte) (int, error) {
	simrt.IOPoint()
	op := w.n
	w.n++
	if w.lat > 0 && w.ch.r.n(w.lat) == 0 {
		fired(fkLatency)
		simrt.Sleep(time.Duration(1+w.ch.r.n(5000)) * time.Microsecond)
	}
	n := len(p)
	fail := false
	if w.failAt >= 0 && len(w.data)+n > w.failAt {
		fail = true
		n = w.failAt - len(w.data)
		if !w.short || n < 0 {
			n = 0
		}
	}
	if w.failOp >= 0 && op >= w.failOp {
		fail = true
		if w.short {
			n = w.ch.r.n(n + 1)
		} else {
			n = 0
		}
	}
	if n == len(p) && fail && n > 0 {
		n--
	}
	w.data = append(w.data, p[:n]...)
	simrt.Log("dst.write", int64(op), int64(n))
	if fail {
		w.fails++
		switch {
		case w.short && n > 0:
			fired(fkWriteShort)
		case w.once:
			fired(fkWriteOnce)
		default:
			fired(fkWrite)
		}
		if w.once {
			w.failAt, w.failOp = -1, -1
		}
		return n, w.err
	}
	return n, nil
}

type partErr struct {
	part string
	what string
}

func (e *partErr) Error() string { return fmt.Sprintf("%s: %s", e.part, e.what) }

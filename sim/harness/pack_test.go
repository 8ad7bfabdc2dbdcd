package harness

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"strings"
	"sync/atomic"

	"github.com/hpinc/go3mf"
	"verifsim/simrt"
)

// Part is an entry of a package.
type Part struct {
	Name string // zip entry name, without leading slash
	Data []byte
}

const (
	methodSim     = 99 // stream controlled by the harness
	methodUnknown = 77 // nobody can open it
)

// partStreams are the behaviours of the simulated part streams, by part index;
// a part may be opened several times.
const maxParts = 64

type partCtl struct {
	name   string
	proto  stream
	opens  int
	live   [4]*stream
	nlive  int
	unused bool
}

var (
	parts  [maxParts]partCtl
	nparts int
)

func init() { zip.RegisterDecompressor(methodSim, openSim) }

var simOpenFailure int32

//go:norace
func openSim(r io.Reader) io.ReadCloser {
	var head [4]byte
	if _, err := io.ReadFull(r, head[:]); err != nil {
		return io.NopCloser(r)
	}
	k := int(binary.LittleEndian.Uint32(head[:]))
	if k >= nparts {
		return io.NopCloser(bytes.NewReader(nil))
	}
	simrt.IOPoint()
	p := &parts[k]
	s := new(stream)
	*s = p.proto
	s.idx = k
	s.ch.r.s += uint64(p.opens) * 77
	if p.nlive < len(p.live) {
		p.live[p.nlive] = s
		p.nlive++
	}
	p.opens++
	simrt.Log("part.open", int64(k), int64(p.opens))
	return s
}

// partBytes returns how much of part k was delivered, over all its streams.
//
//go:norace
func partBytes(k int) int {
	n := 0
	for i := 0; i < parts[k].nlive; i++ {
		n += parts[k].live[i].off
	}
	return n
}

// Pack describes how to store parts.
type Pack struct {
	Parts  []Part
	Sim    func(name string) bool // parts that become simulated streams
	Order  func(n int) []int      // order of the entries
	Method map[string]uint16      // overrides
	Index  map[string]int         // part index by name, filled by Build
	Keep   bool                   // other packages are in use
}

func isPart(name string) bool {
	return name != "[Content_Types].xml" && !strings.HasSuffix(name, ".rels")
}

// Build makes the zip file and installs the simulated parts.
func (p *Pack) Build() []byte {
	p.Index = map[string]int{}
	if !p.Keep {
		partsReset()
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	order := make([]int, len(p.Parts))
	for i := range order {
		order[i] = i
	}
	if p.Order != nil {
		order = p.Order(len(p.Parts))
	}
	for _, i := range order {
		pt := p.Parts[i]
		h := &zip.FileHeader{Name: pt.Name, Method: zip.Store}
		data := pt.Data
		if p.Sim != nil && p.Sim(pt.Name) && nparts < maxParts {
			h.Method = methodSim
			p.Index[pt.Name] = nparts
			data = make([]byte, 4)
			binary.LittleEndian.PutUint32(data, uint32(nparts))
			parts[nparts].name = pt.Name
			parts[nparts].proto = *newStream(pt.Data)
			nparts++
		}
		if m, ok := p.Method[pt.Name]; ok {
			h.Method = m
		}
		h.CRC32 = crc32.ChecksumIEEE(pt.Data)
		h.CompressedSize64 = uint64(len(data))
		h.UncompressedSize64 = uint64(len(pt.Data))
		w, err := zw.CreateRaw(h)
		if err != nil {
			panic(err)
		}
		w.Write(data)
	}
	zw.Close()
	return buf.Bytes()
}

//go:norace
func partsReset() {
	for i := 0; i < nparts; i++ {
		parts[i] = partCtl{}
	}
	nparts = 0
}

// rewind forgets the streams opened so far.
//
//go:norace
func partsRewind() {
	for i := 0; i < nparts; i++ {
		parts[i].opens, parts[i].nlive = 0, 0
		parts[i].live = [4]*stream{}
	}
}

// Ctl returns the stream prototype of a part.
func (p *Pack) Ctl(name string) *stream { return &parts[p.Index[name]].proto }

// unpack lists the entries of a package.
func unpack(b []byte) ([]Part, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	var out []Part
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		out = append(out, Part{f.Name, d})
	}
	return out, nil
}

// perm draws an order of n entries; the simplest is the identity.
func perm(t *simrt.Tape) func(n int) []int {
	seed := t.Draw(1 << 16)
	return func(n int) []int {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		if seed == 0 {
			return o
		}
		r := rng{uint64(seed)}
		for i := n - 1; i > 0; i-- {
			j := r.n(i + 1)
			o[i], o[j] = o[j], o[i]
		}
		return o
	}
}

// plain runs f as a simulation without preemption.
func (c *Case) plain(f func()) simrt.Result {
	g, q := c.cfgGap, c.quiet
	c.cfgGap, c.quiet = 0, true
	defer func() { c.cfgGap, c.quiet = g, q }()
	return c.run("plain", simrt.Config{Tape: simrt.ReplayTape(nil), Budget: 80_000_000}, f)
}

// encodePlain encodes a generated model without faults or preemption; ok is
// false if that fails, which is for C01 to report.
func (c *Case) encodePlain(g *Gen) (out []byte, ok bool) {
	var buf bytes.Buffer
	var err error
	m := clone(g.M)
	for _, a := range g.Atts {
		m.Attachments = append(m.Attachments, go3mf.Attachment{Stream: bytes.NewReader(a.Data), Path: a.Path, ContentType: a.ContentType})
	}
	t := c.tolerate
	c.tolerate = true
	r := c.plain(func() {
		e := go3mf.NewEncoder(&buf)
		e.FloatPrecision = g.Prec
		err = e.Encode(m)
	})
	c.tolerate = t
	if err != nil || len(r.Panics) > 0 {
		c.Tag("skipped: the model could not be encoded")
		return nil, false
	}
	return buf.Bytes(), true
}

// decodePlain decodes a package without faults or preemption.
func (c *Case) decodePlain(b []byte, strict bool) (m *go3mf.Model, err error, panicked bool) {
	m = new(go3mf.Model)
	t := c.tolerate
	c.tolerate = true
	r := c.plain(func() {
		d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
		d.Strict = strict
		err = d.Decode(m)
	})
	c.tolerate = t
	return m, err, len(r.Panics) > 0
}

// usable reports whether a package loads back as want when nothing goes wrong;
// if it does not, that is for C01 to report.
func (c *Case) usable(b []byte, want Canon) bool {
	m, err, p := c.decodePlain(b, true)
	if err != nil || p {
		c.Tag("skipped: the package does not load even without faults")
		return false
	}
	if d := diffCanon(want, canon(m, nil)); d != "" {
		c.Tag("skipped: the package loads differently even without faults")
		return false
	}
	return true
}

var _ = fmt.Sprint
var _ atomic.Bool

func isModel(name string) bool { return strings.HasSuffix(name, ".model") }

// modelEntries lists the zip entries of the model parts, root last.
func modelEntries(g *Gen) []string {
	var out []string
	for _, n := range sortedChilds(g.M) {
		out = append(out, strings.TrimPrefix(n, "/"))
	}
	return append(out, strings.TrimPrefix(g.M.PathOrDefault(), "/"))
}

func partOf(ps []Part, name string) *Part {
	for i := range ps {
		if ps[i].Name == name {
			return &ps[i]
		}
	}
	panic("no part " + name)
}

// breakXML makes a document ill-formed at about k/1000 of its length.
func breakXML(b []byte, k int) []byte {
	out := append([]byte(nil), b...)
	i := len(out) * k / 1000
	for i > 60 && out[i-1] != '<' {
		i--
	}
	if i <= 60 {
		i = bytes.LastIndexByte(out, '<') + 1
	}
	out = append(out[:i], append([]byte("< "), out[i:]...)...)
	return out
}

// badValue puts a resource with an invalid identifier into a part.
func badValue(b []byte, name string) []byte {
	bad := `<basematerials id="not-a-number-` + strings.NewReplacer("/", "", ".", "").Replace(name) + `"></basematerials>`
	i := bytes.Index(b, []byte("<resources"))
	if i < 0 {
		panic("no resources in " + name)
	}
	i += bytes.IndexByte(b[i:], '>') + 1
	return append(append(append([]byte(nil), b[:i]...), bad...), b[i:]...)
}

type partsState struct {
	p [maxParts]partCtl
	n int
}

//go:norace
func savePartsState() *partsState { return &partsState{parts, nparts} }

//go:norace
func restorePartsState(s *partsState) { parts, nparts = s.p, s.n }

// countTasks tells how many goroutines are left; what must hold at this very moment is checked before.
func countTasks() int { return simrt.Linger() }

// diffClass names a difference by where it is.
func diffClass(d string) string {
	if i := strings.IndexAny(d, ":"); i > 0 {
		d = d[:i]
	}
	var b strings.Builder
	in := false
	for _, r := range d {
		switch {
		case r == '[':
			in = true
		case r == ']':
			in = false
		case !in && (r < '0' || r > '9'):
			b.WriteRune(r)
		}
	}
	f := strings.Fields(b.String())
	if len(f) > 3 {
		f = f[:3]
	}
	return strings.Join(f, " ")
}

// compress returns the checksum of some data and the data as a zip entry.
func compress(b []byte, method uint16) (uint32, []byte) {
	crc := crc32.ChecksumIEEE(b)
	if method != zip.Deflate {
		return crc, b
	}
	var buf bytes.Buffer
	w, _ := flate.NewWriter(&buf, 6)
	w.Write(b)
	w.Close()
	return crc, buf.Bytes()
}

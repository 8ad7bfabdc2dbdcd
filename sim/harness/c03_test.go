package harness

import (
	"archive/zip"
	"bytes"
	"context"
	"fmt"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
)

func init() { scenarios["C03"] = c03 }

// layout tells where a package keeps what.
type layout struct {
	data []byte
	meta [][2]int // directory, content types and relationships
	part [][2]int // data of model and attachment parts
}

func layoutOf(b []byte) (layout, bool) {
	l := layout{data: b}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return l, false
	}
	end := 0
	for _, f := range zr.File {
		off, err := f.DataOffset()
		if err != nil {
			return l, false
		}
		r := [2]int{int(off), int(off) + int(f.CompressedSize64)}
		if isPart(f.Name) {
			l.part = append(l.part, r)
		} else {
			l.meta = append(l.meta, r)
		}
		if r[1] > end {
			end = r[1]
		}
	}
	l.meta = append(l.meta, [2]int{end, len(b)})
	return l, true
}

// intact reports whether b is the package up to the data of its parts.
func (l layout) intact(b []byte) bool {
	if len(b) != len(l.data) {
		return false
	}
	for _, r := range l.meta {
		if !bytes.Equal(b[r[0]:r[1]], l.data[r[0]:r[1]]) {
			return false
		}
	}
	return true
}

// c03: what a crash or truncation leaves never loads as a partial model.
func c03(c *Case) {
	o := GenOpt{MaxChilds: 3, Small: c.W.Chance(1, 3)}
	if c.W.Chance(1, 3) {
		o.MaxBig = 600
	}
	g, pkg, ps, ok := c.genPackage(o)
	if !ok {
		return
	}
	lay, ok := layoutOf(pkg)
	if !ok {
		c.Tag("skipped: the package cannot be read")
		return
	}
	wants := []Canon{g.WantCanon()}
	lays := []layout{lay}
	strict := false // whatever is damaged, success means the full model
	var data []byte
	r := rng{uint64(c.F.Draw(1 << 30))}
	mode := c.F.Draw(7)
	switch mode {
	case 0: // truncated package
		n := c.F.Draw(len(pkg) + 1)
		if c.F.Chance(1, 3) {
			n = len(pkg) - c.F.Draw(200)
		}
		if n < 0 {
			n = 0
		}
		data = pkg[:n]
		strict = true
		fired(fkTruncate)
		c.Note("the package is truncated to %d of %d bytes", n, len(pkg))
	case 1, 2: // crash while saving
		data = c.crash(g, pkg, &wants, &lays)
		if data == nil {
			return
		}
	case 3: // damaged stored data
		data = append([]byte(nil), pkg...)
		for i, n := 0, 1+c.F.Draw(2); i < n; i++ {
			p := lay.part[c.F.Draw(len(lay.part))]
			k := damage(data[p[0]:p[1]], c.F.Draw(4), c.F.Draw(1<<20), c.F.Draw(1<<20), &r)
			c.Note("stored bytes %d to %d: %s", p[0], p[1], k)
		}
		fired(fkLost)
		strict = true
	case 4: // parts whose decompressed data is damaged
		p, b := shapedPack(ps, c.W)
		_ = p
		data = b
		for i, n := 0, 1+c.F.Draw(2); i < n; i++ {
			k := c.F.Draw(nparts)
			s := partProto(k)
			if c.F.Chance(1, 2) {
				s.limit = c.F.Draw(len(s.data) + 1)
				if s.limit == len(s.data) {
					s.limit = -1
				}
				c.Note("%s ends at byte %d of %d", partName(k), s.limit, len(s.data))
				continue
			}
			d := append([]byte(nil), s.data...)
			w := damage(d, c.F.Draw(5), c.F.Draw(1<<20), c.F.Draw(1<<20), &r)
			s.data = d
			fired(fkLost)
			c.Note("%s: %s", partName(k), w)
		}
		strict = true
	case 5, 6: // a sound package that holds a model document which ends early
		ps := cloneParts(ps)
		var models []int
		for i, p := range ps {
			if isModel(p.Name) && bytes.Contains(p.Data, []byte("<model")) {
				models = append(models, i)
			}
		}
		if len(models) == 0 {
			c.Tag("skipped: no model part")
			return
		}
		p := &ps[models[c.F.Draw(len(models))]]
		// What ends before the root element is an empty document, which
		// the package accepts.
		lo := bytes.Index(p.Data, []byte("<model")) + 1
		n := lo + c.F.Draw(len(p.Data)-lo)
		switch c.F.Draw(4) {
		case 0:
			if n = len(p.Data) - 1 - c.F.Draw(120); n < lo {
				n = lo
			}
		case 1: // between two elements
			if i := bytes.IndexByte(p.Data[n:len(p.Data)-1], '>'); i >= 0 {
				n += i + 1
			}
		case 2: // between two parts of the model
			for k, tags := 0, []string{"<build", "<resources", "</resources>", "<object ", "</build>"}; k < len(tags); k++ {
				if i := bytes.LastIndex(p.Data, []byte(tags[(k+n)%len(tags)])); i > lo {
					n = i
					break
				}
			}
		}
		c.Note("the document of %s ends at byte %d of %d", p.Name, n, len(p.Data))
		p.Data = p.Data[:n]
		fired(fkTruncate)
		_, data = shapedPack(ps, c.W)
		strict = true
	}
	m := new(go3mf.Model)
	var err error
	lenient := c.F.Chance(1, 4)
	src := newReaderAt(data).shape(c.W)
	c.tolerate = mode == 1 || mode == 2
	res := c.Sim("decode", func() {
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = !lenient
		err = d.DecodeContext(context.Background(), m)
	})
	if len(res.Panics) > 0 {
		c.Tag("panic")
		for _, p := range res.Panics {
			if c.tolerate {
				c.panicked(p)
			}
		}
		return
	}
	if err != nil {
		c.Tag("damage reported")
		return
	}
	got := canon(m, nil)
	d := ""
	for i, w := range wants {
		if e := diffCanon(w, got); e == "" {
			c.Tag([]string{"complete model", "complete earlier model"}[i])
			return
		} else if i == 0 {
			d = e
		}
	}
	for _, l := range lays {
		strict = strict || l.intact(data)
	}
	if !strict {
		c.Tag("packaging metadata damaged: not judged")
		return
	}
	c.Fail(fmt.Sprintf("C03:partial:%s", diffClass(d)), "decoding what the damage left reports success with a model that was never saved: %s", d)
}

// damage changes bytes in one of several ways.
func damage(b []byte, kind, at, n int, r *rng) string {
	if len(b) == 0 {
		return "empty"
	}
	at %= len(b)
	n = 1 + n%len(b)
	if n > 700 {
		n = 1 + n%512
	}
	if at+n > len(b) {
		n = len(b) - at
	}
	switch kind {
	case 0:
		for i := at; i < at+n; i++ {
			b[i] = 0
		}
		return fmt.Sprintf("%d bytes at %d are zero", n, at)
	case 1:
		b[at] ^= 1 << uint(r.n(8))
		return fmt.Sprintf("one bit at %d is flipped", at)
	case 2:
		src := r.n(len(b) - n + 1)
		copy(b[at:at+n], append([]byte(nil), b[src:src+n]...))
		return fmt.Sprintf("%d bytes at %d are a copy of those at %d", n, at, src)
	case 3:
		for i := at; i < at+n; i++ {
			b[i] = byte(r.next())
		}
		return fmt.Sprintf("%d bytes at %d are random", n, at)
	}
	// a digit becomes another digit, so that the text stays well-formed
	for i := 0; i < len(b); i++ {
		j := (at + i) % len(b)
		if b[j] >= '1' && b[j] <= '8' {
			b[j]++
			return fmt.Sprintf("the digit at %d is another", j)
		}
	}
	return "unchanged"
}

// crash saves the model to a simulated file, crashes, and returns what is left.
func (c *Case) crash(g *Gen, pkg []byte, wants *[]Canon, lays *[]layout) []byte {
	disk := simos.NewDisk([]int{512, 512, 4096}[c.F.Draw(3)])
	simos.Install(disk)
	if c.W.Chance(1, 4) { // over an earlier package
		g2 := genModel(c.W, GenOpt{MaxChilds: 2, Small: true})
		if old, ok := c.encodePlain(g2); ok {
			if l, ok := layoutOf(old); ok {
				disk.Put("/out.3mf", old)
				*wants = append(*wants, g2.WantCanon())
				*lays = append(*lays, l)
				c.Note("the file holds an earlier package of %d bytes", len(old))
			}
		}
	}
	x := newInput(g, c.W)
	at := -1
	if c.F.Chance(1, 2) {
		at = c.F.Draw(4 + len(pkg)/4096)
	}
	n := 0
	var snap *simos.Disk
	disk.Fail = func(op simos.Op) (int, error) {
		if n == at {
			snap = disk.Snapshot()
		}
		n++
		return -1, nil
	}
	var err error
	r := c.Sim("encode", func() {
		var w *go3mf.WriteCloser
		if w, err = go3mf.CreateWriter("/out.3mf"); err != nil {
			return
		}
		w.FloatPrecision = g.Prec
		err = w.Encode(x.m)
		if e := w.Close(); err == nil {
			err = e
		}
	})
	if len(r.Panics) > 0 || err != nil {
		c.Tag("skipped: the model could not be saved")
		return nil
	}
	when := fmt.Sprintf("before disk operation %d of %d", at, n)
	if snap == nil {
		snap = disk.Snapshot()
		when = "after saving"
	}
	if b, ok := disk.Get("/out.3mf"); ok { // map orders may differ from the first package
		if l, ok := layoutOf(b); ok {
			(*lays)[0] = l
		}
	}
	fired(fkCrash)
	rr := rng{uint64(c.F.Draw(1 << 30))}
	pct := []int{100, 97, 90, 50, 10, 0}[c.F.Draw(6)]
	full := c.F.Chance(2, 3)
	lost, cut := snap.Crash("/out.3mf", func(int) bool { return rr.n(100) < pct }, func(durable, current int) int {
		if full {
			return current
		}
		a, b := durable, current
		if a > b {
			a, b = b, a
		}
		return a + rr.n(b-a+1)
	})
	if len(lost) > 0 {
		fired(fkLost)
	}
	if cut >= 0 {
		fired(fkTruncate)
	}
	left, ok := snap.Get("/out.3mf")
	if !ok {
		left = []byte{}
	}
	c.Note("crash %s: %d sectors lost, file of %d bytes", when, len(lost), len(left))
	return left
}

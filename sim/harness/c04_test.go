package harness

import (
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
)

func init() { scenarios["C04"] = c04 }

// genPackage makes a model, its package and the parts of it.
func (c *Case) genPackage(o GenOpt) (*Gen, []byte, []Part, bool) {
	g := genModel(c.W, o)
	c.describe(g)
	pkg, ok := c.encodePlain(g)
	if !ok {
		return nil, nil, nil, false
	}
	ps, err := unpack(pkg)
	if err != nil {
		c.Tag("skipped: the package cannot be unpacked")
		return nil, nil, nil, false
	}
	return g, pkg, ps, true
}

// c04: a failed read is never reported as a loaded model.
func c04(c *Case) {
	o := GenOpt{MaxChilds: 4, Small: c.W.Chance(1, 2)}
	if c.W.Chance(1, 4) {
		o.MaxBig = 800
	}
	g, pkg, ps, ok := c.genPackage(o)
	if !ok {
		return
	}
	var src *readerAt
	disk := simos.NewDisk(512)
	simos.Install(disk)
	data := pkg
	how := c.W.Draw(3)
	strict := !c.F.Chance(1, 5)
	ferr := []error{errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, errors.New("input/output error")}[c.F.Draw(4)]
	persist, partial := c.F.Chance(1, 2), c.F.Chance(1, 2)
	switch how {
	case 1: // part streams fail
		var p *Pack
		p, data = shapedPack(ps, c.W)
		src = newReaderAt(data).shape(c.W)
		for i, n := 0, 1+c.F.Draw(2); i < n; i++ {
			k := c.F.Draw(nparts)
			s := partProto(k)
			name := partName(k)
			if c.F.Chance(1, 8) {
				save := savePartsState()
				p.Method = map[string]uint16{name: methodUnknown}
				data = p.Build()
				restorePartsState(save)
				src = newReaderAt(data).shape(c.W)
				fired(fkOpenPart)
				c.Note("%s cannot be opened", name)
				continue
			}
			s.failAt, s.failErr, s.once, s.withData = c.F.Draw(len(s.data)+1), ferr, !persist, partial
			if isModel(name) && c.F.Chance(1, 6) {
				s.stall = true
			}
			c.Note("%s fails at byte %d of %d (once: %v, with data: %v, stalls: %v): %v", name, s.failAt, len(s.data), s.once, s.withData, s.stall, ferr)
		}
	case 0, 2: // the source fails
		src = newReaderAt(data).shape(c.W)
		src.err, src.persist, src.partial = ferr, persist, partial
		lo := c.F.Draw(len(data))
		if c.F.Chance(1, 3) {
			lo = len(data) - 1 - c.F.Draw(1+len(data)/8)
		}
		byOp := c.F.Chance(1, 2)
		op := c.F.Draw(24)
		if byOp {
			src.failOp = op
			c.Note("read %d of the source fails (once: %v, partial: %v): %v", op, !persist, partial, ferr)
		} else {
			src.failLo, src.failHi = lo, lo+1+c.F.Draw(600)
			c.Note("bytes %d to %d of %d cannot be read (once: %v, partial: %v): %v", src.failLo, src.failHi, len(data), !persist, partial, ferr)
		}
		if how == 2 {
			disk.Put("/in.3mf", pkg)
			bad := c.F.Draw(5)
			n := 0
			disk.Fail = func(o simos.Op) (int, error) {
				switch {
				case bad == 1 && o.Kind == "open":
					fired(fkDiskOpen)
					return -1, ferr
				case bad == 2 && o.Kind == "stat":
					fired(fkDiskStat)
					return -1, ferr
				case bad == 3 && o.Kind == "close":
					fired(fkDiskClose)
					return -1, ferr
				case o.Kind == "read":
					n++
					hit := false
					if byOp {
						hit = n == op+1 || persist && n > op
					} else if int(o.Off) < src.failHi && int(o.Off)+o.Len > src.failLo {
						hit = true
						if !persist {
							src.failHi = 0
						}
					}
					if hit {
						fired(fkDiskRead)
						if partial {
							return o.Len / 3, ferr
						}
						return 0, ferr
					}
				}
				return -1, nil
			}
		}
	}
	want := g.WantCanon()
	m := new(go3mf.Model)
	var err error
	before := firedTotal()
	r := c.Sim("decode", func() {
		if how == 2 {
			var f *go3mf.ReadCloser
			if f, err = go3mf.OpenReader("/in.3mf"); err != nil {
				return
			}
			f.Strict = strict
			err = f.Decode(m)
			f.Close()
			return
		}
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = strict
		err = d.DecodeContext(context.Background(), m)
	})
	if len(r.Panics) > 0 {
		return
	}
	hit := firedTotal() > before
	if err == nil {
		if d := diffCanon(want, canon(m, nil)); d != "" {
			c.Fail("C04:partial:"+diffClass(d), "%s but decoding reports success with an incomplete model: %s", map[bool]string{true: "a read failed", false: "nothing failed"}[hit], d)
			return
		}
		c.Tag(fmt.Sprintf("complete model (a read failed: %v)", hit))
		return
	}
	if !hit && firedTotal() == 0 {
		c.Fail("C04:error", "nothing failed but decoding reports %s", short(err))
		return
	}
	c.Tag("failure reported")
}

//go:norace
func partName(i int) string { return parts[i].name }

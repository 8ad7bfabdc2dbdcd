package harness

import (
	"context"
	"fmt"
	"io"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
)

func init() { scenarios["C16"] = c16 }

// attempt is one decode of a sequence and what goes wrong during it.
type attempt struct {
	kind   int
	what   string
	strict bool
	fresh  bool // with a new decoder
	dirty  bool // into the model of the attempt before
	k      *canceller
	start  func()
	part   int
	at     int
	once   bool
	data   bool
	op     int
	lo, hi int
	doc    []byte
}

//go:norace
func resetStreams(clean []stream) {
	for i := 0; i < nparts; i++ {
		parts[i].proto = clean[i]
	}
	partsRewind()
}

//go:norace
func cleanStreams() []stream {
	out := make([]stream, nparts)
	for i := range out {
		out[i] = parts[i].proto
	}
	return out
}

//go:norace
func setStream(i int, s stream) { parts[i].proto = s }

// c16: a decoder can be retried.
func c16(c *Case) {
	o := GenOpt{MaxChilds: 4, Small: true}
	if c.W.Chance(1, 6) {
		o.MaxBig = 1200
	}
	g, pkg, ps, ok := c.genPackage(o)
	if !ok {
		return
	}
	onDisk := c.W.Chance(1, 4)
	data := pkg
	var clean []stream
	names := modelEntries(g)
	if !onDisk {
		_, data = shapedPack(ps, c.W)
		clean = cleanStreams()
	} else {
		partsReset()
	}
	src := newReaderAt(data).shape(c.W)
	disk := simos.NewDisk(512)
	simos.Install(disk)
	disk.Put("/in.3mf", data)
	n := 1 + c.F.Draw(4)
	plan := make([]*attempt, n+1)
	for i := range plan {
		a := &attempt{strict: !c.F.Chance(1, 4), fresh: c.F.Chance(1, 4), what: "nothing goes wrong"}
		plan[i] = a
		if i == n { // the fault is gone
			break
		}
		a.dirty = c.F.Chance(1, 3)
		a.kind = c.F.Draw(6)
		if onDisk && (a.kind == 1 || a.kind == 4) {
			a.kind = 3
		}
		switch a.kind {
		case 1: // a part cannot be read
			a.part = c.F.Draw(len(clean))
			s := clean[a.part]
			a.at, a.once, a.data = c.F.Draw(len(s.data)+1), c.F.Chance(1, 2), c.F.Chance(1, 2)
			a.what = fmt.Sprintf("%s fails at byte %d of %d", partName(a.part), a.at, len(s.data))
		case 2:
			a.k = &canceller{count: func() []int { return nil }}
			pick := func() *stream {
				s := new(stream)
				if len(clean) == 0 {
					*s = *newStream(data)
					return s
				}
				a.part = c.F.Draw(len(clean))
				*s = clean[a.part]
				return s
			}
			var picked *stream
			a.start = c.cancelPlan(a.k, func() *stream { picked = pick(); return picked })
			a.what = "cancelled"
			if picked != nil {
				a.at = picked.hookAt
			}
		case 3: // the source fails
			a.op, a.once, a.data = c.F.Draw(30), c.F.Chance(1, 2), c.F.Chance(1, 2)
			if c.F.Chance(1, 2) {
				a.op = -1
				a.lo = c.F.Draw(len(data))
				a.hi = a.lo + 1 + c.F.Draw(600)
			}
			a.what = fmt.Sprintf("the source fails at operation %d or at bytes %d to %d (once: %v)", a.op, a.lo, a.hi, a.once)
		case 4: // a model part reads as garbage
			a.part = -1
			nm := names[c.F.Draw(len(names))]
			for i := range clean {
				if partName(i) == nm {
					a.part = i
				}
			}
			if c.F.Chance(1, 2) {
				a.doc, _ = mutateXML(c.F, clean[a.part].data, 1+c.F.Draw(4))
			} else {
				a.doc = breakXML(clean[a.part].data, c.F.Draw(1000))
			}
			a.what = "damaged data in " + nm
		}
	}
	for i, a := range plan {
		c.Note("attempt %d: %s (strict: %v, new decoder: %v)", i, a.what, a.strict, a.fresh)
	}
	// the sequence
	errs := make([]error, len(plan))
	models := make([]*go3mf.Model, len(plan))
	hits := make([]bool, len(plan))
	count := 0
	disk.Fail = func(op simos.Op) (int, error) {
		if op.Kind != "read" {
			return -1, nil
		}
		a := plan[count]
		if a.kind != 3 {
			return -1, nil
		}
		hit := false
		if a.op >= 0 {
			hit = a.op == 0 || a.op < 0
			if a.op > 0 {
				a.op--
			} else if a.once {
				a.op = 1 << 30
			}
		} else if int(op.Off) < a.hi && int(op.Off)+op.Len > a.lo {
			hit = true
			if a.once {
				a.hi = 0
			}
		}
		if !hit {
			return -1, nil
		}
		fired(fkDiskRead)
		if a.data {
			return op.Len / 3, simos.ErrIO
		}
		return 0, simos.ErrIO
	}
	r := c.Sim("attempts", func() {
		var d *go3mf.Decoder
		var f *go3mf.ReadCloser
		var m *go3mf.Model
		for i, a := range plan {
			count = i
			if !onDisk {
				resetStreams(clean)
				src.failOp, src.failLo, src.failHi = -1, 0, 0
				src.n = 0
				switch a.kind {
				case 1:
					s := clean[a.part]
					s.failAt, s.once, s.withData = a.at, a.once, a.data
					setStream(a.part, s)
				case 3:
					src.failOp, src.failLo, src.failHi, src.persist, src.partial = a.op, a.lo, a.hi, !a.once, a.data
				case 4:
					s := clean[a.part]
					s.data = a.doc
					setStream(a.part, s)
					fired(fkBadPart)
				}
			}
			before := firedTotal()
			ctx := context.Background()
			if a.k != nil {
				if a.k.how == 1 && !onDisk {
					s := clean[a.part]
					s.hookAt = a.at
					k := a.k
					s.hook = func() { k.now(fkCancel) }
					setStream(a.part, s)
				}
				a.start()
				ctx = a.k.ctx
			}
			switch {
			case onDisk:
				if f == nil || a.fresh {
					if f != nil {
						f.Close()
					}
					if f, errs[i] = go3mf.OpenReader("/in.3mf"); errs[i] != nil {
						f = nil
						continue
					}
				}
				d = &f.Decoder
			case d == nil || a.fresh:
				d = go3mf.NewDecoder(src, int64(len(data)))
			}
			if m == nil || !a.dirty || i == n {
				m = new(go3mf.Model)
			}
			models[i] = m
			d.Strict = a.strict
			errs[i] = d.DecodeContext(ctx, m)
			if a.k != nil {
				a.k.end()
			}
			hits[i] = firedTotal() > before
		}
		if f != nil {
			f.Close()
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	want := g.WantCanon()
	failed := 0
	for i, a := range plan {
		last := i == n
		if errs[i] != nil {
			failed++
			if last || a.kind == 0 || !hits[i] && a.kind != 4 {
				c.Fail("C16:error", "attempt %d, in which nothing goes wrong, reports %s (after %d failed ones)", i, short(errs[i]), failed-1)
				return
			}
			continue
		}
		if a.kind == 4 || !last && (a.dirty || plan[i+1].dirty) {
			continue
		}
		if d := diffCanon(want, canon(models[i], nil)); d != "" {
			c.Fail("C16:differs:"+diffClass(d), "attempt %d (%s) reports success with another model than a first decode (after %d failed attempts): %s", i, a.what, failed, d)
			return
		}
	}
	c.Tag(fmt.Sprintf("complete after %d failed attempts", failed))
}

var _ = io.EOF

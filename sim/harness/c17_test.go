package harness

import (
	"context"
	"fmt"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"verifsim/simos"
)

func init() { scenarios["C17"] = c17 }

// leaks tells what is wrong with the part streams opened so far.
//
//go:norace
func leaks() (string, string) {
	for i := 0; i < nparts; i++ {
		p := &parts[i]
		for j := 0; j < p.nlive; j++ {
			s := p.live[j]
			if s.afterEnd > 0 {
				return "used-after-close", p.name + " is read after it was closed"
			}
			if s.closes == 0 {
				return "stream", fmt.Sprintf("the stream of %s, read up to byte %d of %d, is not closed", p.name, s.off, len(s.data))
			}
		}
	}
	return "", ""
}

//go:norace
func partsOpened() int {
	n := 0
	for i := 0; i < nparts; i++ {
		n += parts[i].opens
	}
	return n
}

func (c *Case) outcome(err error) string {
	if err != nil {
		return "failed"
	}
	return "succeeded"
}

// c17: everything is released on every outcome.
func c17(c *Case) {
	switch c.W.Draw(6) {
	case 4:
		c17read(c)
	case 5:
		c17write(c)
	default:
		c17decode(c)
	}
}

// c17decode decodes from part streams that are watched.
func c17decode(c *Case) {
	o := GenOpt{MaxChilds: 4, Small: true}
	if c.W.Chance(1, 6) {
		o.MaxBig = 1200
	}
	_, _, ps, ok := c.genPackage(o)
	if !ok {
		return
	}
	strict := c.F.Chance(2, 3)
	mode := c.F.Draw(7)
	ps = cloneParts(ps)
	if mode == 3 || mode == 6 {
		for i := range ps {
			if isModel(ps[i].Name) && (mode == 3 || c.F.Chance(1, 2)) {
				what := ""
				if c.F.Chance(1, 3) {
					ps[i].Data = breakXML(ps[i].Data, c.F.Draw(1000))
					what = "malformed"
				} else {
					ps[i].Data, what = mutateXML(c.F, ps[i].Data, 1+c.F.Draw(3))
				}
				c.Note("%s: %s", ps[i].Name, what)
				fired(fkMutate)
			}
		}
	}
	p, data := shapedPack(ps, c.W)
	if mode == 5 {
		var nm []string
		for i := 0; i < nparts; i++ {
			nm = append(nm, partName(i))
		}
		n := nm[c.F.Draw(len(nm))]
		save := savePartsState()
		p.Method = map[string]uint16{n: methodUnknown}
		data = p.Build()
		restorePartsState(save)
		fired(fkOpenPart)
		c.Note("%s cannot be opened", n)
	}
	src := newReaderAt(data).shape(c.W)
	var k *canceller
	start := func() {}
	switch mode {
	case 1, 6:
		for i, n := 0, 1+c.F.Draw(3); i < n; i++ {
			s := partProto(c.F.Draw(nparts))
			s.failAt, s.once, s.withData = c.F.Draw(len(s.data)+1), c.F.Chance(1, 2), c.F.Chance(1, 2)
			c.Note("stream %d fails at %d of %d", s.idx, s.failAt, len(s.data))
		}
	case 2:
		k = &canceller{count: func() []int { return nil }}
		start = c.cancelPlan(k, func() *stream { return partProto(c.F.Draw(nparts)) })
	case 4:
		src.failOp, src.persist, src.partial = c.F.Draw(30), c.F.Chance(1, 2), c.F.Chance(1, 2)
		c.Note("read %d of the source fails", src.failOp)
	}
	again := c.F.Chance(1, 4)
	var err error
	left := 0
	kind, what := "", ""
	nopen := 0
	r := c.Sim("decode", func() {
		ctx := context.Background()
		if k != nil {
			start()
			ctx = k.ctx
		}
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = strict
		for i := 0; i < 2; i++ {
			err = d.DecodeContext(ctx, new(go3mf.Model))
			kind, what = leaks()
			left = countTasks()
			nopen += partsOpened()
			if left > 0 || kind != "" || !again {
				break
			}
			partsRewind()
		}
		if k != nil {
			k.end()
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	if left > 0 {
		c.Fail("C17:goroutines", "%d goroutines are still running when the decode returns (%s)", left, short(err))
		return
	}
	if kind != "" {
		c.Fail("C17:"+kind, "the decode %s (%s) but %s", c.outcome(err), short(err), what)
		return
	}
	// whatever still ran after that
	if kind, what = leaks(); kind != "" {
		c.Fail("C17:"+kind, "after the decode returned (%s), %s", short(err), what)
		return
	}
	c.Tag("decode " + c.outcome(err))
	c.Tags["part streams opened"] += nopen
}

// diskTrouble tells what is wrong with the handles of the disk.
func diskTrouble(d *simos.Disk) (string, string) {
	if len(d.Misuse) > 0 {
		return "misuse", d.Misuse[0]
	}
	if d.Open != 0 {
		return "handle", fmt.Sprintf("%d of %d handles are open", d.Open, d.Opened)
	}
	return "", ""
}

// c17read opens, decodes and closes files.
func c17read(c *Case) {
	_, pkg, _, ok := c.genPackage(GenOpt{MaxChilds: 2, Small: true})
	if !ok {
		return
	}
	disk := simos.NewDisk(512)
	simos.Install(disk)
	data := append([]byte(nil), pkg...)
	if c.F.Chance(1, 4) {
		data = data[:c.F.Draw(len(data)+1)]
		fired(fkTruncate)
	}
	disk.Put("/in.3mf", data)
	fail := c.F.Draw(6)
	op := c.F.Draw(20)
	name := "/in.3mf"
	if fail == 5 {
		name = "/missing.3mf"
	}
	n := 0
	hit := fail == 5
	disk.Fail = func(o simos.Op) (int, error) {
		switch {
		case fail == 1 && o.Kind == "open":
			hit = true
			fired(fkDiskOpen)
			return -1, simos.ErrIO
		case fail == 2 && (o.Kind == "stat" || o.Kind == "seek"): // what finds the size
			hit = true
			fired(fkDiskStat)
			return -1, simos.ErrIO
		case fail == 3 && o.Kind == "close":
			hit = true
			fired(fkDiskClose)
			return -1, simos.ErrIO
		case o.Kind == "read":
			if n++; fail == 4 && n > op {
				fired(fkDiskRead)
				return 0, simos.ErrIO
			}
		}
		return -1, nil
	}
	c.Note("disk fault: %s", []string{"none", "open fails", "stat fails", "close fails", "reads fail", "no such file"}[fail])
	var oerr, derr, cerr error
	left := 0
	kind, what := "", ""
	early := c.F.Chance(1, 6) // closed without a decode
	r := c.Sim("read", func() {
		var f *go3mf.ReadCloser
		if f, oerr = go3mf.OpenReader(name); oerr != nil {
			kind, what = diskTrouble(disk)
			return
		}
		if disk.Open != 1 {
			kind, what = "handle", fmt.Sprintf("%d handles are open after a successful open", disk.Open)
		}
		if !early {
			derr = f.Decode(new(go3mf.Model))
			if disk.Open != 1 && kind == "" {
				kind, what = "handle", "the decode closed the file"
			}
			left = countTasks()
		}
		cerr = f.Close()
		if kind == "" {
			kind, what = diskTrouble(disk)
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	if left > 0 {
		c.Fail("C17:goroutines", "%d goroutines are still running when the decode returns (%s)", left, short(derr))
		return
	}
	if kind != "" {
		c.Fail("C17:file-"+kind, "opening reported %s, decoding %s and closing %s: %s", short(oerr), short(derr), short(cerr), what)
		return
	}
	switch {
	case !hit:
	case fail == 1 || fail == 2 || fail == 5:
		if oerr == nil && derr == nil {
			c.Fail("C17:open-unreported", "a file that cannot be opened or inspected is reported as opened")
			return
		}
	case fail == 3:
		if oerr == nil && cerr == nil {
			c.Fail("C17:close-unreported", "a failing close is not reported")
			return
		}
	}
	c.Tag("file read")
}

// c17write creates, encodes and closes files, and imports STL.
func c17write(c *Case) {
	if c.W.Chance(1, 4) {
		f := genSTL(c.W, 6, 300)
		s := newStream(f.data).shape(c.W)
		if c.F.Chance(1, 2) {
			s.failAt = c.F.Draw(len(f.data))
		}
		left := 0
		var err error
		r := c.Sim("import", func() {
			err = stl.NewDecoder(s).DecodeContext(context.Background(), new(go3mf.Model))
			left = countTasks()
		})
		if len(r.Panics) > 0 {
			return
		}
		if left > 0 {
			c.Fail("C17:goroutines", "%d goroutines are still running when the import returns (%s)", left, short(err))
			return
		}
		c.Tag("import " + c.outcome(err))
		return
	}
	g := genModel(c.W, GenOpt{MaxChilds: 2, Small: true})
	x := newInput(g, c.W)
	disk := simos.NewDisk(512)
	simos.Install(disk)
	fail := c.F.Draw(5)
	op := c.F.Draw(20)
	if fail == 4 && len(x.atts) > 0 {
		s := x.atts[c.F.Draw(len(x.atts))]
		s.failAt = c.F.Draw(len(s.data) + 1)
	}
	n := 0
	hit := false
	disk.Fail = func(o simos.Op) (int, error) {
		switch {
		case fail == 1 && o.Kind == "create":
			hit = true
			fired(fkDiskCreate)
			return -1, simos.ErrIO
		case fail == 2 && o.Kind == "write":
			if n++; n > op {
				fired(fkDiskWrite)
				return 0, simos.ErrNoSpace
			}
		case fail == 3 && o.Kind == "close":
			hit = true
			fired(fkDiskClose)
			return -1, simos.ErrIO
		}
		return -1, nil
	}
	var oerr, eerr, cerr error
	left := 0
	kind, what := "", ""
	r := c.Sim("write", func() {
		var f *go3mf.WriteCloser
		if f, oerr = go3mf.CreateWriter("/out.3mf"); oerr != nil {
			kind, what = diskTrouble(disk)
			return
		}
		eerr = f.Encode(x.m)
		if disk.Open != 1 {
			kind, what = "handle", fmt.Sprintf("%d handles are open after the encoding", disk.Open)
		}
		left = countTasks()
		cerr = f.Close()
		if kind == "" {
			kind, what = diskTrouble(disk)
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	if left > 0 {
		c.Fail("C17:goroutines", "%d goroutines are still running when the encoding returns (%s)", left, short(eerr))
		return
	}
	if kind != "" {
		c.Fail("C17:file-"+kind, "creating reported %s, encoding %s and closing %s: %s", short(oerr), short(eerr), short(cerr), what)
		return
	}
	if hit && (fail == 1 && oerr == nil || fail == 3 && oerr == nil && cerr == nil) {
		c.Fail("C17:close-unreported", "a failing create or close is not reported")
		return
	}
	c.Tag("file written, encoding " + c.outcome(eerr))
}

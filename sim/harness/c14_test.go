package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"unsafe"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"verifsim/simrt"
)

func init() { scenarios["C14"] = c14 }

// soloOp is an operation on a model and streams of its own. Every run of it
// starts from fresh copies of the same streams.
type soloOp struct {
	kind   string
	run    func(ctx context.Context) soloResult
	cancel bool
	// how it is told to stop
	k     *canceller
	start func()
}

type soloResult struct {
	err   error
	lines result
	want  func() string // the difference to a complete result
	model *go3mf.Model  // a decoded model, compared in canonical form
}

// stallKey is what a stalled stream waits for.
var (
	stallKey  int
	othersOut bool
)

//go:norace
func waitOthers() {
	for !othersOut {
		simrt.Block(unsafe.Pointer(&stallKey))
	}
}

//go:norace
func releaseStalled() {
	othersOut = true
	simrt.Wake(unsafe.Pointer(&stallKey))
}

//go:norace
func armStall(on bool) { othersOut = !on }

func dup(s *stream) *stream {
	c := *s
	return &c
}

// soloErr is the failure injected into one operation.
type soloErr struct{ n int }

func (e *soloErr) Error() string { return fmt.Sprintf("failure of operation %d", e.n) }

// soloOp draws an operation; mode 0: nothing special, 1: it fails, 2: it is
// cancelled, 3: one of its streams stalls until all the others are done.
func (c *Case) soloOp(n, mode int) *soloOp {
	o := &soloOp{}
	bad := &soloErr{n}
	kind := c.W.Draw(5)
	if mode == 2 && kind != 0 && kind != 3 {
		kind = 0
	}
	switch kind {
	case 0: // decode
		g := genModel(c.W, GenOpt{MaxChilds: 3, Small: true, NoAtt: c.W.Chance(1, 2)})
		pkg, ok := c.encodePlain(g)
		if !ok {
			return nil
		}
		ps, err := unpack(pkg)
		if err != nil {
			return nil
		}
		o.kind = "decode"
		strict := !c.F.Chance(1, 3)
		p := &Pack{Parts: ps, Sim: isPart, Order: perm(c.W), Keep: true, Method: map[string]uint16{}}
		names := modelEntries(g)
		name := names[c.F.Draw(len(names))]
		fail := 0
		if mode == 1 {
			fail = 1 + c.F.Draw(4)
			pt := partOf(ps, name)
			switch fail {
			case 1:
				pt.Data = breakXML(pt.Data, c.F.Draw(1000))
				fired(fkBadPart)
			case 2:
				pt.Data = badValue(pt.Data, fmt.Sprintf("%s-%d", name, n))
				fired(fkBadPart)
			case 3:
				p.Method[name] = methodUnknown
				fired(fkOpenPart)
			}
		}
		first := nparts
		data := p.Build()
		for i := first; i < nparts; i++ {
			partProto(i).shape(c.W)
		}
		if fail == 4 {
			s := p.Ctl(name)
			s.failErr, s.failAt, s.withData = bad, c.F.Draw(len(s.data)+1), c.F.Chance(1, 2)
		}
		if mode == 3 {
			s := p.Ctl(name)
			s.hookAt, s.hook = c.F.Draw(len(s.data)+1), waitOthers
		}
		if mode == 2 {
			o.k = &canceller{count: func() []int { return nil }}
			o.start = c.cancelPlan(o.k, func() *stream { return p.Ctl(names[c.F.Draw(len(names))]) })
		}
		src := newReaderAt(data).shape(c.W)
		want := g.WantCanon()
		o.run = func(ctx context.Context) soloResult {
			r := *src
			m := new(go3mf.Model)
			d := go3mf.NewDecoder(&r, int64(len(data)))
			d.Strict = strict
			err := d.DecodeContext(ctx, m)
			return soloResult{err: err, model: m, lines: errorResult(err), want: func() string { return diffCanon(want, canon(m, nil)) }}
		}
		o.kind += []string{"", " of malformed XML", " of an invalid value", " with an unreadable part", " with a failing part"}[fail]
	case 1: // encode
		g := genModel(c.W, GenOpt{MaxChilds: 2, Small: true})
		o.kind = "encode"
		proto := newInput(g, c.W)
		w := newWriter().shape(c.W)
		if mode == 1 {
			w.err = bad
			w.failAt = c.F.Draw(600) // every package is longer, whatever its map orders
			w.short = c.F.Chance(1, 2)
			if k := len(proto.atts); k > 0 && c.F.Chance(1, 2) {
				w.failAt = -1
				s := proto.atts[c.F.Draw(k)]
				s.failAt, s.failErr = c.F.Draw(len(s.data)+1), bad
			}
			o.kind += " with a failing stream"
		}
		if mode == 3 && len(proto.atts) > 0 {
			s := proto.atts[c.F.Draw(len(proto.atts))]
			s.hookAt, s.hook = c.F.Draw(len(s.data)+1), waitOthers
		}
		o.run = func(context.Context) soloResult {
			m := clone(proto.m)
			for i := range m.Attachments {
				m.Attachments[i].Stream = dup(proto.atts[i])
			}
			x := *w
			x.data = nil
			e := go3mf.NewEncoder(&x)
			e.FloatPrecision = g.Prec
			if err := e.Encode(m); err != nil {
				var out result
				out.add("fails, own failure: %v", errors.Is(err, bad))
				return soloResult{err: err, lines: out}
			}
			return soloResult{lines: packageResult(x.data, nil)}
		}
	case 2: // marshal and unmarshal
		g := genModel(c.W, GenOpt{NoAtt: true, Small: true})
		o.kind = "marshal and unmarshal"
		cut := -1
		if mode == 1 {
			cut = c.F.Draw(1000)
			o.kind += " cut short"
		}
		o.run = func(context.Context) soloResult {
			var out result
			m := clone(g.M)
			b, err := go3mf.MarshalModel(m)
			out.add("%s %v", b, err)
			if err != nil {
				return soloResult{err: err, lines: out}
			}
			if cut >= 0 {
				b = b[:len(b)*cut/1000]
			}
			got := new(go3mf.Model)
			err = go3mf.UnmarshalModel(b, got)
			out.add("%v", err)
			return soloResult{err: err, lines: out, model: got}
		}
	case 3: // STL import
		max := 60
		if mode == 2 {
			max = 3000
		}
		f := genSTL(c.W, 6, max)
		s := newStream(f.data).shape(c.W)
		o.kind = "STL import"
		switch mode {
		case 1:
			s.failAt, s.failErr, s.withData = c.F.Draw(f.need), bad, c.F.Chance(1, 2)
			o.kind += " with a failing stream"
		case 2:
			o.k = &canceller{count: func() []int { return nil }}
			o.start = c.cancelPlan(o.k, func() *stream { return s })
		case 3:
			s.hookAt, s.hook = c.F.Draw(f.need), waitOthers
		}
		o.run = func(ctx context.Context) soloResult {
			m := new(go3mf.Model)
			err := stl.NewDecoder(dup(s)).DecodeContext(ctx, m)
			var out result
			if err != nil {
				out.add("fails, own failure: %v", errors.Is(err, bad))
			}
			return soloResult{err: err, lines: out, model: m, want: func() string { return diffSTL(new(go3mf.Model), m, f) }}
		}
	case 4: // encode and decode again
		g := genModel(c.W, GenOpt{MaxChilds: 2, Small: true, NoAtt: true})
		o.kind = "encode then decode"
		strict := c.W.Chance(1, 2)
		o.run = func(ctx context.Context) soloResult {
			var b bytes.Buffer
			var out result
			e := go3mf.NewEncoder(&b)
			e.FloatPrecision = g.Prec
			m := new(go3mf.Model)
			err := e.Encode(clone(g.M))
			if err == nil {
				d := go3mf.NewDecoder(bytes.NewReader(b.Bytes()), int64(b.Len()))
				d.Strict = strict
				err = d.DecodeContext(ctx, m)
			}
			out.add("%v", err)
			return soloResult{err: err, lines: out, model: m}
		}
	}
	o.cancel = o.k != nil
	if o.cancel {
		o.kind += " being cancelled"
	}
	return o
}

// c14: independent operations do not interfere.
func c14(c *Case) {
	partsReset()
	n := 2 + c.W.Draw(4)
	ops := make([]*soloOp, 0, n)
	stalled := -1
	for i := 0; i < n; i++ {
		mode := 0
		switch c.F.Draw(6) {
		case 1, 2:
			mode = 1
		case 3:
			mode = 2
		case 4:
			if stalled < 0 {
				mode = 3
				stalled = i
			}
		}
		o := c.soloOp(i, mode)
		if o == nil {
			return
		}
		if mode == 3 {
			o.kind += " that stalls"
		}
		c.Note("operation %d: %s", i, o.kind)
		ops = append(ops, o)
	}
	// what each one gives alone
	alone := make([]soloResult, n)
	armStall(false)
	for i, o := range ops {
		if o.cancel {
			continue
		}
		save := savePartsState()
		tol := c.tolerate
		c.tolerate = true
		r := c.plain(func() { alone[i] = o.run(context.Background()) })
		c.tolerate = tol
		restorePartsState(save)
		if len(r.Panics) > 0 {
			c.Tag("skipped: " + o.kind + " panics alone")
			return
		}
	}
	got := make([]soloResult, n)
	armStall(stalled >= 0)
	left := n
	r := c.Sim("operations", func() {
		for i, o := range ops {
			i, o := i, o
			simrt.Go(fmt.Sprintf("operation %d", i), func() {
				ctx := context.Background()
				if o.cancel {
					o.start()
					ctx = o.k.ctx
				}
				got[i] = o.run(ctx)
				if o.cancel {
					o.k.end()
				}
				soloDone(&left, i == stalled)
			})
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	for i, o := range ops {
		if o.cancel {
			switch {
			case got[i].err == nil:
				if d := got[i].want(); d != "" {
					c.Fail("C14:partial:"+diffClass(d), "operation %d (%s) reports success with a partial result: %s", i, o.kind, d)
					return
				}
			case !o.k.fired:
				c.Fail("C14:foreign-cancel", "operation %d (%s) reports %s before anybody cancelled it", i, o.kind, short(got[i].err))
				return
			case !errors.Is(got[i].err, o.k.want):
				c.Fail("C14:foreign-error", "operation %d (%s) reports %s, not its own context's error", i, o.kind, short(got[i].err))
				return
			}
			c.Tag(o.kind)
			continue
		}
		a, b := alone[i], got[i]
		if (a.err == nil) != (b.err == nil) {
			c.Fail("C14:outcome:"+o.kind, "operation %d (%s) reports %s next to the others and %s alone", i, o.kind, short(b.err), short(a.err))
			return
		}
		if d := a.lines.diff(b.lines); d != "" {
			c.Fail("C14:differs:"+o.kind, "operation %d (%s) gives another result next to the others than alone: %s", i, o.kind, d)
			return
		}
		if a.model != nil && a.err == nil {
			if d := diffCanon(canon(a.model, nil), canon(b.model, nil)); d != "" {
				c.Fail("C14:differs:"+o.kind, "operation %d (%s) gives another model next to the others than alone: %s", i, o.kind, d)
				return
			}
		}
		c.Tag(o.kind)
	}
}

// soloDone counts the operations that are over, apart from a stalled one.
//
//go:norace
func soloDone(left *int, stalled bool) {
	*left--
	if *left == 1 || stalled {
		releaseStalled()
	}
}

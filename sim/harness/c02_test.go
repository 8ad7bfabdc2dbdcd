package harness

import (
	"errors"
	"io"
	"reflect"
	"strings"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
)

func init() { scenarios["C02"] = c02 }

// c02: a failed write is never reported as a saved package.
func c02(c *Case) {
	o := GenOpt{MaxChilds: 3, Small: c.W.Chance(1, 2)}
	if c.W.Chance(1, 4) {
		o.MaxBig = 800
	}
	g := genModel(c.W, o)
	c.describe(g)
	if c.W.Chance(1, 8) {
		c02names(c, g)
		return
	}
	pkg, ok := c.encodePlain(g)
	if !ok {
		return
	}
	x := newInput(g, c.W)
	dst := newWriter().shape(c.W)
	disk := simos.NewDisk(512)
	simos.Install(disk)
	toFile := c.W.Chance(1, 2)
	fails := 0
	fail := func(k int) { fails++; fired(k) }
	werr := []error{errors.New("write failure"), simos.ErrNoSpace, io.ErrShortWrite, io.ErrClosedPipe, io.EOF}[c.F.Draw(5)]
	// where the failure is
	kind := c.F.Draw(6)
	if toFile && kind == 0 {
		kind = 6 + c.F.Draw(3)
	}
	at := c.F.Draw(len(pkg) + 1)
	if c.F.Chance(1, 3) { // near the end, where the package directory is written
		at = len(pkg) - c.F.Draw(600)
	}
	if at < 0 {
		at = 0
	}
	if c.F.Chance(1, 4) {
		var fs []*func() error
		extFails(reflect.ValueOf(x.m), &fs)
		if len(fs) > 0 {
			kind = 9
			k := c.F.Draw(len(fs))
			*fs[k] = func() error { fail(fkExtension); return werr }
			c.Note("writing place %d of %d of an extension fails: %v", k, len(fs), werr)
		}
	}
	op, once, partial := c.F.Draw(40), c.F.Chance(1, 2), c.F.Chance(1, 2)
	switch kind {
	case 1, 2:
		c.Note("the destination fails at byte %d of about %d (once: %v, partial: %v): %v", at, len(pkg), once, partial, werr)
		dst.failAt, dst.once, dst.short, dst.err = at, once, partial, werr
		off := 0
		dead := false
		disk.Fail = func(op simos.Op) (int, error) {
			if op.Kind != "write" {
				return -1, nil
			}
			if dead || off+op.Len > at {
				n := at - off
				if !partial || n < 0 {
					n = 0
				}
				if once {
					at = 1 << 30
				} else {
					dead = true
				}
				off += n
				fail(fkDiskWrite)
				return n, werr
			}
			off += op.Len
			return -1, nil
		}
	case 3:
		c.Note("operation %d on the destination fails (once: %v, partial: %v): %v", op, once, partial, werr)
		dst.failOp, dst.once, dst.short, dst.err = op, once, partial, werr
		n := 0
		disk.Fail = func(o simos.Op) (int, error) {
			if o.Kind != "write" {
				return -1, nil
			}
			n++
			if n == op+1 || n > op && !once {
				fail(fkDiskWrite)
				if partial {
					return o.Len / 2, werr
				}
				return 0, werr
			}
			return -1, nil
		}
	case 4, 5:
		if len(x.atts) > 0 {
			s := x.atts[c.F.Draw(len(x.atts))]
			s.failAt, s.once, s.withData = c.F.Draw(len(s.data)+1), once, partial
			s.failErr = []error{errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe}[c.F.Draw(3)]
			c.Note("an attachment's stream fails at byte %d of %d: %v", s.failAt, len(s.data), s.failErr)
		}
	case 6, 7, 8:
		k := []string{"create", "close", "sync"}[kind-6]
		c.Note("%s fails", k)
		disk.Fail = func(op simos.Op) (int, error) {
			if op.Kind == k {
				fail([]int{fkDiskCreate, fkDiskClose, fkDiskWrite}[kind-6])
				return -1, simos.ErrIO
			}
			return -1, nil
		}
	}
	if toFile && c.W.Chance(1, 3) { // something was there before
		old := append([]byte(nil), pkg...)
		if p2, ok := c.encodePlain(genModel(c.W, GenOpt{MaxChilds: 1, Small: true})); ok {
			old = p2
		}
		switch c.W.Draw(3) {
		case 1:
			old = old[:c.W.Draw(len(old))]
		case 2: // a longer file that ends like a package
			old = append(make([]byte, 1+c.W.Draw(3000)), old...)
		}
		disk.Put("/out.3mf", old)
		c.Note("the destination file had %d bytes before", len(old))
	}
	var err error
	r := c.Sim("encode", func() {
		if toFile {
			var w *go3mf.WriteCloser
			if w, err = go3mf.CreateWriter("/out.3mf"); err != nil {
				return
			}
			w.FloatPrecision = g.Prec
			err = w.Encode(x.m)
			if e := w.Close(); err == nil {
				err = e
			}
			return
		}
		e := go3mf.NewEncoder(dst)
		e.FloatPrecision = g.Prec
		err = e.Encode(x.m)
	})
	if len(r.Panics) > 0 {
		return
	}
	fails += dst.fails
	for _, s := range x.atts {
		fails += s.fails
	}
	if fails > 0 {
		if err == nil {
			c.Fail("C02:lost-error", "%d I/O operations failed during the encoding but it reports success", fails)
			return
		}
		c.Tag("failure reported")
		return
	}
	if err != nil {
		c.Fail("C02:error", "nothing failed but the encoding reports %s", short(err))
		return
	}
	out := dst.data
	if toFile {
		out, _ = disk.Get("/out.3mf")
	}
	m, e, p := c.decodePlain(out, true)
	if e != nil || p {
		c.Fail("C02:incomplete", "the encoding reports success but the bytes written do not load: %s", short(e))
		return
	}
	if d := diffCanon(g.WantCanon(), canon(m, nil)); d != "" {
		c.Fail("C02:incomplete:"+diffClass(d), "the encoding reports success but what was written loads as another model: %s", d)
		return
	}
	c.Tag("complete package")
}

// c02names encodes a model with a part whose name the package may refuse.
func c02names(c *Case, g *Gen) {
	var used []string
	for _, p := range sortedChilds(g.M) {
		used = append(used, p)
	}
	for _, a := range g.Atts {
		if strings.HasPrefix(strings.ToLower(a.Path), "/metadata/") {
			used = append(used, a.Path)
		}
	}
	used = append(used, g.M.PathOrDefault())
	old := used[c.F.Draw(len(used))]
	near := used[c.F.Draw(len(used))]
	// Names that are accepted though in need of normalisation are left out.
	name := []string{near, near + "/x.model", "/3D", "/[Content_Types].xml", "/_rels/.rels", "/3D/_rels/x.rels", "/3D/x./y.model", "/3D/x.model.", "/3D/x%2fy.model", "/3D/x%41.model", "/", "/3D/x?y.model", "/3D/x#y.model", "/3D/a b.model", "/3D/x\\y.model", "/docProps/core.xml"}[c.F.Draw(16)]
	if name == old {
		return
	}
	rename := func(m *go3mf.Model) {
		re := func(p *string) {
			if *p == old {
				*p = name
			}
		}
		if ch, ok := m.Childs[old]; ok {
			if _, ok := m.Childs[name]; ok {
				return
			}
			delete(m.Childs, old)
			m.Childs[name] = ch
		}
		re(&m.Path)
		rels := func(rs []go3mf.Relationship) {
			for i := range rs {
				re(&rs[i].Path)
			}
		}
		rels(m.Relationships)
		rels(m.RootRelationships)
		for _, ch := range m.Childs {
			rels(ch.Relationships)
		}
	}
	rename(g.M)
	rename(g.Want)
	for i := range g.Atts {
		if g.Atts[i].Path == old {
			g.Atts[i].Path = name
		}
	}
	c.Note("the part %s is called %s", old, name)
	x := newInput(g, c.W)
	dst := newWriter()
	var err error
	r := c.Sim("encode", func() {
		e := go3mf.NewEncoder(dst)
		e.FloatPrecision = g.Prec
		err = e.Encode(x.m)
	})
	if len(r.Panics) > 0 {
		return
	}
	if err != nil {
		c.Tag("name refused")
		return
	}
	m, e, p := c.decodePlain(dst.data, true)
	if e != nil || p {
		c.Fail("C02:incomplete", "the encoding of a part called %s reports success but what was written does not load: %s", name, short(e))
		return
	}
	if d := diffCanon(g.WantCanon(), canon(m, nil)); d != "" {
		c.Fail("C02:incomplete:"+diffClass(d), "the encoding of a part called %s reports success but what was written loads as another model: %s", name, d)
		return
	}
	c.Tag("name accepted")
}

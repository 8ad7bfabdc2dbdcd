package harness

import (
	"bytes"
	"context"
	"fmt"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
)

func init() { scenarios["C01"] = c01 }

// c01: what was saved loads back as exactly the same model.
func c01(c *Case) {
	o := GenOpt{MaxChilds: 3}
	switch c.W.Draw(6) {
	case 1, 2:
		o.Small = true
	case 3:
		o.MaxBig = 400
	case 4:
		if c.W.Chance(1, 4) {
			o.MaxBig = 3000
			o.MaxChilds = 2
		}
	case 5:
		o.MaxChilds, o.Small = 8, true
	}
	o.OddNames = c.W.Chance(1, 4)
	g := genModel(c.W, o)
	c.describe(g)
	if g.Prec == 4 && c.W.Chance(1, 8) {
		c01marshal(c, g)
		return
	}
	x := newInput(g, c.W)
	dst := newWriter().shape(c.W)
	disk := simos.NewDisk(512)
	simos.Install(disk)
	toFile := c.W.Chance(1, 4)
	var err error
	r := c.Sim("encode", func() {
		if toFile {
			var w *go3mf.WriteCloser
			if w, err = go3mf.CreateWriter("/out.3mf"); err != nil {
				return
			}
			w.FloatPrecision = g.Prec
			err = w.Encode(x.m)
			if e := w.Close(); err == nil {
				err = e
			}
			return
		}
		e := go3mf.NewEncoder(dst)
		e.FloatPrecision = g.Prec
		err = e.Encode(x.m)
	})
	if len(r.Panics) > 0 {
		return
	}
	if err != nil {
		c.Fail("C01:encode-error", "encoding a valid model to a working destination reports %s", short(err))
		return
	}
	if d := x.changed(); d != "" {
		c.Fail("C01:input-changed:"+diffClass(d), "encoding changed the model it was given: %s", d)
		return
	}
	pkg := dst.data
	if toFile {
		pkg, _ = disk.Get("/out.3mf")
	}
	how := c.W.Draw(3)
	var src *readerAt
	data := pkg
	switch how {
	case 1:
		parts, e := unpack(pkg)
		if e != nil {
			c.Fail("C01:zip", "the package that was written cannot be unpacked: %v", e)
			return
		}
		_, data = shapedPack(parts, c.W)
		fallthrough
	case 0:
		src = newReaderAt(data).shape(c.W)
	case 2:
		disk.Put("/in.3mf", pkg)
	}
	c.Note("package of %d bytes, read %s", len(pkg), []string{"from memory", "with every part as a simulated stream", "from a file"}[how])
	m := new(go3mf.Model)
	r = c.Sim("decode", func() {
		if how == 2 {
			var f *go3mf.ReadCloser
			if f, err = go3mf.OpenReader("/in.3mf"); err != nil {
				return
			}
			err = f.Decode(m)
			if e := f.Close(); err == nil {
				err = e
			}
			return
		}
		err = go3mf.NewDecoder(src, int64(len(data))).DecodeContext(context.Background(), m)
	})
	if len(r.Panics) > 0 {
		return
	}
	if err != nil {
		c.Fail("C01:decode-error", "decoding the package that was just encoded reports %s", short(err))
		return
	}
	if d := diffCanon(g.WantCanon(), canon(m, nil)); d != "" {
		c.Fail("C01:differs:"+diffClass(d), "the loaded model is not the one saved: %s", d)
		return
	}
	c.Tag("package loads back equal")
}

// c01marshal does the same for a lone root model document.
func c01marshal(c *Case, g *Gen) {
	x := newInput(g, c.W)
	x.m.Attachments, x.atts = nil, nil
	var doc []byte
	var err error
	m := new(go3mf.Model)
	r := c.Sim("marshal", func() {
		if doc, err = go3mf.MarshalModel(x.m); err == nil {
			doc2 := append([]byte(nil), doc...)
			err = go3mf.UnmarshalModel(doc, m)
			if !bytes.Equal(doc, doc2) {
				err = fmt.Errorf("the document was changed")
			}
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	if err != nil {
		c.Fail("C01:marshal-error", "marshalling and unmarshalling a valid model reports %s", short(err))
		return
	}
	if d := x.changed(); d != "" {
		c.Fail("C01:input-changed:"+diffClass(d), "marshalling changed the model it was given: %s", d)
		return
	}
	want := clone(g.M)
	want.Childs, want.Relationships, want.RootRelationships, want.Path = nil, nil, nil, ""
	for i := range doc {
		doc[i] = '#' // the model must not alias the document
	}
	if d := diffCanon(canon(want, []Att{}), canon(m, nil)); d != "" {
		c.Fail("C01:differs:"+diffClass(d), "the unmarshalled model is not the one marshalled: %s", d)
		return
	}
	c.Tag("document loads back equal")
}

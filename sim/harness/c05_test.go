package harness

import (
	"context"
	"runtime"
	"strings"

	"github.com/hpinc/go3mf"
)

func init() { scenarios["C05"] = c05 }

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// c05: damaged or hostile packages never crash, hang or exhaust memory.
func c05(c *Case) {
	if c.W.Chance(1, 3) {
		c05grown(c)
		return
	}
	o := GenOpt{MaxChilds: 2, Small: c.W.Chance(2, 3), NoAtt: c.W.Chance(1, 2)}
	if c.W.Chance(1, 10) {
		o.MaxBig = 300
	}
	g, pkg, ps, ok := c.genPackage(o)
	if !ok {
		return
	}
	strict := c.F.Chance(1, 2)
	how := c.F.Draw(4)
	var data []byte
	size := 0
	var doc []byte
	switch how {
	case 0: // one document by itself
		root := partOf(ps, strings.TrimPrefix(g.M.PathOrDefault(), "/")).Data
		var what string
		doc, what = mutateXML(c.F, root, 1+c.F.Draw(6))
		fired(fkMutate)
		c.Note("document: %s", what)
		size = len(doc)
	case 1, 2: // documents inside the package
		ps = cloneParts(ps)
		var models, others []int
		for i := range ps {
			switch {
			case isModel(ps[i].Name):
				models = append(models, i)
			case !isPart(ps[i].Name):
				others = append(others, i)
			}
		}
		for i, n := 0, 1+c.F.Draw(3); i < n; i++ {
			k := models[c.F.Draw(len(models))]
			if how == 2 && c.F.Chance(1, 2) {
				k = others[c.F.Draw(len(others))]
			}
			d, what := mutateXML(c.F, ps[k].Data, 1+c.F.Draw(4))
			ps[k].Data = d
			fired(fkMutate)
			c.Note("%s: %s", ps[k].Name, what)
		}
		if c.F.Chance(1, 8) {
			k := c.F.Draw(len(ps))
			c.Note("%s is missing", ps[k].Name)
			ps = append(ps[:k:k], ps[k+1:]...)
			fired(fkMissing)
		}
		_, data = shapedPack(ps, c.W)
	case 3: // bytes of the package
		data = append([]byte(nil), pkg...)
		r := rng{uint64(c.F.Draw(1 << 30))}
		for i, n := 0, 1+c.F.Draw(4); i < n; i++ {
			what := damage(data, c.F.Draw(4), c.F.Draw(1<<20), c.F.Draw(1<<8), &r)
			c.Note("package: %s", what)
		}
		if c.F.Chance(1, 4) { // the directory in particular
			k := len(data) - 1 - c.F.Draw(len(data)/4+1)
			data[k] ^= byte(1 + c.F.Draw(255))
			c.Note("package: byte %d changed", k)
		}
		fired(fkFlip)
	}
	for _, p := range ps {
		size += len(p.Data)
	}
	size += len(data)
	m := new(go3mf.Model)
	var err error
	c.budget = 20_000_000 + 3000*int64(size)
	src := newReaderAt(data).shape(c.W)
	a0 := allocated()
	r := c.Sim("decode", func() {
		if doc != nil {
			err = go3mf.UnmarshalModel(doc, m)
			return
		}
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = strict
		err = d.DecodeContext(context.Background(), m)
	})
	if len(r.Panics) > 0 {
		return
	}
	used := allocated() - a0
	if lim := uint64(48<<20 + 500*size); used > lim {
		c.Fail("C05:memory", "decoding %d bytes of input allocated %d bytes", size, used)
		return
	}
	if err != nil {
		c.Tag("error")
	} else {
		c.Tag("model")
	}
}

// c05grown decodes documents grown from the grammar, root and child models.
func c05grown(c *Case) {
	for n := 4 + c.W.Draw(12); n > 0; n-- {
		doc := growDoc(c.F)
		if c.W.Chance(1, 20) {
			doc = hugeDoc(c.F)
			c.Tag("document with very much of something")
		}
		child := c.W.Chance(1, 3)
		strict := c.W.Chance(1, 4)
		if c.W.Chance(1, 6) {
			var what string
			doc, what = mutateXML(c.F, doc, 1+c.F.Draw(2))
			c.Note("damage: %s", what)
			fired(fkMutate)
		}
		if len(doc) < 1<<14 {
			c.Note("document (child: %v): %s", child, doc)
		} else {
			c.Note("document (child: %v): %s ... %s", child, doc[:4096], doc[len(doc)-4096:])
		}
		var src *readerAt
		var data []byte
		if child || strict {
			root := doc
			ps := []Part{
				{Name: "[Content_Types].xml", Data: []byte(`<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="model" ContentType="application/vnd.ms-package.3dmanufacturing-3dmodel+xml"/></Types>`)},
				{Name: "_rels/.rels", Data: []byte(`<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="r" Type="http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel" Target="/3D/3dmodel.model"/></Relationships>`)},
			}
			if child {
				root = growDoc(c.F)
				c.Note("root: %s", root)
				ps = append(ps, Part{Name: "3D/child.model", Data: doc}, Part{Name: "3D/_rels/3dmodel.model.rels", Data: []byte(`<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="r" Type="http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel" Target="/3D/child.model"/></Relationships>`)})
			}
			ps = append(ps, Part{Name: "3D/3dmodel.model", Data: root})
			_, data = shapedPack(ps, c.W)
			src = newReaderAt(data)
		}
		size := len(doc) + len(data)
		c.budget = 5_000_000 + 3000*int64(size)
		m := new(go3mf.Model)
		var err error
		a0 := allocated()
		r := c.Sim("decode", func() {
			if src == nil {
				err = go3mf.UnmarshalModel(doc, m)
				return
			}
			d := go3mf.NewDecoder(src, int64(len(data)))
			d.Strict = strict
			err = d.DecodeContext(context.Background(), m)
		})
		if len(r.Panics) > 0 || len(c.Viols) > 0 {
			return
		}
		if used := allocated() - a0; used > uint64(48<<20+500*size) {
			c.Fail("C05:memory", "decoding %d bytes of input allocated %d bytes", size, used)
			return
		}
		if err != nil {
			c.Tag("grown document: error")
		} else {
			c.Tag("grown document: model")
		}
	}
}

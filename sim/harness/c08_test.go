package harness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() { scenarios["C08"] = c08 }

func diffVal(a, b interface{}, path string) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), path)
}

// c08: STL import is exact, all-or-nothing and indifferent to chunking.
func c08(c *Case) {
	var m *go3mf.Model
	if c.W.Chance(1, 2) {
		m = new(go3mf.Model)
	} else {
		m = genModel(c.W, GenOpt{MaxChilds: 1, Small: c.W.Chance(1, 2), NoAtt: true}).M
		if c.W.Chance(1, 3) { // identifiers out of order, repeated or consecutive
			for i, o := range m.Resources.Objects {
				o.ID = uint32(c.W.Draw(len(m.Resources.Objects)+2)) + uint32(i%2)
			}
		}
	}
	for i, n := 0, 1+c.W.Draw(3); i < n; i++ {
		if !c.importSTL(m, i) {
			return
		}
	}
}

func (c *Case) importSTL(m *go3mf.Model, round int) bool {
	max := 40
	switch c.W.Draw(8) {
	case 5, 6:
		max = 300
	case 7:
		max = 2500
	}
	min := 6
	if c.W.Chance(1, 4) {
		min, max = 1, 5
	}
	f := genSTL(c.W, min, max)
	data := append([]byte(nil), f.data...)
	s := newStream(data).shape(c.W)
	mustFail, mayFail := "", false
	switch c.F.Draw(6) {
	case 1, 2: // the stream fails
		s.failAt = c.F.Draw(len(data) + 1)
		if c.F.Chance(1, 4) {
			s.failAt = c.F.Draw(301) % (len(s.data) + 1)
		}
		if c.F.Chance(1, 4) {
			s.failAt = f.need - c.F.Draw(60)
		}
		s.once, s.withData = c.F.Chance(1, 2), c.F.Chance(1, 2)
		s.failErr = []error{errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, errors.New("connection reset")}[c.F.Draw(4)]
		if f.ascii || s.failAt < f.need {
			mustFail = fmt.Sprintf("the stream fails at byte %d of %d: %v", s.failAt, len(data), s.failErr)
		} else {
			mayFail = true
		}
		c.Note("the stream fails at byte %d of %d (once: %v, with data: %v)", s.failAt, len(data), s.once, s.withData)
	case 3: // a binary stream ends early
		n := c.F.Draw(f.need)
		if c.F.Chance(1, 2) {
			n = f.need - 1 - c.F.Draw(60)
		}
		if n < 0 {
			n = 0
		}
		if !f.ascii || n < 84 {
			s.data = data[:n]
			mustFail = fmt.Sprintf("the stream ends after %d of %d bytes", n, len(data))
			fired(fkTruncate)
		}
	case 4: // the header lies
		if !f.ascii {
			n := uint32(len(f.faces) + 4 + 1 + c.F.Draw(10)) // more than the bytes behind the last face can hold
			switch c.F.Draw(4) {
			case 1:
				n = 1 << 31
			case 2:
				n = 0xffffffff
			case 3:
				n = 1<<31 - 1
			}
			binary.LittleEndian.PutUint32(data[80:], n)
			mustFail = fmt.Sprintf("the header announces %d faces, there are %d", n, len(f.faces))
			fired(fkMutate)
		}
	case 5: // fewer faces announced than present
		if !f.ascii {
			n := c.F.Draw(len(f.faces))
			binary.LittleEndian.PutUint32(data[80:], uint32(n))
			f.faces = f.faces[:n]
		}
	}
	c.Note("import %d: %d faces, text: %v, %d bytes; %s", round, len(f.faces), f.ascii, len(s.data), mustFail)
	before := clone(m)
	var err error
	a0 := allocated()
	r := c.Sim("import", func() {
		d := stl.NewDecoder(s)
		if c.W.Chance(1, 2) {
			err = d.DecodeContext(context.Background(), m)
		} else {
			err = d.Decode(m)
		}
	})
	if len(r.Panics) > 0 {
		return false
	}
	used := allocated() - a0
	if lim := uint64(12<<20 + 700*len(s.data)); used > lim {
		c.Fail("C08:memory", "importing %d bytes allocated %d bytes (%s)", len(s.data), used, mustFail)
		return false
	}
	if err != nil {
		if mustFail == "" && !mayFail {
			c.Fail("C08:error", "importing a well-formed STL (text: %v) reports %s", f.ascii, short(err))
			return false
		}
		if d := diffVal(before, m, "model"); d != "" {
			c.Fail("C08:not-atomic:"+diffClass(d), "the import failed (%s) but changed the model: %s", short(err), d)
			return false
		}
		c.Tag("failure reported, model unchanged")
		return true
	}
	if mustFail != "" {
		c.Fail("C08:lost-error", "%s but the import reports success", mustFail)
		return false
	}
	if d := diffSTL(before, m, f); d != "" {
		c.Fail("C08:differs:"+diffClass(d), "the imported model is wrong (text: %v): %s", f.ascii, d)
		return false
	}
	c.Tag("imported")
	return true
}

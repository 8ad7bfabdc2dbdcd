package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
)

func init() { scenarios["C06"] = c06 }

// c06: concurrent child decoding is schedule-independent; errors are genuine.
func c06(c *Case) {
	o := GenOpt{MinChilds: 1 + c.W.Draw(2), MaxChilds: 5, Small: true, ChildStamp: true, NoAtt: c.W.Chance(1, 2)}
	if c.W.Chance(1, 6) {
		o.MaxChilds = 9
		o.MinChilds = 6
	}
	if c.W.Chance(1, 5) {
		o.MaxBig = 1500
	}
	g := genModel(c.W, o)
	pkg, ok := c.encodePlain(g)
	if !ok {
		return
	}
	parts, err := unpack(pkg)
	if err != nil {
		c.Tag("skipped: the package cannot be unpacked")
		return
	}
	p := &Pack{Parts: parts, Sim: isModel, Order: perm(c.W)}
	names := modelEntries(g)
	bad := map[string]error{} // part -> injected error, nil if to be found out
	strict := true
	nbad := 0
	if c.F.Chance(1, 2) {
		nbad = 1 + c.F.Draw(len(names))
		if c.F.Chance(1, 2) && nbad > 2 {
			nbad = 2
		}
	}
	kinds := map[string]int{}
	orig := map[string][]byte{}
	p.Method = map[string]uint16{}
	for i := 0; i < nbad; i++ {
		n := names[c.F.Draw(len(names))]
		if _, dup := kinds[n]; dup {
			continue
		}
		k := 1 + c.F.Draw(5)
		kinds[n] = k
		pt := partOf(p.Parts, n)
		orig[n] = pt.Data
		switch k {
		case 1: // malformed XML at the end or somewhere inside
			pt.Data = breakXML(pt.Data, c.F.Draw(1000))
			fired(fkBadPart)
		case 2: // a value that cannot be parsed
			pt.Data = badValue(pt.Data, n)
			fired(fkBadPart)
		case 3, 4: // the stream fails
		case 5:
			p.Method[n] = methodUnknown
			fired(fkOpenPart)
		}
	}
	data := p.Build()
	for _, n := range names {
		s := p.Ctl(n).shape(c.W)
		switch kinds[n] {
		case 3:
			e := &partErr{n, "stream failure"}
			bad[n] = e
			s.failErr, s.failAt, s.withData = e, c.F.Draw(len(s.data)+1), c.F.Chance(1, 2)
		case 4:
			e := &partErr{n, "stream failure"}
			bad[n] = e
			s.failErr, s.failAt = e, len(s.data)
		}
	}
	for _, n := range names {
		if k := kinds[n]; k != 0 {
			c.Note("bad part %s: %s", n, []string{"", "malformed XML", "invalid value", "read error", "read error at the end", "cannot be opened"}[k])
		}
	}
	// the genuine errors of the parts whose failure is not injected by a stream
	genuine := map[string]bool{}
	for _, n := range names {
		k := kinds[n]
		if k == 0 || k == 3 || k == 4 {
			continue
		}
		q := &Pack{Method: map[string]uint16{}}
		for _, pt := range parts {
			d := pt.Data
			if kinds[pt.Name] != 0 && pt.Name != n {
				d = orig[pt.Name]
			}
			q.Parts = append(q.Parts, Part{pt.Name, d})
		}
		if k == 5 {
			q.Method[n] = methodUnknown
		}
		save := savePartsState()
		b := q.Build()
		restorePartsState(save)
		_, e, _ := c.decodePlain(b, strict)
		if e == nil {
			c.Fail("C06:no-error", "decoding strictly a package whose part %s is bad (%s) reports success", n, []string{"", "malformed XML", "invalid value", "", "", "cannot be opened"}[k])
			return
		}
		if isCancel(e) {
			c.Fail("C06:cancel", "decoding a package whose part %s is bad reports %v", n, e)
			return
		}
		genuine[e.Error()] = true
	}
	for rep := 0; rep < 2; rep++ {
		partsRewind()
		m := new(go3mf.Model)
		src := newReaderAt(data).shape(c.W)
		var got error
		left := 0
		r := c.Sim(fmt.Sprintf("decode %d", rep), func() {
			d := go3mf.NewDecoder(src, int64(len(data)))
			got = d.DecodeContext(context.Background(), m)
			left = countTasks()
		})
		if len(r.Panics) > 0 || len(c.Viols) > 0 {
			return
		}
		_ = left
		if len(kinds) == 0 {
			if got != nil {
				c.Fail("C06:error", "decoding reports an error although nothing is wrong: %v", got)
				return
			}
			if d := diffCanon(g.WantCanon(), canon(m, nil)); d != "" {
				c.Fail("C06:differs:"+diffClass(d), "the decoded model differs: %s", d)
				return
			}
			c.Tag("complete model")
			continue
		}
		if got == nil {
			c.Fail("C06:no-error", "decoding strictly reports success although %s", badList(kinds))
			return
		}
		ok := genuine[got.Error()]
		for _, e := range bad {
			if errors.Is(got, e) {
				ok = true
			}
		}
		if !ok {
			cl := "C06:foreign-error"
			if isCancel(got) {
				cl = "C06:cancel"
			}
			c.Fail(cl, "the error reported, %q, is not the error of any of the bad parts (%s; genuine errors: %v %v)", got, badList(kinds), keys(genuine), bad)
			return
		}
		c.Tag("genuine error")
	}
}

func isCancel(err error) bool {
	return errors.Is(err, context.Canceled) || strings.Contains(err.Error(), context.Canceled.Error())
}

func badList(k map[string]int) string {
	m := map[string]int{}
	for n := range k {
		m[n+" is bad"] = 1
	}
	return strings.Join(sortedKeys(m), ", ")
}

func keys(m map[string]bool) []string {
	x := map[string]int{}
	for k := range m {
		x[k] = 1
	}
	return sortedKeys(x)
}

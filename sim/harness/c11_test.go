package harness

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"verifsim/simrt"
)

func init() { scenarios["C11"] = c11 }

// result is the outcome of an operation in comparable form.
type result struct {
	lines []string
}

func (r *result) add(format string, args ...interface{}) {
	r.lines = append(r.lines, fmt.Sprintf(format, args...))
}

func (r result) diff(o result) string {
	for i := 0; i < len(r.lines) || i < len(o.lines); i++ {
		a, b := "nothing", "nothing"
		if i < len(r.lines) {
			a = r.lines[i]
		}
		if i < len(o.lines) {
			b = o.lines[i]
		}
		if a != b {
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			if k > 60 {
				a, b = "…"+a[k-40:], "…"+b[k-40:]
			}
			return fmt.Sprintf("want %s, got %s", clip(a), clip(b))
		}
	}
	return ""
}

// package in comparable form: what depends on the order of maps is sorted.
func packageResult(b []byte, err error) (out result) {
	if err != nil {
		out.add("error %v", err)
		return
	}
	ps, err := unpack(b)
	if err != nil {
		out.add("not a package: %v", err)
		return
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name < ps[j].Name })
	for _, p := range ps {
		if isPart(p.Name) {
			out.add("%s: %s", p.Name, p.Data)
			continue
		}
		els := strings.Split(string(p.Data), "<")
		for i, e := range els {
			if k := strings.Index(e, ` Id="rId`); k >= 0 { // numbered in the order they are met
				els[i] = e[:k] + e[k+1+strings.IndexByte(e[k+5:], '"')+5:]
			}
		}
		sort.Strings(els)
		out.add("%s: %s", p.Name, strings.Join(els, "<"))
	}
	return
}

func errorResult(err error) (out result) {
	for _, e := range flatten(err) {
		out.lines = append(out.lines, e.Error())
	}
	sort.Strings(out.lines)
	return
}

func overflown(r result) bool { return len(r.lines) == 1 && r.lines[0] == "overflow" }

var readOps = []string{"Encode", "MarshalModel", "Validate", "ValidateCoherency", "BoundingBox", "lookups", "walks", "accessors"}

func readOp(m *go3mf.Model, op, prec int) (out result) {
	switch op {
	case 0:
		var b bytes.Buffer
		e := go3mf.NewEncoder(&b)
		e.FloatPrecision = prec
		err := e.Encode(m)
		return packageResult(b.Bytes(), err)
	case 1:
		b, err := go3mf.MarshalModel(m)
		out.add("%s %v", b, err)
	case 2:
		return errorResult(m.Validate())
	case 3:
		return errorResult(m.ValidateCoherency())
	case 4:
		b := m.BoundingBox()
		for _, v := range []float32{b.Min[0], b.Min[1], b.Min[2], b.Max[0], b.Max[1], b.Max[2]} {
			if v-v != 0 { // infinite or NaN
				out.add("overflow")
				return
			}
		}
		out.add("%v", b)
	case 5:
		for _, p := range append([]string{"", m.PathOrDefault(), "/nowhere"}, sortedChilds(m)...) {
			rs, ok := m.FindResources(p)
			out.add("%q: %v %v", p, ok, rs != nil)
			if !ok {
				continue
			}
			for _, o := range rs.Objects {
				f, ok := m.FindObject(p, o.ID)
				out.add("object %d: %v %v", o.ID, ok, f == o)
				g, ok := rs.FindObject(o.ID)
				out.add("object %d: %v %v", o.ID, ok, g == f)
			}
			for _, a := range rs.Assets {
				f, ok := m.FindAsset(p, a.Identify())
				out.add("asset %d: %v %v", a.Identify(), ok, f == a)
			}
			_, ok = m.FindObject(p, 424242)
			out.add("%v unused %d", ok, rs.UnusedID())
		}
	case 6:
		n := 0
		stop := errors.New("enough")
		err := m.WalkObjects(func(p string, o *go3mf.Object) error {
			out.add("%q %d %q %v", p, o.ID, o.Name, o.Type)
			if n++; n == 9 {
				return stop
			}
			return nil
		})
		out.add("%v", err)
		out.add("%v", m.WalkAssets(func(p string, a go3mf.Asset) error {
			out.add("%q %d %v", p, a.Identify(), a.XMLName())
			return nil
		}))
	case 7:
		for _, it := range m.Build.Items {
			out.add("%q %v %v", it.ObjectPath(), it.HasTransform(), production.GetItemAttr(it))
		}
		out.add("%v %v", production.GetBuildAttr(&m.Build), spec.AnyAttr(m.AnyAttr).Get(nsA) != nil)
		m.WalkObjects(func(p string, o *go3mf.Object) error {
			if o.Mesh != nil {
				out.add("%v %v", o.Mesh.BoundingBox(), o.Mesh.ValidateCoherency())
			}
			out.add("%v %v", production.GetObjectAttr(o), slices.GetObjectAttr(o))
			if o.Components != nil {
				for _, c := range o.Components.Component {
					out.add("%q %v %v", c.ObjectPath(p), c.HasTransform(), production.GetComponentAttr(c))
				}
			}
			return nil
		})
	}
	return
}

// sharedModel draws a model for read-only operations.
func sharedModel(t *simrt.Tape) (*go3mf.Model, int) {
	switch t.Draw(4) {
	case 1:
		m := genBoxModel(t).m
		m.Extensions = append(m.Extensions, production.DefaultExtension)
		return m, 4
	case 2:
		return genSolids(t), 4
	}
	g := genModel(t, GenOpt{MaxChilds: 4, Small: t.Chance(2, 3), NoAtt: true})
	return g.M, g.Prec
}

// c11: read-only operations on a shared model do not disturb one another.
func c11(c *Case) {
	m, prec := sharedModel(c.W)
	m.Relationships = roomy(m.Relationships)
	m.RootRelationships = roomy(m.RootRelationships)
	for _, ch := range m.Childs {
		ch.Relationships = roomy(ch.Relationships)
	}
	x := &input{m: m, was: clone(m)}
	ncall := 2 + c.W.Draw(3)
	plan := make([][]int, ncall)
	used := map[int]bool{}
	favour := c.W.Draw(len(readOps))
	for i := range plan {
		for j, n := 0, 1+c.W.Draw(2); j < n; j++ {
			op := favour
			if c.W.Chance(2, 3) {
				op = c.W.Draw(len(readOps))
			}
			plan[i] = append(plan[i], op)
			used[op] = true
		}
	}
	// what each operation gives alone, on a copy
	alone := make([]result, len(readOps))
	for op := range readOps {
		if !used[op] {
			continue
		}
		cp := clone(m)
		tol := c.tolerate
		c.tolerate = true
		r := c.plain(func() { alone[op] = readOp(cp, op, prec) })
		c.tolerate = tol
		if len(r.Panics) > 0 {
			c.Tag("skipped: " + readOps[op] + " fails alone")
			return
		}
	}
	for i, p := range plan {
		var s []string
		for _, op := range p {
			s = append(s, readOps[op])
		}
		c.Note("caller %d: %s", i, strings.Join(s, ", "))
	}
	got := make([][]result, ncall)
	for i := range got {
		got[i] = make([]result, len(plan[i]))
	}
	r := c.Sim("callers", func() {
		for i := range plan {
			i := i
			simrt.Go(fmt.Sprintf("caller %d", i), func() {
				for j, op := range plan[i] {
					got[i][j] = readOp(m, op, prec)
				}
			})
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	for i, p := range plan {
		for j, op := range p {
			if overflown(alone[op]) || overflown(got[i][j]) {
				c.Tag("overflow") // which infinities meet depends on the order of the items
				continue
			}
			if d := alone[op].diff(got[i][j]); d != "" {
				c.Fail("C11:differs:"+readOps[op], "%s by caller %d gives another result next to other operations than alone: %s", readOps[op], i, d)
				return
			}
			c.Tag(readOps[op])
		}
	}
	if d := x.changed(); d != "" {
		c.Fail("C11:changed:"+diffClass(d), "read-only operations changed the model: %s", d)
		return
	}
}

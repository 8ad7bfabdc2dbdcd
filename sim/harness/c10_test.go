package harness

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	gerr "github.com/hpinc/go3mf/errors"
	"verifsim/simrt"
)

func init() { scenarios["C10"] = c10 }

// solid makes a closed and consistently oriented mesh.
func solid(r *rng) *go3mf.Mesh {
	m := new(go3mf.Mesh)
	tri := func(base, a, b, c int) {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: uint32(base + a), V2: uint32(base + b), V3: uint32(base + c)})
	}
	for k, n := 0, 1+r.n(2); k < n; k++ {
		base := len(m.Vertices.Vertex)
		switch r.n(3) {
		case 0: // tetrahedron
			tri(base, 0, 1, 2)
			tri(base, 0, 3, 1)
			tri(base, 1, 3, 2)
			tri(base, 2, 3, 0)
			m.Vertices.Vertex = append(m.Vertices.Vertex, make([]go3mf.Point3D, 4)...)
		default: // bipyramid over a polygon
			n := 3 + r.n(6)
			for i := 0; i < n; i++ {
				j := (i + 1) % n
				tri(base, i, j, n)
				tri(base, j, i, n+1)
			}
			m.Vertices.Vertex = append(m.Vertices.Vertex, make([]go3mf.Point3D, n+2)...)
		}
	}
	t := m.Triangles.Triangle
	for i := len(t) - 1; i > 0; i-- {
		j := r.n(i + 1)
		t[i], t[j] = t[j], t[i]
		switch r.n(3) { // the corner a face starts with does not matter
		case 1:
			t[i].V1, t[i].V2, t[i].V3 = t[i].V2, t[i].V3, t[i].V1
		case 2:
			t[i].V1, t[i].V2, t[i].V3 = t[i].V3, t[i].V1, t[i].V2
		}
	}
	for i := range m.Vertices.Vertex {
		m.Vertices.Vertex[i] = go3mf.Point3D{float32(r.n(99)), float32(r.n(99)), float32(i)}
	}
	return m
}

func spoil(m *go3mf.Mesh, r *rng) {
	t := m.Triangles.Triangle
	k := r.n(len(t))
	switch r.n(11) {
	case 0:
		t[k].V1, t[k].V2 = t[k].V2, t[k].V1
	case 1:
		m.Triangles.Triangle = append(t[:k:k], t[k+1:]...)
	case 2:
		m.Triangles.Triangle = append(t, t[k])
	case 3:
		m.Triangles.Triangle = append(t, go3mf.Triangle{V1: t[k].V1, V2: t[k].V1, V3: t[k].V2})
	case 4:
		t[k].V3 = uint32(r.n(len(m.Vertices.Vertex)))
	case 5:
		m.Triangles.Triangle = t[:r.n(4)]
	case 6:
		m.Vertices.Vertex = m.Vertices.Vertex[:r.n(3)]
	case 7:
		m.Triangles.Triangle = nil
	case 8: // the same solid twice on the same vertices
		m.Triangles.Triangle = append(t, t...)
	case 9: // every face in one point
		for i := range t {
			t[i] = go3mf.Triangle{V1: t[k].V1, V2: t[k].V1, V3: t[k].V1}
		}
	case 10: // vertices merged into one
		a, b := t[k].V1, t[k].V2
		for i := range t {
			for _, v := range []*uint32{&t[i].V1, &t[i].V2, &t[i].V3} {
				if *v == b {
					*v = a
				}
			}
		}
	}
}

// refCoherent is the reference: nil, or the cause of incoherence.
func refCoherent(m *go3mf.Mesh) error {
	if len(m.Vertices.Vertex) < 3 {
		return gerr.ErrInsufficientVertices
	}
	if len(m.Triangles.Triangle) < 4 {
		return gerr.ErrInsufficientTriangles
	}
	n := map[[2]uint32]int{}
	for _, t := range m.Triangles.Triangle {
		n[[2]uint32{t.V1, t.V2}]++
		n[[2]uint32{t.V2, t.V3}]++
		n[[2]uint32{t.V3, t.V1}]++
	}
	for e, k := range n {
		if e[0] == e[1] || k != 1 || n[[2]uint32{e[1], e[0]}] != 1 {
			return gerr.ErrMeshConsistency
		}
	}
	return nil
}

func genSolids(t *simrt.Tape) *go3mf.Model {
	r := &rng{uint64(t.Draw(1 << 30))}
	m := &go3mf.Model{}
	var all []*go3mf.Object
	add := func(rs *go3mf.Resources) {
		n := t.Draw(5)
		if t.Chance(1, 12) {
			n += 12
			if t.Chance(1, 6) {
				n += 80
			}
		}
		for i := 0; i < n; i++ {
			o := &go3mf.Object{ID: uint32(i + 1), Type: go3mf.ObjectType(t.Draw(5))}
			k := t.Draw(8)
			if k != 7 {
				o.Mesh = solid(r)
			}
			if k == 6 {
				o.Mesh = new(go3mf.Mesh)
			}
			if k >= 1 && k <= 4 {
				spoil(o.Mesh, r)
			}
			if k == 7 && t.Chance(1, 2) {
				o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}
			}
			if len(all) > 0 && t.Chance(1, 8) { // shared with an object met before, perhaps of another model
				if p := all[t.Draw(len(all))]; t.Chance(1, 3) {
					o = p
				} else {
					o.Mesh = p.Mesh
				}
			}
			all = append(all, o)
			rs.Objects = append(rs.Objects, o)
		}
	}
	add(&m.Resources)
	if n := t.Draw(5); n > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
		for i := 0; i < n; i++ {
			c := &go3mf.ChildModel{}
			if p := m.Childs["/3D/c0.model"]; p != nil && t.Chance(1, 8) {
				c = p // one model under two paths
			} else {
				add(&c.Resources)
			}
			m.Childs[fmt.Sprintf("/3D/c%d.model", i)] = c
		}
	}
	return m
}

func refReports(m *go3mf.Model) []string {
	var out []string
	each := func(path string, rs *go3mf.Resources) {
		for i, o := range rs.Objects {
			if o.Mesh == nil || o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport {
				continue
			}
			if err := refCoherent(o.Mesh); err != nil {
				out = append(out, fmt.Sprintf("%s|/model/resources/object[%d]/mesh|%v", path, i, err))
			}
		}
	}
	each("", &m.Resources)
	for p, c := range m.Childs {
		each(p, &c.Resources)
	}
	sort.Strings(out)
	return out
}

// flatten lists the errors of an error.
func flatten(err error) []error {
	if err == nil {
		return nil
	}
	if l, ok := err.(*gerr.List); ok {
		var out []error
		for _, e := range l.Errors {
			out = append(out, flatten(e)...)
		}
		return out
	}
	return []error{err}
}

func reports(err error) []string {
	var out []string
	for _, e := range flatten(err) {
		x, ok := e.(*gerr.Error)
		if !ok {
			out = append(out, "without location: "+e.Error())
			continue
		}
		cause := "unknown cause: " + fmt.Sprint(x.Err)
		for _, s := range []error{gerr.ErrInsufficientVertices, gerr.ErrInsufficientTriangles, gerr.ErrMeshConsistency} {
			if errors.Is(e, s) {
				cause = s.Error()
			}
		}
		out = append(out, x.Path+"|"+x.XPath()+"|"+cause)
	}
	sort.Strings(out)
	return out
}

func diffLists(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got) || i < len(want) && want[i] < got[i]:
			return "missing " + want[i]
		case i >= len(want) || want[i] > got[i]:
			return "unexpected " + got[i]
		}
	}
	return ""
}

// c10: coherency validation reports exactly the incoherent solids.
func c10(c *Case) {
	m := genSolids(c.W)
	was := clone(m)
	want := refReports(m)
	c.Note("model: %d child models, %d objects in the root, expected reports: %s", len(m.Childs), len(m.Resources.Objects), clip(strings.Join(want, "; ")))
	for rep := 0; rep < 3; rep++ {
		var err error
		left := 0
		r := c.Sim(fmt.Sprintf("validation %d", rep), func() {
			err = m.ValidateCoherency()
			left = countTasks()
		})
		if len(r.Panics) > 0 {
			return
		}
		if (err == nil) != (len(want) == 0) {
			c.Fail("C10:verdict", "the validation reports %s instead of %d incoherent solids", short(err), len(want))
			return
		}
		if d := diffLists(want, reports(err)); d != "" {
			c.Fail("C10:differs", "the validation reports %d problems instead of %d: %s", len(reports(err)), len(want), d)
			return
		}
		if left != 0 {
			c.Fail("C10:left", "%d goroutines are still running when the validation returns", left)
			return
		}
	}
	if d := diff(reflect.ValueOf(was), reflect.ValueOf(m), "model"); d != "" {
		c.Fail("C10:changed", "the validation changed the model: %s", d)
		return
	}
	c.Tag(fmt.Sprintf("reports: %v", len(want) > 0))
}

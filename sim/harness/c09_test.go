package harness

import (
	"fmt"
	"math"
	"reflect"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"verifsim/simrt"
)

func init() { scenarios["C09"] = c09 }

// boxModel makes a model whose boxes are exact in single precision: small
// coordinates, small integer transforms and components nested at most three
// deep, unless nothing is transformed at all.
type boxModel struct {
	t      *simrt.Tape
	r      *rng
	m      *go3mf.Model
	paths  []string // part paths; "" is the root
	wild   bool
	cyclic bool
}

func genBoxModel(t *simrt.Tape) *boxModel {
	b := &boxModel{t: t, r: &rng{uint64(t.Draw(1 << 30))}}
	m := &go3mf.Model{}
	b.m = m
	m.Path = []string{"", go3mf.DefaultModelPath, "/3D/main.model"}[t.Draw(3)]
	b.wild = t.Chance(1, 8)
	b.paths = []string{""}
	if n := t.Draw(5); n > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("/3D/c%d.model", i)
			if i == 0 && m.Path == "/3D/main.model" && t.Chance(1, 2) {
				p = go3mf.DefaultModelPath // is no root model here
			}
			b.paths = append(b.paths, p)
			m.Childs[p] = &go3mf.ChildModel{}
		}
	}
	// Identifiers repeat across parts. Level k only refers to lower levels, so
	// that the components are acyclic.
	for _, p := range b.paths {
		id := uint32(1)
		n := 1 + t.Draw(3)
		for i := 0; i < n; i++ {
			b.add(p, &go3mf.Object{ID: id, Mesh: b.mesh()})
			id += uint32(1 + b.r.n(2))
		}
		if t.Chance(1, 4) {
			b.add(p, &go3mf.Object{ID: 20 + id}) // neither mesh nor components
		}
	}
	for level := 1; level <= 3; level++ {
		for _, p := range b.paths {
			if !t.Chance(1, 2) {
				continue
			}
			o := &go3mf.Object{ID: uint32(100 * level), Components: &go3mf.Components{}}
			if b.r.n(10) == 0 {
				o.Mesh = b.mesh() // a mesh comes before components
			}
			for j, n := 0, t.Draw(4); j < n; j++ {
				c := &go3mf.Component{Transform: b.matrix()}
				q := p
				if t.Chance(1, 2) {
					q = b.paths[t.Draw(len(b.paths))]
				}
				c.ObjectID = b.pick(q, level)
				if q != p || t.Chance(1, 4) {
					path := q
					if path == "" {
						path = m.PathOrDefault()
					}
					if t.Chance(1, 12) {
						path = "/3D/nowhere.model"
					}
					c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{UUID: "x", Path: path})
				} else if t.Chance(1, 4) {
					c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{UUID: "x"})
				}
				o.Components.Component = append(o.Components.Component, c)
			}
			b.add(p, o)
		}
	}
	if t.Chance(1, 16) {
		b.cycle()
	}
	n := t.Draw(9)
	if t.Chance(1, 10) {
		n += 20
	}
	for i := 0; i < n; i++ {
		it := &go3mf.Item{Transform: b.matrix()}
		q := b.paths[t.Draw(len(b.paths))]
		it.ObjectID = b.pick(q, 9)
		if q != "" || t.Chance(1, 4) {
			path := q
			if path == "" && t.Chance(1, 2) {
				path = m.PathOrDefault()
			}
			if t.Chance(1, 12) {
				path = "/3D/nowhere.model"
			}
			it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{UUID: "y", Path: path})
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return b
}

// cycle makes components refer back to what contains them, which the
// specification forbids but a file can do.
func (b *boxModel) cycle() {
	b.cyclic = true
	for _, p := range b.paths {
		for _, o := range b.res(p).Objects {
			if o.Components == nil || len(o.Components.Component) == 0 || b.t.Chance(1, 3) {
				continue
			}
			q := b.paths[b.t.Draw(len(b.paths))]
			os := b.res(q).Objects
			c := o.Components.Component[b.t.Draw(len(o.Components.Component))]
			c.ObjectID = os[len(os)-1-b.t.Draw((len(os)+1)/2)].ID
			if q == "" {
				q = b.m.PathOrDefault()
			}
			c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: "x", Path: q}}
			if b.t.Chance(1, 3) { // itself
				c.ObjectID, c.AnyAttr = o.ID, nil
			}
		}
	}
}

func (b *boxModel) res(p string) *go3mf.Resources {
	if p == "" {
		return &b.m.Resources
	}
	return &b.m.Childs[p].Resources
}

func (b *boxModel) add(p string, o *go3mf.Object) {
	rs := b.res(p)
	rs.Objects = append(rs.Objects, o)
}

// pick chooses an identifier of a part that is below a level, or none at all.
func (b *boxModel) pick(p string, level int) uint32 {
	os := b.res(p).Objects
	if b.t.Chance(1, 14) {
		return 77
	}
	o := os[b.t.Draw(len(os))]
	if int(o.ID/100) >= level {
		return os[0].ID
	}
	return o.ID
}

func (b *boxModel) mesh() *go3mf.Mesh {
	n := b.r.n(6)
	if b.r.n(30) == 0 {
		n = 200
	}
	m := new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		var v go3mf.Point3D
		for k := range v {
			v[k] = float32(b.r.n(257)-128) / 4
			for b.wild {
				v[k] = math.Float32frombits(uint32(b.r.next()))
				if f := float64(v[k]); !math.IsNaN(f) && !math.IsInf(f, 0) {
					break
				}
			}
		}
		m.Vertices.Vertex = append(m.Vertices.Vertex, v)
	}
	return m
}

func (b *boxModel) matrix() go3mf.Matrix {
	if b.wild {
		if b.r.n(2) == 0 {
			return go3mf.Matrix{}
		}
		return go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	}
	k := b.t.Draw(6)
	if k == 0 {
		return go3mf.Matrix{}
	}
	m := go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	sg := func() float32 { return float32(1 - 2*b.r.n(2)) }
	switch k {
	case 1: // scale and mirror
		for i := 0; i < 3; i++ {
			m[5*i] = sg() * []float32{0.5, 1, 2}[b.r.n(3)]
		}
	case 2: // quarter turns
		p := [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}[b.r.n(6)]
		for i := 0; i < 3; i++ {
			m[5*i] = 0
		}
		for i := 0; i < 3; i++ {
			m[4*i+p[i]] = sg()
		}
	case 3: // shear
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				m[4*i+j] = float32(b.r.n(5) - 2)
			}
		}
	}
	for i := 12; i < 15; i++ {
		m[i] = float32(b.r.n(129)-64) / 4
	}
	return m
}

type refBox struct {
	lo, hi [3]float64
	some   bool
}

func (a *refBox) point(p [3]float64) {
	for k := range p {
		if !a.some || p[k] < a.lo[k] {
			a.lo[k] = p[k]
		}
		if !a.some || p[k] > a.hi[k] {
			a.hi[k] = p[k]
		}
	}
	a.some = true
}

func (a *refBox) join(b refBox) {
	if b.some {
		a.point(b.lo)
		a.point(b.hi)
	}
}

func (a refBox) moved(m go3mf.Matrix) refBox {
	if !a.some || m == (go3mf.Matrix{}) {
		return a
	}
	var out refBox
	for i := 0; i < 8; i++ {
		v := a.lo
		for k := range v {
			if i>>uint(k)&1 == 1 {
				v[k] = a.hi[k]
			}
		}
		var p [3]float64
		for k := range p {
			p[k] = v[0]*float64(m[k]) + v[1]*float64(m[4+k]) + v[2]*float64(m[8+k]) + float64(m[12+k])
		}
		out.point(p)
	}
	return out
}

// refObject is the sequential reference of an object's box.
func refObject(m *go3mf.Model, path string, id uint32) (out refBox) {
	var rs *go3mf.Resources
	if path == "" || path == m.PathOrDefault() {
		rs = &m.Resources
	} else if c := m.Childs[path]; c != nil {
		rs = &c.Resources
	} else {
		return
	}
	for _, o := range rs.Objects {
		if o.ID != id {
			continue
		}
		if o.Mesh != nil {
			for _, v := range o.Mesh.Vertices.Vertex {
				out.point([3]float64{float64(v[0]), float64(v[1]), float64(v[2])})
			}
		} else if o.Components != nil {
			for _, c := range o.Components.Component {
				p := path
				if a := production.GetComponentAttr(c); a != nil && a.Path != "" {
					p = a.Path
				}
				out.join(refObject(m, p, c.ObjectID).moved(c.Transform))
			}
		}
		return
	}
	return
}

func refModelBox(m *go3mf.Model) go3mf.Box {
	var all refBox
	for _, it := range m.Build.Items {
		p := ""
		if a := production.GetItemAttr(it); a != nil {
			p = a.Path
		}
		all.join(refObject(m, p, it.ObjectID).moved(it.Transform))
	}
	var b go3mf.Box
	for k := 0; k < 3; k++ {
		b.Min[k], b.Max[k] = float32(all.lo[k]), float32(all.hi[k])
	}
	return b
}

// c09: the model bounding box is exact under every schedule.
func c09(c *Case) {
	b := genBoxModel(c.W)
	m := b.m
	was := clone(m)
	var want go3mf.Box
	if !b.cyclic {
		want = refModelBox(m)
	}
	c.Note("model: %d child models, %d build items, only identity transforms: %v", len(m.Childs), len(m.Build.Items), b.wild)
	for rep := 0; rep < 3; rep++ {
		var got go3mf.Box
		left := 0
		r := c.Sim(fmt.Sprintf("bounding box %d", rep), func() {
			got = m.BoundingBox()
			left = countTasks()
		})
		if len(r.Panics) > 0 {
			return
		}
		if b.cyclic {
			want = got // any box will do as long as there is one
		}
		if got != want {
			c.Fail("C09:differs", "the bounding box is %v, not %v", got, want)
			return
		}
		if left != 0 {
			c.Fail("C09:left", "%d goroutines are still running when the bounding box is returned", left)
			return
		}
	}
	if d := diff(reflect.ValueOf(was), reflect.ValueOf(m), "model"); d != "" {
		c.Fail("C09:changed", "computing the bounding box changed the model: %s", d)
		return
	}
	if b.cyclic {
		c.Tag("recursive components")
	} else if want == (go3mf.Box{}) {
		c.Tag("empty box")
	} else {
		c.Tag("exact box")
	}
}

package harness

import (
	"context"
	"encoding/xml"
	"fmt"
	"image/color"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"
	"verifsim/simrt"
)

func init() { scenarios["C12"] = c12 }

// The registry cannot be emptied, so every execution uses namespaces of its
// own, of constant length.
var regRuns int

// regClock orders the calls and returns of a history.
var regClock int

//go:norace
func regTick() int { regClock++; return regClock }

// regSpec is an extension made for a registration; every one has a version of
// its own.
type regSpec struct {
	ns      string
	v       int
	onNew   func()
	nilAttr bool
}

// regValid is a regSpec that validates.
type regValid struct{ *regSpec }

func (s *regSpec) NewAttrGroup(xml.Name) spec.AttrGroup {
	if s.onNew != nil {
		s.onNew()
	}
	return &regAttrs{s: s}
}

func (s *regSpec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	if s.onNew != nil {
		s.onNew()
	}
	return &regDecoder{e: &regElement{s: s, name: name}}
}

func (s regValid) Validate(model interface{}, path string, element interface{}) error {
	at := "model"
	switch element.(type) {
	case *go3mf.Object:
		at = "object"
	case go3mf.Asset:
		at = "asset"
	}
	if path == regChild {
		at = "child " + at
	}
	return &versionErr{s.regSpec, at}
}

type versionErr struct {
	s  *regSpec
	at string // what was validated
}

const regChild = "/3D/child.model"

var regPlaces = []string{"model", "object", "asset", "child object", "child asset"}

func (e *versionErr) Error() string { return "version " + strconv.Itoa(e.s.v) }

type regAttrs struct {
	s    *regSpec
	vals []string
}

func (a *regAttrs) Namespace() string { return a.s.ns }
func (a *regAttrs) Unmarshal3MFAttr(x spec.XMLAttr) error {
	a.vals = append(a.vals, x.Name.Local+"="+string(x.Value))
	return nil
}
func (a *regAttrs) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }

type regElement struct {
	s    *regSpec
	name xml.Name
	n    string
	done bool
}

func (e *regElement) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }
func (e *regElement) Identify() uint32 {
	n, _ := strconv.Atoi(e.n)
	return uint32(n)
}
func (e *regElement) XMLName() xml.Name { return e.name }

type regDecoder struct{ e *regElement }

func (d *regDecoder) Start(attrs []spec.XMLAttr) error {
	for _, a := range attrs {
		if a.Name.Local == "id" {
			d.e.n = string(a.Value)
		}
	}
	return nil
}
func (d *regDecoder) End()                 { d.e.done = true }
func (d *regDecoder) Element() interface{} { return d.e }

// regOp is one call of a history.
type regOp struct {
	kind      int // 0 Register, 1 Load, 2 LoadValidator, 3 Validate
	ns        int
	v         int // registered, or seen; -1: nothing
	task      int
	call, ret int
	valid     bool // the version registered validates
	foreign   bool // something else than a registered version was returned
	at        int  // the element of a validation that is looked at
}

var regKinds = []string{"Register", "Load", "LoadValidator", "Validate"}

type regWorld struct {
	ns    []string
	vers  []int // next version
	specs [][]*regSpec
	valid [][]bool
	hist  []*regOp
}

func newRegWorld(n int) *regWorld {
	regRuns++
	w := &regWorld{vers: make([]int, n), specs: make([][]*regSpec, n), valid: make([][]bool, n)}
	for i := 0; i < n; i++ {
		w.ns = append(w.ns, fmt.Sprintf("urn:reg:%09d:%d", regRuns, i))
	}
	return w
}

// version makes the next extension of a namespace.
func (w *regWorld) version(ns int, valid bool) (*regSpec, spec.Spec) {
	s := &regSpec{ns: w.ns[ns], v: w.vers[ns]}
	w.vers[ns]++
	w.specs[ns] = append(w.specs[ns], s)
	w.valid[ns] = append(w.valid[ns], valid)
	if valid {
		return s, regValid{s}
	}
	return s, s
}

// seen identifies what a lookup returned.
func (w *regWorld) seen(o *regOp, s spec.Spec) {
	o.v = -2
	var x *regSpec
	switch y := s.(type) {
	case *regSpec:
		x = y
	case regValid:
		x = y.regSpec
	}
	if x == nil || x.ns != w.ns[o.ns] || x.v >= len(w.specs[o.ns]) || w.specs[o.ns][x.v] != x {
		o.foreign = true
		return
	}
	o.v = x.v
}

func (w *regWorld) do(o *regOp, s spec.Spec) {
	switch o.kind {
	case 0:
		o.call = regTick()
		spec.Register(w.ns[o.ns], s)
		o.ret = regTick()
	case 1:
		o.call = regTick()
		got, ok := spec.Load(w.ns[o.ns])
		o.ret = regTick()
		if ok {
			w.seen(o, got)
		} else {
			o.v = -1
		}
	case 2:
		o.call = regTick()
		got, ok := spec.LoadValidator(w.ns[o.ns])
		o.ret = regTick()
		if ok {
			w.seen(o, got)
		} else {
			o.v = -1
		}
	case 3:
		rs := go3mf.Resources{
			Assets:  []go3mf.Asset{&go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 255}}}}},
			Objects: []*go3mf.Object{{ID: 2, Components: &go3mf.Components{}}},
		}
		m := &go3mf.Model{
			Extensions: []go3mf.Extension{{Namespace: w.ns[o.ns], LocalName: "r"}},
			Resources:  rs,
			Childs:     map[string]*go3mf.ChildModel{regChild: {Resources: rs}},
		}
		o.call = regTick()
		err := m.Validate()
		o.ret = regTick()
		o.v = -1
		for _, e := range flatten(err) {
			for x := e; x != nil; {
				if v, ok := x.(*versionErr); ok && v.at == regPlaces[o.at] {
					if o.v != -1 {
						o.foreign = true
					}
					w.seen(o, v.s)
				}
				u, ok := x.(interface{ Unwrap() error })
				if !ok {
					break
				}
				x = u.Unwrap()
			}
		}
	}
}

// linearizable searches an order of the operations on one namespace.
func (w *regWorld) linearizable(ns int, init int) bool {
	var ops []*regOp
	for _, o := range w.hist {
		if o.ns == ns {
			ops = append(ops, o)
		}
	}
	if len(ops) > 30 {
		panic("history too long")
	}
	type state struct {
		done uint32
		v    int
	}
	seen := map[state]bool{}
	var try func(s state) bool
	try = func(s state) bool {
		if s.done == 1<<uint(len(ops))-1 {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		first := 1 << 60
		for i, o := range ops {
			if s.done>>uint(i)&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if s.done>>uint(i)&1 == 1 || o.call > first {
				continue
			}
			n := state{s.done | 1<<uint(i), s.v}
			switch o.kind {
			case 0:
				n.v = o.v
			case 1:
				if o.v != s.v {
					continue
				}
			default:
				want := s.v
				if want >= 0 && !w.valid[ns][want] {
					want = -1
				}
				if o.v != want {
					continue
				}
			}
			if try(n) {
				return true
			}
		}
		return false
	}
	return try(state{0, init})
}

func (w *regWorld) show(ns int) string {
	s := ""
	for _, o := range w.hist {
		if o.ns == ns {
			s += fmt.Sprintf("[%d-%d] task %d %s", o.call, o.ret, o.task, regKinds[o.kind])
			if o.kind == 3 {
				s += " of the " + regPlaces[o.at]
			}
			if o.kind == 0 {
				s += fmt.Sprintf("(version %d)", o.v)
			} else if o.v == -1 {
				s += ": nothing"
			} else {
				s += fmt.Sprintf(": version %d", o.v)
			}
			s += "; "
		}
	}
	return s
}

// c12: the registry is one atomic map.
func c12(c *Case) {
	if c.W.Chance(1, 2) {
		c12decode(c)
		return
	}
	t := c.W
	nns := 1 + t.Draw(3)
	w := newRegWorld(nns)
	init := make([]int, nns)
	for i := range init {
		init[i] = -1
		if t.Chance(1, 2) {
			_, s := w.version(i, t.Chance(1, 2))
			spec.Register(w.ns[i], s)
			init[i] = 0
		}
	}
	ntask := 2 + t.Draw(4)
	type step struct {
		o *regOp
		s spec.Spec
	}
	plan := make([][]step, ntask)
	count := make([]int, nns)
	for k := range plan {
		for j, n := 0, 1+t.Draw(6); j < n; j++ {
			o := &regOp{ns: t.Draw(nns), task: k, kind: []int{0, 1, 1, 2, 0, 3}[t.Draw(6)], at: t.Draw(len(regPlaces))}
			if count[o.ns] >= 30 {
				continue
			}
			count[o.ns]++
			var s spec.Spec
			if o.kind == 0 {
				var rs *regSpec
				rs, s = w.version(o.ns, t.Chance(1, 2))
				o.v, o.valid = rs.v, w.valid[o.ns][rs.v]
			}
			plan[k] = append(plan[k], step{o, s})
			w.hist = append(w.hist, o)
		}
	}
	c.Note("%d tasks, %d namespaces, %d calls", ntask, nns, len(w.hist))
	r := c.Sim("registry", func() {
		for k := range plan {
			k := k
			simrt.Go(fmt.Sprintf("caller %d", k), func() {
				for _, s := range plan[k] {
					w.do(s.o, s.s)
				}
			})
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	for _, o := range w.hist {
		if o.foreign {
			c.Fail("C12:foreign", "%s of namespace %d returned something that was not registered for it", regKinds[o.kind], o.ns)
			return
		}
	}
	for i := range init {
		if !w.linearizable(i, init[i]) {
			c.Fail("C12:not-linearizable", "no order of these calls on one namespace (initially version %d) explains their results: %s", init[i], w.show(i))
			return
		}
	}
	c.Tag("linearizable history")
}

// c12decode decodes while extensions are being registered.
func c12decode(c *Case) {
	t := c.W
	nns := 1 + t.Draw(2)
	w := newRegWorld(nns)
	m := &go3mf.Model{Path: go3mf.DefaultModelPath}
	for i, ns := range w.ns {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: "r" + strconv.Itoa(i)})
	}
	n := 0
	id := func() string { n++; return strconv.Itoa(n) }
	el := func() *spec.UnknownTokens {
		name := xml.Name{Space: w.ns[t.Draw(nns)], Local: "el"}
		tok := []xml.Token{xml.StartElement{Name: name, Attr: []xml.Attr{{Name: xml.Name{Local: "id"}, Value: id()}}}}
		if t.Chance(1, 3) {
			in := xml.Name{Space: name.Space, Local: "in"}
			tok = append(tok, xml.StartElement{Name: in}, xml.EndElement{Name: in})
		}
		return &spec.UnknownTokens{Token: append(tok, xml.EndElement{Name: name})}
	}
	attr := func() spec.AnyAttr {
		if t.Chance(1, 3) {
			return nil
		}
		ns := w.ns[t.Draw(nns)]
		return spec.AnyAttr{&spec.UnknownAttrs{Space: ns, Attr: []xml.Attr{{Name: xml.Name{Space: ns, Local: "id"}, Value: id()}, {Name: xml.Name{Space: ns, Local: "two"}, Value: "2"}}}}
	}
	fill := func(rs *go3mf.Resources, any *spec.Any) {
		for i, k := 0, t.Draw(3); i < k; i++ {
			rs.Assets = append(rs.Assets, &go3mf.UnknownAsset{UnknownTokens: *el()})
		}
		for i, k := 0, 1+t.Draw(3); i < k; i++ {
			o := &go3mf.Object{ID: uint32(i + 1), AnyAttr: attr(), Mesh: &go3mf.Mesh{AnyAttr: attr()}}
			for j, l := 0, t.Draw(3); j < l; j++ {
				o.Mesh.Any = append(o.Mesh.Any, el())
			}
			rs.Objects = append(rs.Objects, o)
		}
		for i, k := 0, t.Draw(3); i < k; i++ {
			*any = append(*any, el())
		}
	}
	fill(&m.Resources, &m.Any)
	if k := t.Draw(3); k > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
		for i := 0; i < k; i++ {
			ch := &go3mf.ChildModel{}
			fill(&ch.Resources, &ch.Any)
			m.Childs[fmt.Sprintf("/3D/c%d.model", i)] = ch
		}
	}
	pkg, ok := c.encodePlain(&Gen{M: m, Prec: 4})
	if !ok {
		return
	}
	ps, err := unpack(pkg)
	if err != nil {
		c.Tag("skipped: the package cannot be unpacked")
		return
	}
	_, data := shapedPack(ps, c.W)
	if t.Chance(1, 2) {
		_, s := w.version(0, t.Chance(1, 2))
		spec.Register(w.ns[0], s)
		w.hist = append(w.hist, &regOp{v: 0})
	}
	var wait []int
	var plan []spec.Spec
	var ops []*regOp
	for i, k := 0, 1+t.Draw(4); i < k; i++ {
		ns := t.Draw(nns)
		rs, s := w.version(ns, t.Chance(1, 2))
		switch t.Draw(4) {
		case 1: // the extension looks itself up while it decodes
			rs.onNew = func() { spec.Load(w.ns[ns]) }
		case 2: // the extension registers another one while it decodes
			other := fmt.Sprintf("urn:oth:%09d:%d", regRuns, i)
			rs.onNew = func() { spec.Register(other, rs) }
		}
		plan = append(plan, s)
		ops = append(ops, &regOp{ns: ns, v: rs.v})
		wait = append(wait, t.Draw([]int{20, 300, 1500}[t.Draw(3)]))
	}
	ndec := 1 + t.Draw(2)
	c.Note("%d decodes of a package with %d child models and %d pieces of extension content, %d registrations meanwhile", ndec, len(m.Childs), n, len(plan))
	got := make([]*go3mf.Model, ndec)
	errs := make([]error, ndec)
	from, to := make([]int, ndec), make([]int, ndec)
	r := c.Sim("decode", func() {
		simrt.Go("registrar", func() {
			for i := range plan {
				for j := 0; j < wait[i]; j++ {
					simrt.Yield()
				}
				w.do(ops[i], plan[i])
			}
		})
		for k := range got {
			k := k
			src := newReaderAt(data)
			got[k] = new(go3mf.Model)
			simrt.Go(fmt.Sprintf("decode %d", k), func() {
				from[k] = regTick()
				errs[k] = go3mf.NewDecoder(src, int64(len(data))).DecodeContext(context.Background(), got[k])
				to[k] = regTick()
			})
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	w.hist = append(w.hist, ops...)
	for k := range got {
		if errs[k] != nil {
			c.Fail("C12:decode-error", "a decode next to registrations reports %s", short(errs[k]))
			return
		}
		if s := w.explain(m, got[k], from[k], to[k]); s != "" {
			c.Fail("C12:decode", "%s", s)
			return
		}
	}
	c.Tag("decode next to registrations")
}

// explain checks that each piece of content was handled by the extension
// registered at some instant of the decode, and never by an earlier one than
// the content before it.
func (w *regWorld) explain(want, got *go3mf.Model, from, to int) string {
	part := func(name string, a, b *go3mf.Resources, x, y spec.Any) string {
		last := make([]int, len(w.ns))
		for i := range last { // the last registration finished before the decode began
			last[i] = -1
			for _, o := range w.hist {
				if o.ns == i && o.kind == 0 && o.ret < from && o.v > last[i] {
					last[i] = o.v
				}
			}
		}
		newest := func(ns int) int {
			v := -1
			for _, o := range w.hist {
				if o.ns == ns && o.kind == 0 && o.call < to && o.v > v {
					v = o.v
				}
			}
			return v
		}
		check := func(where string, space string, s *regSpec) string {
			ns := -1
			for i, x := range w.ns {
				if x == space {
					ns = i
				}
			}
			v := -1
			if s != nil {
				if s.ns != space {
					return fmt.Sprintf("%s of %s was handled by an extension registered for another namespace", where, name)
				}
				v = s.v
			}
			if v < last[ns] {
				return fmt.Sprintf("%s of %s was handled by version %d of its extension after version %d was in force", where, name, v, last[ns])
			}
			if v > newest(ns) {
				return fmt.Sprintf("%s of %s was handled by version %d of its extension, which was registered after the decode", where, name, v)
			}
			last[ns] = v
			return ""
		}
		element := func(where string, u *spec.UnknownTokens, v interface{}) string {
			st := u.Token[0].(xml.StartElement)
			switch e := v.(type) {
			case *regElement:
				if e.n != st.Attr[0].Value || e.name != st.Name || !e.done {
					return fmt.Sprintf("%s of %s was handled by its extension with other content", where, name)
				}
				return check(where, st.Name.Space, e.s)
			case *spec.UnknownTokens:
				if d := diffVal(u, e, where); d != "" {
					return fmt.Sprintf("%s is kept with other content: %s", name, d)
				}
			case *go3mf.UnknownAsset:
				if d := diffVal(u, &e.UnknownTokens, where); d != "" {
					return fmt.Sprintf("%s is kept with other content: %s", name, d)
				}
			default:
				return fmt.Sprintf("%s of %s became a %T", where, name, v)
			}
			return check(where, st.Name.Space, nil)
		}
		attrs := func(where string, u, v spec.AnyAttr) string {
			if len(u) != len(v) {
				return fmt.Sprintf("%s of %s has %d groups of attributes, not %d", where, name, len(v), len(u))
			}
			for i := range u {
				p := u[i].(*spec.UnknownAttrs)
				switch q := v[i].(type) {
				case *regAttrs:
					if len(q.vals) != 2 || q.vals[0] != "id="+p.Attr[0].Value || q.vals[1] != "two=2" {
						return fmt.Sprintf("the attributes of %s of %s reached their extension as %v", where, name, q.vals)
					}
					if s := check("attributes of "+where, p.Space, q.s); s != "" {
						return s
					}
				default:
					if d := diffVal(u[i], v[i], where); d != "" {
						return fmt.Sprintf("the attributes of %s of %s are kept differently: %s", where, name, d)
					}
					if s := check("attributes of "+where, p.Space, nil); s != "" {
						return s
					}
				}
			}
			return ""
		}
		if len(a.Assets) != len(b.Assets) || len(a.Objects) != len(b.Objects) || len(x) != len(y) {
			return fmt.Sprintf("%s has %d assets, %d objects and %d other elements, not %d, %d and %d", name, len(b.Assets), len(b.Objects), len(y), len(a.Assets), len(a.Objects), len(x))
		}
		for i := range a.Assets {
			if s := element(fmt.Sprintf("asset %d", i), &a.Assets[i].(*go3mf.UnknownAsset).UnknownTokens, b.Assets[i]); s != "" {
				return s
			}
		}
		for i, o := range a.Objects {
			p := b.Objects[i]
			where := fmt.Sprintf("object %d", i)
			if s := attrs(where, o.AnyAttr, p.AnyAttr); s != "" {
				return s
			}
			if p.Mesh == nil || len(p.Mesh.Any) != len(o.Mesh.Any) {
				return fmt.Sprintf("the mesh of %s of %s lost content", where, name)
			}
			if s := attrs("mesh of "+where, o.Mesh.AnyAttr, p.Mesh.AnyAttr); s != "" {
				return s
			}
			for j := range o.Mesh.Any {
				if s := element(fmt.Sprintf("element %d in the mesh of %s", j, where), o.Mesh.Any[j].(*spec.UnknownTokens), p.Mesh.Any[j]); s != "" {
					return s
				}
			}
		}
		for i := range x {
			if s := element(fmt.Sprintf("element %d", i), x[i].(*spec.UnknownTokens), y[i]); s != "" {
				return s
			}
		}
		return ""
	}
	if len(got.Childs) != len(want.Childs) {
		return fmt.Sprintf("%d child models, not %d", len(got.Childs), len(want.Childs))
	}
	for _, p := range sortedChilds(want) {
		a, b := want.Childs[p], got.Childs[p]
		if b == nil {
			return p + " is missing"
		}
		if s := part(p, &a.Resources, &b.Resources, a.Any, b.Any); s != "" {
			return s
		}
	}
	return part("the root model", &want.Resources, &got.Resources, want.Any, got.Any)
}

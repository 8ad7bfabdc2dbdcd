package harness

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"regexp"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	gerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

func init() { scenarios["C15"] = c15 }

// site is an attribute value of a model that can be made invalid: mark gives
// it, or a neighbour of its, a text that occurs nowhere else in the document,
// and lose is what decoding must make of it once it is invalid.
type site struct {
	part string // part name, "" for the root
	elem string // element and attribute
	attr string
	kind int // what is invalid: 0 integer, 1 float, 2 enumeration, 3 boolean, 4 colour, 5 matrix, 6 UUID, 7 integer in a list, 8 float in a list, 9 enumeration in a list
	text string
	near bool // text marks the element, not the value
	kept bool // the invalid text is kept: what is not understood is not parsed
	mark func()
	lose func()
}

type siteList struct {
	part  string
	sites []site
}

func (l *siteList) add(s site) {
	s.part = l.part
	l.sites = append(l.sites, s)
}

func (l *siteList) n() int { return len(l.sites) }

func (l *siteList) uint(elem, attr string, v *uint32) *site {
	k := uint32(3735183601 + l.n())
	l.add(site{elem: elem, attr: attr, text: fmt.Sprint(k), mark: func() { *v = k }, lose: func() { *v = 0 }})
	return &l.sites[len(l.sites)-1]
}

func (l *siteList) float(elem, attr string, v *float32) *site {
	k := float32(4096+l.n()) + 0.125
	l.add(site{elem: elem, attr: attr, kind: 1, text: fmt.Sprint(k), mark: func() { *v = k }, lose: func() { *v = 0 }})
	return &l.sites[len(l.sites)-1]
}

// enum is an attribute of the element whose attribute v gets a number.
func (l *siteList) enum(elem, attr string, v *uint32, kind int, set, lose func()) {
	k := uint32(3735183601 + l.n())
	l.add(site{elem: elem, attr: attr, kind: kind, text: fmt.Sprint(k), near: true, mark: func() { *v = k; set() }, lose: lose})
}

func (l *siteList) color(elem, attr string, v *color.RGBA) {
	n := l.n()
	c := color.RGBA{0x12, uint8(n >> 8), uint8(n), 0x34}
	l.add(site{elem: elem, attr: attr, kind: 4, text: fmt.Sprintf("#%02x%02x%02x%02x", c.R, c.G, c.B, c.A), mark: func() { *v = c }, lose: func() { *v = color.RGBA{} }})
}

func (l *siteList) matrix(elem string, v *go3mf.Matrix) {
	k := float32(4096+l.n()) + 0.125
	l.add(site{elem: elem, attr: "transform", kind: 5, text: fmt.Sprint(k), mark: func() {
		*v = go3mf.Identity()
		v[12] = k
	}, lose: func() { *v = go3mf.Matrix{} }})
}

func (l *siteList) uuid(elem string, v *string) {
	u := fmt.Sprintf("77777777-7777-4777-8777-%012d", l.n())
	l.add(site{elem: elem, attr: "UUID", kind: 6, text: u, mark: func() { *v = u }, lose: func() { *v = "" }})
}

func (l *siteList) attrs(elem string, at spec.AnyAttr) {
	for _, a := range at {
		switch x := a.(type) {
		case *ExtAttrs:
			l.uint(elem, "n", &x.N)
		case *production.BuildAttr:
			l.uuid(elem, &x.UUID)
		case *production.ItemAttr:
			l.uuid(elem, &x.UUID)
		case *production.ObjectAttr:
			l.uuid(elem, &x.UUID)
		case *production.ComponentAttr:
			l.uuid(elem, &x.UUID)
		case *slices.ObjectAttr:
			l.uint(elem, "slicestackid", &x.SliceStackID)
			l.enum(elem, "meshresolution", &x.SliceStackID, 2, func() { x.MeshResolution = slices.ResolutionLow }, func() { x.MeshResolution = slices.ResolutionFull })
		}
	}
}

func (l *siteList) metadata(ms []go3mf.Metadata) {
	for i := range ms {
		m := &ms[i]
		t := fmt.Sprintf("type-%09d", l.n())
		l.add(site{elem: "metadata", attr: "preserve", kind: 3, text: t, near: true, mark: func() { m.Type, m.Preserve = t, true }, lose: func() { m.Preserve = false }})
	}
}

func (l *siteList) uints(elem, attr string, v []uint32) {
	for i := range v {
		l.uint(elem, attr, &v[i]).kind = 7
	}
}

// badSites lists the places of a model where a value can be made invalid.
func badSites(m *go3mf.Model) []site {
	l := &siteList{}
	for _, p := range sortedChilds(m) {
		l.part = p
		l.resources(&m.Childs[p].Resources)
		l.any(m.Childs[p].Any)
	}
	l.part = ""
	l.metadata(m.Metadata)
	l.attrs("model", m.AnyAttr)
	l.any(m.Any)
	l.resources(&m.Resources)
	l.attrs("build", m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		l.uint("item", "objectid", &it.ObjectID)
		l.matrix("item", &it.Transform)
		l.attrs("item", it.AnyAttr)
		l.group(&it.Metadata)
	}
	return l.sites
}

func (l *siteList) group(g *go3mf.MetadataGroup) {
	l.attrs("metadatagroup", g.AnyAttr)
	l.metadata(g.Metadata)
}

func (l *siteList) any(any spec.Any) {
	for _, a := range any {
		if x, ok := a.(*ExtElem); ok {
			l.ext(x)
		}
	}
}

func (l *siteList) ext(x *ExtElem) {
	l.uint(x.Name, "n", &x.N)
	for _, k := range x.Kids {
		l.ext(k)
	}
}

func (l *siteList) resources(rs *go3mf.Resources) {
	l.attrs("resources", rs.AnyAttr)
	for _, a := range rs.Assets {
		switch x := a.(type) {
		case *ExtAsset:
			l.ext(&x.ExtElem)
		case *go3mf.BaseMaterials:
			l.attrs("basematerials", x.AnyAttr)
			l.uint("basematerials", "id", &x.ID)
			for i := range x.Materials {
				l.color("base", "displaycolor", &x.Materials[i].Color)
				l.attrs("base", x.Materials[i].AnyAttr)
			}
		case *materials.ColorGroup:
			l.uint("colorgroup", "id", &x.ID)
			for i := range x.Colors {
				l.color("color", "color", &x.Colors[i])
			}
		case *materials.Texture2D:
			l.uint("texture2d", "id", &x.ID)
			l.enum("texture2d", "contenttype", &x.ID, 2, func() {}, func() { x.ContentType = 0 })
			l.enum("texture2d", "tilestyleu", &x.ID, 2, func() { x.TileStyleU = materials.TileNone }, func() { x.TileStyleU = 0 })
			l.enum("texture2d", "tilestylev", &x.ID, 2, func() { x.TileStyleV = materials.TileMirror }, func() { x.TileStyleV = 0 })
			l.enum("texture2d", "filter", &x.ID, 2, func() { x.Filter = materials.TextureFilterLinear }, func() { x.Filter = 0 })
		case *materials.Texture2DGroup:
			l.uint("texture2dgroup", "id", &x.ID)
			l.uint("texture2dgroup", "texid", &x.TextureID)
			for i := range x.Coords {
				l.float("tex2coord", "u", &x.Coords[i][0])
				l.float("tex2coord", "v", &x.Coords[i][1])
			}
		case *materials.CompositeMaterials:
			l.uint("compositematerials", "id", &x.ID)
			l.uint("compositematerials", "matid", &x.MaterialID)
			l.uints("compositematerials", "matindices", x.Indices)
			for i := range x.Composites {
				for j := range x.Composites[i].Values {
					l.float("composite", "values", &x.Composites[i].Values[j]).kind = 8
				}
			}
		case *materials.MultiProperties:
			l.uint("multiproperties", "id", &x.ID)
			l.uints("multiproperties", "pids", x.PIDs)
			if len(x.BlendMethods) > 0 {
				l.enum("multiproperties", "blendmethods", &x.ID, 9, func() { x.BlendMethods[0] = materials.BlendMultiply }, func() { x.BlendMethods[0] = 0 })
			}
			for i := range x.Multis {
				l.uints("multi", "pindices", x.Multis[i].PIndices)
			}
		case *slices.SliceStack:
			l.stack(x)
		case *go3mf.UnknownAsset:
			l.unknown(x)
		}
	}
	for _, o := range rs.Objects {
		l.object(o)
	}
}

func (l *siteList) unknown(x *go3mf.UnknownAsset) {
	s, ok := x.Token[0].(xml.StartElement)
	if !ok {
		return
	}
	for i := range s.Attr {
		if a := &s.Attr[i]; a.Name.Space == "" && a.Name.Local == "id" {
			k := fmt.Sprint(3735183601 + l.n())
			// The text of what is not understood is kept.
			l.add(site{elem: s.Name.Local, attr: "id", text: k, kept: true, mark: func() { a.Value = k }, lose: func() { a.Value = "bogus" }})
			return
		}
	}
}

func (l *siteList) stack(x *slices.SliceStack) {
	l.uint("slicestack", "id", &x.ID)
	l.float("slicestack", "zbottom", &x.BottomZ)
	for i := range x.Refs {
		l.uint("sliceref", "slicestackid", &x.Refs[i].SliceStackID)
	}
	for i := range x.Slices {
		s := &x.Slices[i]
		l.float("slice", "ztop", &s.TopZ)
		for j := range s.Vertices.Vertex {
			l.float("vertex", "x", &s.Vertices.Vertex[j][0])
			l.float("vertex", "y", &s.Vertices.Vertex[j][1])
		}
		for j := range s.Polygons {
			p := &s.Polygons[j]
			l.uint("polygon", "startv", &p.StartV)
			for k := range p.Segments {
				g := &p.Segments[k]
				l.uint("segment", "v2", &g.V2)
				if g.PID != 0 {
					l.uint("segment", "pid", &g.PID)
					l.uint("segment", "p1", &g.P1)
					l.uint("segment", "p2", &g.P2)
				}
			}
		}
	}
}

func (l *siteList) object(o *go3mf.Object) {
	l.uint("object", "id", &o.ID)
	l.enum("object", "type", &o.ID, 2, func() { o.Type = go3mf.ObjectTypeSupport }, func() { o.Type = go3mf.ObjectTypeModel })
	l.attrs("object", o.AnyAttr)
	l.group(&o.Metadata)
	if o.Components != nil {
		l.attrs("components", o.Components.AnyAttr)
		for _, c := range o.Components.Component {
			l.uint("component", "objectid", &c.ObjectID)
			l.matrix("component", &c.Transform)
			l.attrs("component", c.AnyAttr)
		}
	}
	m := o.Mesh
	if m == nil {
		return
	}
	if len(m.Triangles.Triangle) == 0 {
		l.uint("object", "pid", &o.PID)
		l.uint("object", "pindex", &o.PIndex)
	}
	l.attrs("mesh", m.AnyAttr)
	l.attrs("vertices", m.Vertices.AnyAttr)
	l.attrs("triangles", m.Triangles.AnyAttr)
	l.any(m.Any)
	few := func(n int) int { // not every one of a big mesh
		if n > 12 {
			return n / 12
		}
		return 1
	}
	for i := 0; i < len(m.Vertices.Vertex); i += few(len(m.Vertices.Vertex)) {
		v := &m.Vertices.Vertex[i]
		l.float("vertex", "x", &v[0])
		l.float("vertex", "y", &v[1])
		l.float("vertex", "z", &v[2])
	}
	for i := 0; i < len(m.Triangles.Triangle); i += few(len(m.Triangles.Triangle)) {
		t := &m.Triangles.Triangle[i]
		l.uint("triangle", "v1", &t.V1)
		l.uint("triangle", "v2", &t.V2)
		l.uint("triangle", "v3", &t.V3)
		l.attrs("triangle", t.AnyAttr)
		if t.PID != 0 && (t.P1 != t.P2 || t.P1 != t.P3) {
			l.uint("triangle", "pid", &t.PID)
			l.uint("triangle", "p3", &t.P3)
		}
	}
	for _, a := range m.Any {
		if x, ok := a.(*beamlattice.BeamLattice); ok {
			l.lattice(x)
		}
	}
}

func (l *siteList) lattice(x *beamlattice.BeamLattice) {
	l.float("beamlattice", "radius", &x.Radius)
	l.float("beamlattice", "minlength", &x.MinLength)
	l.uint("beamlattice", "clippingmesh", &x.ClippingMeshID)
	l.uint("beamlattice", "representationmesh", &x.RepresentationMeshID)
	l.enum("beamlattice", "clippingmode", &x.ClippingMeshID, 2, func() { x.ClipMode = beamlattice.ClipInside }, func() { x.ClipMode = beamlattice.ClipNone })
	l.enum("beamlattice", "cap", &x.ClippingMeshID, 2, func() { x.CapMode = beamlattice.CapModeButt }, func() {
		// A beam without a cap of its own has that of the lattice.
		for i := range x.Beams.Beam {
			for k := range x.Beams.Beam[i].CapMode {
				if c := &x.Beams.Beam[i].CapMode[k]; *c == x.CapMode {
					*c = 0
				}
			}
		}
		x.CapMode = 0
	})
	for i := range x.Beams.Beam {
		b := &x.Beams.Beam[i]
		l.uint("beam", "v1", &b.Indices[0])
		l.uint("beam", "v2", &b.Indices[1])
		// Without a radius of its own an end has the radius of the other end.
		s := l.float("beam", "r2", &b.Radius[1])
		s.lose = func() { b.Radius[1] = b.Radius[0] }
		for k := range b.CapMode {
			k := k
			l.enum("beam", fmt.Sprintf("cap%d", k+1), &b.Indices[0], 2, func() {
				b.CapMode[k] = beamlattice.CapModeButt
				if x.CapMode == b.CapMode[k] {
					b.CapMode[k] = beamlattice.CapModeSphere
				}
			}, func() { b.CapMode[k] = x.CapMode })
		}
	}
	for i := range x.BeamSets.BeamSet {
		l.uints("ref", "index", x.BeamSets.BeamSet[i].Refs)
	}
}

var badTexts = [][]string{
	{"bogus", "", "1x", "-1", "1.5", "0x", "1,5", "é"},
	{"bogus", "", "1x", "--1", "1,5", "1.2.3", "e5", "é", "0x1"},
	{"bogus", "", "MODELS", "ÿ"},
	{"bogus", "", "yes", "2"},
	{"bogus", "", "#12", "12345678", "#123456789abc"},
	{"bogus", "", "1 0 0", "1 0 0 0 1 0 0 0 1 0 0 0 0", "1 0 0 0 x 0 0 0 1 0 0 0", "1,0,0,0,1,0,0,0,1,0,0,0"},
	{"bogus", "", "77777777-7777-4777-8777", "77777777-7777-4777-8777-77777777777g", "77777777x7777-4777-8777-777777777777"},
	{"bogus", "1x", "-1", "1.5"},
	{"bogus", "1x", "--1", "1,5"},
	{"bogus", "MIXED"},
}

// span is the text of a value in a document.
type span struct {
	lo, hi  int
	tag     int // where its element starts
	garbage string
	s       *site
}

var markRE = map[string]*regexp.Regexp{}

// locate finds the text of a value.
func (s *site) locate(doc []byte) (sp span, ok bool) {
	at := bytes.Index(doc, []byte(s.text))
	if at < 0 || bytes.Index(doc[at+1:], []byte(s.text)) >= 0 {
		return sp, false
	}
	sp.s = s
	sp.tag = bytes.LastIndexByte(doc[:at], '<')
	sp.lo, sp.hi = at, at+len(s.text)
	name := doc[sp.tag+1:]
	name = name[:bytes.IndexAny(name, " />")]
	if string(name[bytes.IndexByte(name, ':')+1:]) != s.elem {
		return sp, false // the mark is gone, but another value happens to have its text
	}
	switch {
	case s.near:
		re := markRE[s.attr]
		if re == nil {
			re = regexp.MustCompile(`[ :]` + s.attr + `="([^"]*)"`)
			markRE[s.attr] = re
		}
		end := sp.tag + bytes.IndexByte(doc[sp.tag:], '>')
		m := re.FindSubmatchIndex(doc[sp.tag:end])
		if m == nil {
			return sp, false
		}
		sp.lo, sp.hi = sp.tag+m[2], sp.tag+m[3]
		if s.kind == 9 { // the first one of the list
			if k := bytes.IndexByte(doc[sp.lo:sp.hi], ' '); k >= 0 {
				sp.hi = sp.lo + k
			}
		}
	case s.kind == 5, s.kind == 1, s.kind == 4:
		sp.lo = bytes.LastIndexByte(doc[:at], '"') + 1
		sp.hi = at + bytes.IndexByte(doc[at:], '"')
	case s.kind == 8:
		for sp.hi < len(doc) && doc[sp.hi] >= '0' && doc[sp.hi] <= '9' {
			sp.hi++
		}
	}
	return sp, true
}

// element is a start tag of a model document.
type element struct {
	lo, name int    // where it starts, and where its name ends
	path     string // as errors call it
	attrs    []string
	closed   bool // it has no room for attributes of other namespaces
	body     int  // where its content starts, if it has no room for elements of other namespaces
}

// foreignElements are ignored wherever they are not kept.
var foreignElements = []string{
	`<zz:foo xmlns:zz="http://example.com/zz"/>`,
	`<zz:foo xmlns:zz="http://example.com/zz" id="bogus">text<zz:bar>more</zz:bar></zz:foo>`,
	`<zz:NAME xmlns:zz="http://example.com/zz" x="bogus" id="bogus" v1="bogus"/>`,
	`<zz:NAME xmlns:zz="http://example.com/zz"><NAME id="bogus" x="bogus"/><vertex x="bogus"/><object id="bogus"><mesh/></object></zz:NAME>`,
	`<NAME xmlns="http://example.com/zz" id="bogus" x="bogus"/>`,
	`<foo xmlns="http://example.com/zz"><NAME x="bogus"><vertex/><mesh><vertices><vertex x="bogus"/></vertices></mesh></NAME></foo>`,
}

// containers have no room for elements of other namespaces, and what they are for.
var containers = map[string]string{"object": "mesh", "vertices": "vertex", "triangles": "triangle", "components": "component", "build": "item",
	"metadatagroup": "metadata", "basematerials": "base", "slicestack": "slice", "slice": "polygon", "polygon": "segment", "colorgroup": "color",
	"texture2dgroup": "tex2coord", "compositematerials": "composite", "multiproperties": "multi", "beamlattice": "beams", "beams": "beam",
	"beamsets": "beamset", "beamset": "ref"}

// numbered elements are told apart by their position among their siblings.
var numbered = map[string]bool{"metadata": true, "object": true, "base": true, "vertex": true, "triangle": true,
	"item": true, "component": true, "color": true, "tex2coord": true, "composite": true, "multi": true, "slice": true,
	"sliceref": true, "polygon": true, "segment": true, "beam": true, "beamset": true, "ref": true, "kid": true}

var meshVertexRE = regexp.MustCompile(`^/model/resources/object\[\d+\]/mesh/vertices/vertex\[\d+\]$`)

// elements lists the start tags of a document, which is well formed.
func elements(doc []byte) (els []element) {
	type open struct {
		name  string
		count map[string]int
		ours  bool // the decoder understands it
	}
	x := xml.NewDecoder(bytes.NewReader(doc))
	x.Strict = false
	spaces := map[string]string{}
	stack := []open{{count: map[string]int{}, ours: true}}
	for {
		lo := int(x.InputOffset())
		t, err := x.RawToken()
		if err != nil {
			return els
		}
		switch t := t.(type) {
		case xml.StartElement:
			up := &stack[len(stack)-1]
			name := t.Name.Local
			e := element{lo: lo}
			e.name = lo + 1 + len(name)
			if t.Name.Space != "" {
				e.name += len(t.Name.Space) + 1
			}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" {
					spaces[a.Name.Local] = a.Value
				}
				if a.Name.Space == "" && a.Name.Local != "xmlns" {
					e.attrs = append(e.attrs, a.Name.Local)
				}
			}
			end := int(x.InputOffset())
			ours := false
			switch spaces[t.Name.Space] {
			case materials.Namespace, slices.Namespace, beamlattice.Namespace:
				e.closed = true
				ours = true
			default:
				ours = t.Name.Space == ""
			}
			if containers[name] != "" && ours && up.ours && doc[end-2] != '/' {
				e.body = end
			}
			k := -1
			switch {
			case strings.HasSuffix(up.name, "/resources") && (name != "object" || t.Name.Space != ""):
				k = up.count["an asset"]
				up.count["an asset"]++
			case numbered[name]:
				k = up.count[name]
				up.count[name]++
			}
			e.path = up.name + "/" + name
			if k >= 0 {
				e.path += fmt.Sprintf("[%d]", k)
			}
			if t.Name.Space == "" && meshVertexRE.MatchString(e.path) {
				e.closed = true
			}
			els = append(els, e)
			stack = append(stack, open{e.path, map[string]int{}, ours && up.ours})
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		}
	}
}

// c15: lenient decoding keeps what is valid and reports what is not.
func c15(c *Case) {
	o := GenOpt{MaxChilds: 3, Small: c.W.Chance(2, 3), NoAtt: c.W.Chance(2, 3), NoUnknown: c.W.Chance(1, 3)}
	if c.W.Chance(1, 8) {
		o.MaxBig = 1200
	}
	g := genModel(c.W, o)
	a, b := badSites(g.M), badSites(g.Want)
	if len(a) != len(b) {
		panic("sites differ")
	}
	n := 0
	picked := map[int]bool{}
	elems := map[string]bool{}
	if len(a) > 0 {
		n = 1 + c.F.Draw(6)
		if c.F.Chance(1, 10) {
			n = 30
		}
		focus := -1 // one kind in particular
		if c.F.Chance(1, 3) {
			focus = a[c.F.Draw(len(a))].kind
		}
		for i := 0; i < n; i++ {
			k := c.F.Draw(len(a))
			for j := 0; focus >= 0 && a[k].kind != focus && j < len(a); j++ {
				k = (k + 1) % len(a)
			}
			picked[k] = true
		}
	}
	order := make([]int, 0, len(picked))
	for k := range picked {
		order = append(order, k)
	}
	sort.Ints(order)
	unit := c.F.Chance(1, 8)
	if unit {
		g.M.Units, g.Want.Units = go3mf.UnitInch, go3mf.UnitInch
	}
	for _, k := range order {
		a[k].mark()
		b[k].mark()
	}
	pkg, ok := c.encodePlain(g)
	if !ok {
		return
	}
	parts, err := unpack(pkg)
	if err != nil {
		c.Tag("skipped: the package cannot be unpacked")
		return
	}
	entry := func(p string) string {
		if p == "" {
			p = g.M.PathOrDefault()
		}
		return strings.TrimPrefix(p, "/")
	}
	byPart := map[string][]span{}
	lost := map[string][]int{}
	for _, k := range order {
		s := &b[k]
		sp, ok := s.locate(partOf(parts, entry(s.part)).Data)
		if !ok {
			// Two sites of one element replaced each other's mark.
			continue
		}
		t := badTexts[s.kind]
		sp.garbage = t[c.F.Draw(len(t))]
		clash := false
		for _, x := range byPart[s.part] {
			if x.lo == sp.lo || x.lo < sp.hi && sp.lo < x.hi {
				clash = true
			}
		}
		if clash {
			continue
		}
		if s.kept {
			sp.garbage = "bogus"
		}
		byPart[s.part] = append(byPart[s.part], sp)
		lost[s.part] = append(lost[s.part], k)
		elems[s.elem] = true
	}
	if unit {
		doc := partOf(parts, entry("")).Data
		at := bytes.Index(doc, []byte(`unit="inch"`))
		if at >= 0 {
			s := &site{elem: "model", attr: "unit", lose: func() { g.Want.Units = 0 }}
			byPart[""] = append(byPart[""], span{lo: at + 6, hi: at + 10, tag: bytes.LastIndexByte(doc[:at], '<'), garbage: "bogus", s: s})
			s.lose()
		}
	}
	// what must be reported: element and attribute -> at least and at most
	least, most := map[string]int{}, map[string]int{}
	nspan := 0
	for _, k := range order {
		for _, x := range lost[b[k].part] {
			if x == k {
				b[k].lose()
			}
		}
	}
	foreign := c.F.Chance(1, 3)
	for _, p := range append([]string{""}, sortedChilds(g.M)...) {
		sps := byPart[p]
		if len(sps) == 0 && !foreign {
			continue
		}
		pt := partOf(parts, entry(p))
		els := elements(pt.Data)
		if foreign {
			// Attributes of a namespace that nobody reads, whatever their name and value.
			for n := c.F.Draw(6); n > 0; n-- {
				e := els[c.F.Draw(len(els))]
				if e.body > 0 && c.F.Chance(1, 2) {
					local := e.path[strings.LastIndexByte(e.path, '/')+1:]
					if k := strings.IndexByte(local, '['); k > 0 {
						local = local[:k]
					}
					txt := strings.ReplaceAll(foreignElements[c.F.Draw(len(foreignElements))], "NAME", containers[local])
					clash := false
					for _, x := range sps {
						clash = clash || x.lo == e.body
					}
					if !clash {
						sps = append(sps, span{lo: e.body, hi: e.body, garbage: txt})
					}
					continue
				}
				if !e.closed || len(e.attrs) == 0 {
					continue
				}
				at := e.attrs[c.F.Draw(len(e.attrs))]
				txt := fmt.Sprintf(` xmlns:zz="http://example.com/zz" zz:%s="%s"`, at, []string{"bogus", "", "7", "-1.5"}[c.F.Draw(4)])
				clash := false
				for _, x := range sps {
					clash = clash || x.lo == e.name
				}
				if !clash {
					sps = append(sps, span{lo: e.name, hi: e.name, garbage: txt})
				}
			}
		}
		sort.Slice(sps, func(i, j int) bool { return sps[i].lo < sps[j].lo })
		var out []byte
		at := 0
		seen := map[string]bool{}
		for _, sp := range sps {
			out = append(append(out, pt.Data[at:sp.lo]...), sp.garbage...)
			at = sp.hi
			if sp.s == nil {
				c.Note("part %q at %d: foreign: %s", p, sp.lo, sp.garbage)
				continue
			}
			k := sort.Search(len(els), func(i int) bool { return els[i].lo >= sp.tag })
			name := els[k].path + " " + sp.s.attr
			c.Note("part %q, %s: %q", p, name, sp.garbage)
			if k := fmt.Sprint(sp.tag, name); !seen[k] {
				seen[k] = true
				least[name]++
			}
			most[name]++
			nspan++
			fired(fkBadPart)
		}
		pt.Data = append(out, pt.Data[at:]...)
	}
	if nspan == 0 {
		c.Tag("nothing invalid")
	}
	if foreign {
		c.Tag("with foreign attributes or elements")
	}
	mode := c.F.Draw(8) // 6: a part fails too, 7: cancelled
	if mode == 5 && len(g.M.Childs) == 0 && len(g.M.Relationships)+len(g.M.RootRelationships)+len(g.Atts) == 0 {
		c15doc(c, g, parts[indexOf(parts, entry(""))].Data, least, most)
		return
	}
	var k *canceller
	start := func() {}
	inj := &partErr{"a part", "stream failure"}
	_, data := shapedPack(parts, c.W)
	names := modelEntries(g)
	ctl := func() *stream {
		n := names[c.F.Draw(len(names))]
		for i := 0; i < nparts; i++ {
			if partName(i) == n {
				return partProto(i)
			}
		}
		panic("no stream " + n)
	}
	switch mode {
	case 6:
		s := ctl()
		s.failErr, s.failAt, s.withData = inj, c.F.Draw(len(s.data)+1), c.F.Chance(1, 2)
		c.Note("%s fails at %d of %d", names, s.failAt, len(s.data))
	case 7:
		k = &canceller{count: func() []int { return nil }}
		start = c.cancelPlan(k, ctl)
	}
	src := newReaderAt(data).shape(c.W)
	m := new(go3mf.Model)
	r := c.Sim("decode", func() {
		ctx := context.Background()
		if k != nil {
			start()
			ctx = k.ctx
		}
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = false
		err = d.DecodeContext(ctx, m)
		if k != nil {
			k.end()
		}
	})
	if len(r.Panics) > 0 {
		return
	}
	if mode == 6 {
		if err == nil || !strings.Contains(err.Error(), inj.Error()) {
			c.Fail("C15:unreported-failure", "a part could not be read but the decode reports %s", short(err))
			return
		}
		c.Tag("failing part reported")
		return
	}
	if k != nil && k.fired && err != nil && strings.Contains(err.Error(), k.want.Error()) {
		c.Tag("cancellation reported")
		return
	}
	if k != nil && k.how == 0 {
		c.Fail("C15:unreported-cancel", "the context was done before the call, which reports %s", short(err))
		return
	}
	if c.judgeLenient(err, least, most) {
		return
	}
	if d := diffCanon(g.WantCanon(), canon(m, nil)); d != "" {
		c.Fail("C15:differs:"+diffClass(d), "the model differs in something that was valid (the error reported: %s): %s", short(err), d)
		return
	}
	for e := range elems {
		c.Tag("in " + e)
	}
	c.Tag("all reported, the rest kept")
}

func indexOf(ps []Part, name string) int {
	for i := range ps {
		if ps[i].Name == name {
			return i
		}
	}
	return 0
}

// c15doc decodes a document by itself.
func c15doc(c *Case, g *Gen, doc []byte, least, most map[string]int) {
	m := new(go3mf.Model)
	var err error
	r := c.Sim("unmarshal", func() { err = go3mf.UnmarshalModel(doc, m) })
	if len(r.Panics) > 0 || c.judgeLenient(err, least, most) {
		return
	}
	w := clone(g.Want)
	w.Path, m.Path = "", ""
	if d := diffCanon(canon(w, nil), canon(m, nil)); d != "" {
		c.Fail("C15:differs:"+diffClass(d), "the model differs in something that was valid (the error reported: %s): %s", short(err), d)
		return
	}
	c.Tag("document by itself")
}

// judgeLenient compares what was reported with what is invalid.
func (c *Case) judgeLenient(err error, least, most map[string]int) bool {
	got := map[string]int{}
	for _, e := range flatten(err) {
		var pe *gerr.ParseAttrError
		if !errors.As(e, &pe) {
			c.Fail("C15:foreign-error", "an invalid value is reported as %s", short(e))
			return true
		}
		name := ""
		var we *gerr.Error
		if errors.As(e, &we) {
			name = we.XPath()
		}
		got[name+" "+pe.Name]++
	}
	for _, k := range sortedKeys(least) {
		if got[k] < least[k] {
			c.Fail("C15:unreported:"+k, "%d invalid values of %s but %d reported (%s)", least[k], k, got[k], short(err))
			return true
		}
	}
	for _, k := range sortedKeys(got) {
		if got[k] > most[k] {
			c.Fail("C15:overreported:"+k, "%d invalid values of %s but %d reported (%s)", most[k], k, got[k], short(err))
			return true
		}
	}
	return false
}

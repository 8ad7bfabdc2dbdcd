package harness

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"math"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"verifsim/simrt"
)

// GenOpt limits what genModel makes.
type GenOpt struct {
	MaxChilds  int
	MinChilds  int
	NoAtt      bool // no attachments, textures or thumbnails
	NoUnknown  bool // no unknown content
	MaxBig     int  // most vertices of a big mesh; 0: no big meshes
	ForceBig   bool // every child gets a mesh of MaxBig vertices
	Small      bool // few of everything
	Explicit   bool // spell out every relationship the encoder would add
	Undeclared bool // use extensions the model does not declare
	Acyclic    bool
	OddNames   bool // parts whose names are not ASCII, or in need of escapes
	ChildStamp bool // every child has an object whose name is its path
}

// Gen is a generated model with its attachments' bytes.
type Gen struct {
	M    *go3mf.Model // what is given to the encoder
	Atts []Att
	Prec int
	Want *go3mf.Model // what decoding yields: M plus implied relationships
}

type gen struct {
	t    *simrt.Tape
	o    GenOpt
	g    *Gen
	ns   []go3mf.Extension // unknown namespaces declared
	has  map[string]bool   // registered extensions declared
	uuid uint64
	rng  *rng
	n    int
}

// rng is a small generator for bulk data, seeded by one draw.
type rng struct{ s uint64 }

//go:norace
func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return simrt.Mix(r.s)
}

//go:norace
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next()>>33) % n
}

const (
	nsA = "http://example.com/a/2020"
	nsB = "urn:vendor:b"
)

func genModel(t *simrt.Tape, o GenOpt) *Gen {
	g := &gen{t: t, o: o, g: &Gen{}, has: map[string]bool{}}
	g.rng = &rng{uint64(t.Draw(1 << 30))}
	g.model()
	return g.g
}

func (g *gen) chance(a, b int) bool { return g.t.Chance(a, b) }

var words = []string{"part", "Über", "日本語", "a&b", "x<y>z", `q"uo'te`, "tab\there", "nl\nline", "\U0001F600", " lead", "trail ", "]]>", "]x>y]]", "&amp;", "a;b", "é", "0", "cr\rlf\r\n", "\u00a0", "\u2028x\ufeff", "%20{}", "'\\", "<!--", "\u202eRTL"}

// sharedName begins several names longer than any plausible name buffer.
const sharedName = "aVeryLongNameThatSeveralElementsShareUpToItsLastCharacter"

// name makes an XML name that ends in the digit j, so that names with
// different j differ.
func (g *gen) name(base string, j int) string {
	d := strconv.Itoa(j % 10)
	switch g.t.Draw(12) {
	case 1, 2:
		return sharedName + d
	case 3: // around the sizes of small buffers
		return (base + sharedName)[:[]int{6, 7, 8, 14, 15, 16, 30, 31, 32}[g.t.Draw(9)]] + d
	case 4:
		return base + ".-_" + d
	case 5:
		return "_" + base + "é" + d
	case 6:
		return []string{"p", "v", "r"}[g.t.Draw(3)] + d // like names the core uses
	}
	return base + d
}

// u32 makes a number below n or, now and then, one near the limits of the
// integer types.
func (g *gen) u32(n int) uint32 {
	if g.rng.n(24) == 0 {
		return []uint32{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[g.rng.n(12)]
	}
	return uint32(g.rng.n(n))
}

// text makes a string, sometimes longer than the XML reader's buffer.
func (g *gen) text(empty bool) string {
	k := g.t.Draw(24)
	switch {
	case k == 0 && empty:
		return ""
	case k < 12:
		return "n" + strconv.Itoa(g.t.Draw(100))
	case k < 14:
		return words[g.t.Draw(len(words))]
	case k < 22:
		return words[g.t.Draw(len(words))] + strconv.Itoa(g.t.Draw(10))
	}
	n := 200
	if !g.o.Small {
		n = []int{4090, 4096, 4097, 9000}[g.t.Draw(4)] + g.rng.n(9)
	}
	b := make([]byte, 0, n)
	for len(b) < n {
		switch g.rng.n(20) {
		case 0:
			b = append(b, "&"...)
		case 1:
			b = append(b, "é"...)
		default:
			b = append(b, byte('a'+g.rng.n(26)))
		}
	}
	return string(b)
}

// num makes a coordinate that survives four decimals.
func (g *gen) num() float32 {
	if g.g.Prec < 0 {
		switch g.rng.n(4) {
		case 0:
			f := math.Float32frombits(uint32(g.rng.next()))
			if f == f && !math.IsInf(float64(f), 0) {
				return f
			}
		case 1:
			return float32(g.rng.n(1<<24)) / 7919
		}
	}
	return float32(g.rng.n(1<<14)-(1<<13)) / 16
}

func (g *gen) posnum() float32 { return float32(1+g.rng.n(1<<12)) / 16 }

func (g *gen) matrix() go3mf.Matrix {
	if !g.chance(1, 2) {
		return go3mf.Matrix{}
	}
	for {
		var v [12]float32
		for i := range v {
			v[i] = float32(g.rng.n(4001)-2000) / 8
		}
		m := go3mf.Matrix{v[0], v[1], v[2], 0, v[3], v[4], v[5], 0, v[6], v[7], v[8], 0, v[9], v[10], v[11], 1}
		if m != go3mf.Identity() {
			return m
		}
	}
}

func (g *gen) newUUID() string {
	g.uuid++
	x := simrt.Mix(g.uuid ^ g.rng.s)
	return fmt.Sprintf("%08x-%04x-4%03x-8%03x-%012x", uint32(x), uint16(x>>32), x>>48&0xfff, g.uuid&0xfff, x>>16&0xffffffffffff)
}

func (g *gen) model() {
	t := g.t
	m := &go3mf.Model{}
	g.g.M = m
	g.g.Prec = []int{4, 4, 6, -1}[t.Draw(4)]
	m.Units = go3mf.Units(t.Draw(6))
	m.Language = []string{"", "en-US", "es-ES", "zh & \"x\""}[t.Draw(4)]
	if g.chance(1, 3) {
		m.Path = []string{"/3D/other.model", "/model.model", "/3D/deep/er/root-1.model"}[t.Draw(3)]
	} else {
		m.Path = go3mf.DefaultModelPath
	}
	if g.chance(1, 8) {
		m.Path = ""
	}
	if g.o.OddNames && g.chance(1, 6) {
		m.Path = "/3D/raíz.model"
	}
	for _, e := range []go3mf.Extension{materials.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension, production.DefaultExtension} {
		if g.chance(3, 4) {
			e.IsRequired = g.chance(1, 2)
			if g.chance(1, 6) {
				e.LocalName = "x" + e.LocalName
			}
			if !(g.o.Undeclared && g.chance(1, 12)) { // else declared where it is used
				m.Extensions = append(m.Extensions, e)
			}
			g.has[e.Namespace] = true
		}
	}
	if !g.o.NoUnknown && g.chance(1, 4) {
		g.has[nsX] = true
		if !(g.o.Undeclared && g.chance(1, 12)) {
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: nsX, LocalName: "ext", IsRequired: g.chance(1, 2)})
		}
	}
	if !g.o.NoUnknown {
		nss := []string{nsA, nsB}
		if g.chance(1, 16) {
			for i, n := 0, 1+t.Draw(12); i < n; i++ {
				nss = append(nss, nsA+"/more/"+strconv.Itoa(i))
			}
		}
		long := g.chance(1, 5)
		for i, ns := range nss {
			if i >= 2 || g.chance(1, 2) {
				e := go3mf.Extension{Namespace: ns, LocalName: "more" + strconv.Itoa(i), IsRequired: g.chance(1, 3)}
				if i < 2 {
					e.LocalName = []string{"ua", "Bb-1"}[i]
				}
				if long {
					e.LocalName = sharedName + strconv.Itoa(i)
				}
				g.ns = append(g.ns, e)
				if g.o.Undeclared && g.chance(1, 12) {
					continue
				}
				k := t.Draw(len(m.Extensions) + 1)
				m.Extensions = append(m.Extensions, go3mf.Extension{})
				copy(m.Extensions[k+1:], m.Extensions[k:])
				m.Extensions[k] = e
			}
		}
	}
	// parts
	nch := t.Range(g.o.MinChilds, g.o.MaxChilds)
	if nch > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	var paths []string
	for i := 0; i < nch; i++ {
		p := fmt.Sprintf([]string{"/3D/c%d.model", "/3D/sub/child_%d.model", "/o%d.model"}[t.Draw(3)], i)
		if g.o.OddNames && g.chance(1, 3) {
			p = fmt.Sprintf([]string{"/3D/ñandú%d.model", "/3D/a%%20b%d.model", "/3D/a&b'c%d.model", "/3D/UPPER%d.MODEL", "/3D/x.y;z=%d", "/été/%d.model"}[t.Draw(6)], i)
		}
		if i == 0 && m.Path != "" && m.Path != go3mf.DefaultModelPath && g.chance(1, 3) {
			p = go3mf.DefaultModelPath // is no root model here
		}
		if i > 0 && g.chance(1, 8) { // the name of another part, and more
			p = []string{"/more", "/3D/d"}[t.Draw(2)] + paths[i-1]
		}
		paths = append(paths, p)
		m.Childs[p] = &go3mf.ChildModel{}
	}
	m.Metadata = g.metadata(true)
	m.AnyAttr = g.attrs("model", false)
	for _, p := range paths {
		c := m.Childs[p]
		g.resources(&c.Resources, p, nil)
		c.Any = g.any()
		if g.o.ChildStamp {
			c.Resources.Objects = append(c.Resources.Objects, &go3mf.Object{ID: 9000, Name: p, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: g.points(3)}}})
		}
	}
	g.resources(&m.Resources, "", paths)
	m.Any = g.any()
	// build
	m.Build.AnyAttr = g.attrs("build", true)
	if g.has[production.Namespace] && g.chance(2, 3) {
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: g.newUUID()})
	}
	if len(m.Resources.Objects) > 0 {
		for i, n := 0, t.Draw(4); i < n; i++ {
			o := m.Resources.Objects[t.Draw(len(m.Resources.Objects))]
			it := &go3mf.Item{ObjectID: o.ID, Transform: g.matrix()}
			if g.chance(1, 3) {
				it.PartNumber = g.text(false)
			}
			it.Metadata = g.metadataGroup()
			it.AnyAttr = g.attrs("item", false)
			if g.has[production.Namespace] && g.chance(1, 2) {
				a := &production.ItemAttr{UUID: g.newUUID()}
				if len(paths) > 0 && g.chance(1, 2) {
					p := paths[t.Draw(len(paths))]
					if os := m.Childs[p].Resources.Objects; len(os) > 0 {
						a.Path = p
						it.ObjectID = os[t.Draw(len(os))].ID
					}
				}
				it.AnyAttr = append(it.AnyAttr, a)
			}
			m.Build.Items = append(m.Build.Items, it)
		}
	}
	g.attachments(paths)
	g.g.Want = g.want()
	if m.Units == 0 && m.Language == "" && len(m.Build.Items) == 0 {
		_ = m
	}
}

// metadata makes metadata elements.
func (g *gen) metadata(root bool) []go3mf.Metadata {
	var out []go3mf.Metadata
	for i, n := 0, g.t.Draw(3); i < n; i++ {
		md := go3mf.Metadata{Name: xml.Name{Local: []string{"Title", "Designer", "Copyright", "CreationDate"}[g.t.Draw(4)]}, Value: g.text(true)}
		if len(g.g.M.Extensions) > 0 && g.chance(1, 3) {
			e := g.g.M.Extensions[g.t.Draw(len(g.g.M.Extensions))]
			md.Name = xml.Name{Space: e.LocalName, Local: "k" + strconv.Itoa(i)}
		} else if g.chance(1, 8) { // no prefix at all
			md.Name.Local = []string{"not.declared:name", "Title: a & b", "un-declared:b:c", "a name"}[g.t.Draw(4)]
		}
		if g.chance(1, 4) {
			md.Type = g.text(false)
		}
		md.Preserve = g.chance(1, 4)
		out = append(out, md)
	}
	return out
}

func (g *gen) metadataGroup() go3mf.MetadataGroup {
	var mg go3mf.MetadataGroup
	if !g.chance(1, 3) {
		return mg
	}
	mg.Metadata = g.metadata(false)
	if len(mg.Metadata) > 0 {
		mg.AnyAttr = g.attrs("metadatagroup", true)
	}
	return mg
}

// coreNames are attributes of core and extension elements, which have another
// meaning in another namespace.
var coreNames = []string{"id", "name", "transform", "x", "objectid", "pid", "unit", "UUID", "path", "v1", "color", "thumbnail", "lang"}

// attrs makes groups of unknown attributes; bare allows attributes without a
// namespace (elements that define none of their own). The element is on.
func (g *gen) attrs(on string, bare bool) (pre spec.AnyAttr) {
	defer func() { pre = g.ext(pre, on) }()
	if g.o.NoUnknown || !g.chance(1, 4) {
		return pre
	}
	used := map[string]bool{}
	for i, n := 0, 1+g.t.Draw(2); i < n; i++ {
		space := ""
		if len(g.ns) > 0 {
			space = g.ns[g.t.Draw(len(g.ns))].Namespace
		}
		if space == "" || bare && g.chance(1, 4) {
			if !bare {
				continue
			}
			space = ""
		}
		if used[space] {
			continue
		}
		used[space] = true
		u := &spec.UnknownAttrs{Space: space}
		k := 1 + g.t.Draw(2)
		if g.chance(1, 16) { // more than any pool of attributes starts with
			k = 9 + g.t.Draw(16)
			for j := 0; j < k; j++ {
				u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: space, Local: "many" + strconv.Itoa(j)}, Value: words[g.rng.n(len(words))]})
			}
			k = 0
		}
		if space != "" && g.chance(1, 6) {
			n := g.t.Draw(len(coreNames))
			for j := 0; j < k; j++ {
				u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: space, Local: coreNames[(n+j)%len(coreNames)]}, Value: g.text(true)})
			}
			k = 0
		}
		for j := 0; j < k; j++ {
			u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: space, Local: g.name("at", j)}, Value: g.text(true)})
		}
		pre = append(pre, u)
	}
	return pre
}

// tokens makes an unknown element.
func (g *gen) tokens(name xml.Name, attrs []xml.Attr, depth int) []xml.Token {
	for i, n := 0, g.t.Draw(3); i < n; i++ {
		a := xml.Attr{Name: xml.Name{Local: g.name("u", i)}, Value: g.text(true)}
		if len(g.ns) > 0 && g.chance(1, 4) {
			a.Name.Space = g.ns[g.t.Draw(len(g.ns))].Namespace
		}
		attrs = append(attrs, a)
	}
	out := []xml.Token{xml.StartElement{Name: name, Attr: attrs}}
	if depth == 0 && g.chance(1, 24) { // deeper than any stack starts with
		n := 8 + g.t.Draw(60)
		for i := 0; i < n; i++ {
			out = append(out, xml.StartElement{Name: xml.Name{Space: name.Space, Local: "deep" + strconv.Itoa(i%3)}})
		}
		out = append(out, xml.CharData("bottom"))
		for i := n - 1; i >= 0; i-- {
			out = append(out, xml.EndElement{Name: xml.Name{Space: name.Space, Local: "deep" + strconv.Itoa(i%3)}})
		}
	}
	txt := false
	for i, n := 0, g.t.Draw(4); i < n; i++ {
		if !txt && g.chance(1, 3) {
			out = append(out, xml.CharData(g.text(false)))
			txt = true
			continue
		}
		if depth > 3 {
			continue
		}
		child := xml.Name{Space: name.Space, Local: g.name("in", g.t.Draw(3))}
		switch g.t.Draw(5) {
		case 1:
			child = name // nested element of the same name
		case 2:
			child = xml.Name{Space: go3mf.Namespace, Local: []string{"object", "vertex", "model", "resources", "metadata"}[g.t.Draw(5)]}
		case 3:
			if len(g.ns) > 0 {
				child.Space = g.ns[g.t.Draw(len(g.ns))].Namespace
			}
		}
		out = append(out, g.tokens(child, nil, depth+1)...)
		txt = false
	}
	return append(out, xml.EndElement{Name: name})
}

func (g *gen) any() (out spec.Any) {
	if g.has[nsX] && g.rng.n(3) == 0 {
		defer func() { out = append(out, g.extElem("gadget", 0)) }()
	}
	if len(g.ns) == 0 || !g.chance(1, 2) {
		return nil
	}
	for i, n := 0, g.t.Draw(3); i < n; i++ {
		name := xml.Name{Space: g.ns[g.t.Draw(len(g.ns))].Namespace, Local: g.name("el", g.t.Draw(3))}
		out = append(out, &spec.UnknownTokens{Token: g.tokens(name, nil, 0)})
	}
	return out
}

func (g *gen) id() uint32 {
	g.n++
	if g.rng.n(10) == 0 {
		return []uint32{1<<31 - 1, 1<<32 - 1}[g.rng.n(2)] - uint32(g.n)
	}
	return uint32(g.n)
}

func (g *gen) color() color.RGBA {
	x := g.rng.next()
	c := color.RGBA{uint8(x), uint8(x >> 8), uint8(x >> 16), uint8(x >> 24)}
	if x>>32&1 == 0 {
		c.A = 255
	}
	return c
}

func (g *gen) points(n int) []go3mf.Point3D {
	v := make([]go3mf.Point3D, n)
	for i := range v {
		v[i] = go3mf.Point3D{g.num(), g.num(), g.num()}
	}
	return v
}

func (g *gen) few() int { return g.rng.n(4) }

func (g *gen) resources(rs *go3mf.Resources, path string, childs []string) {
	t := g.t
	rs.AnyAttr = g.attrs("resources", true)
	nAssets := t.Draw(4)
	nObjects := t.Draw(4)
	if g.o.Small {
		nAssets = t.Draw(2)
		nObjects = t.Draw(3)
	}
	var stackID uint32
	for i := 0; i < nAssets; i++ {
		id := g.id()
		kind := t.Draw(8)
		if kind >= 1 && kind <= 5 && !g.has[materials.Namespace] || kind == 6 && !g.has[slices.Namespace] || kind == 7 && len(g.ns) == 0 || kind == 2 && g.o.NoAtt {
			kind = 0
		}
		switch kind {
		case 0:
			b := &go3mf.BaseMaterials{ID: id, AnyAttr: g.attrs("basematerials", false)}
			for j, n := 0, g.few(); j < n; j++ {
				b.Materials = append(b.Materials, go3mf.Base{Name: g.text(true), Color: g.color(), AnyAttr: g.attrs("base", false)})
			}
			rs.Assets = append(rs.Assets, b)
		case 1:
			c := &materials.ColorGroup{ID: id}
			for j, n := 0, g.few(); j < n; j++ {
				c.Colors = append(c.Colors, g.color())
			}
			rs.Assets = append(rs.Assets, c)
		case 2:
			ct := materials.Texture2DType(1 + t.Draw(2))
			p := fmt.Sprintf("/3D/Textures/t%d.%s", g.n, []string{"png", "jpg"}[ct-1])
			rs.Assets = append(rs.Assets, &materials.Texture2D{ID: id, Path: p, ContentType: ct, TileStyleU: materials.TileStyle(t.Draw(4)), TileStyleV: materials.TileStyle(t.Draw(4)), Filter: materials.TextureFilter(t.Draw(3))})
			if n := len(g.g.Atts); n > 0 && g.rng.n(4) == 0 { // share the file of another resource
				rs.Assets[len(rs.Assets)-1].(*materials.Texture2D).Path = g.g.Atts[g.rng.n(n)].Path
			} else {
				g.g.Atts = append(g.g.Atts, Att{p, ct.String(), g.bytes()})
			}
		case 3:
			c := &materials.Texture2DGroup{ID: id, TextureID: g.u32(9)}
			for j, n := 0, g.few(); j < n; j++ {
				c.Coords = append(c.Coords, materials.TextureCoord{g.num(), g.num()})
			}
			rs.Assets = append(rs.Assets, c)
		case 4:
			c := &materials.CompositeMaterials{ID: id, MaterialID: g.u32(9), Indices: g.uints()}
			for j, n := 0, g.few(); j < n; j++ {
				var v []float32
				for k, l := 0, g.few(); k < l; k++ {
					v = append(v, g.num())
				}
				c.Composites = append(c.Composites, materials.Composite{Values: v})
			}
			rs.Assets = append(rs.Assets, c)
		case 5:
			c := &materials.MultiProperties{ID: id, PIDs: g.uints()}
			for j, n := 0, g.few(); j < n; j++ {
				c.BlendMethods = append(c.BlendMethods, materials.BlendMethod(g.rng.n(2)))
			}
			for j, n := 0, g.few(); j < n; j++ {
				c.Multis = append(c.Multis, materials.Multi{PIndices: g.uints()})
			}
			rs.Assets = append(rs.Assets, c)
		case 6:
			s := &slices.SliceStack{ID: id, BottomZ: g.num()}
			if g.chance(1, 3) {
				for j, n := 0, 1+g.few(); j < n; j++ {
					s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: g.u32(9), Path: []string{"", "/3D/c0.model", "/a & b.model"}[g.rng.n(3)]})
				}
			} else {
				for j, n := 0, g.few(); j < n; j++ {
					s.Slices = append(s.Slices, g.slice())
				}
			}
			if len(s.Refs) > 0 && g.rng.n(6) == 0 {
				s.Slices = append(s.Slices, g.slice())
			}
			stackID = id
			rs.Assets = append(rs.Assets, s)
		case 7:
			name := xml.Name{Space: g.ns[t.Draw(len(g.ns))].Namespace, Local: g.name("asset", t.Draw(2))}
			at := []xml.Attr{{Name: xml.Name{Local: "id"}, Value: strconv.Itoa(int(id))}}
			rs.Assets = append(rs.Assets, &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: g.tokens(name, at, 0)}})
		}
	}
	if g.has[nsX] && g.rng.n(2) == 0 {
		x := &ExtAsset{*g.extElem("widget", 0)}
		x.N = g.id()
		rs.Assets = append(rs.Assets, x)
	}
	for i := 0; i < nObjects; i++ {
		o := &go3mf.Object{ID: g.id(), Type: go3mf.ObjectType(t.Draw(5))}
		if g.chance(1, 3) {
			o.Name = g.text(false)
		}
		if g.chance(1, 4) {
			o.PartNumber = g.text(false)
		}
		if !g.o.NoAtt && g.chance(1, 6) {
			o.Thumbnail = fmt.Sprintf("/Thumbnails/o%d.png", o.ID)
			if n := len(g.g.Atts); n > 0 && g.rng.n(4) == 0 {
				o.Thumbnail = g.g.Atts[g.rng.n(n)].Path
			} else {
				g.g.Atts = append(g.g.Atts, Att{o.Thumbnail, "image/png", g.bytes()})
			}
		}
		o.Metadata = g.metadataGroup()
		o.AnyAttr = g.attrs("object", false)
		if g.has[production.Namespace] && g.chance(1, 2) {
			o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: g.newUUID()})
		}
		if g.has[slices.Namespace] && (stackID != 0 || g.chance(1, 6)) {
			o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: stackID, MeshResolution: slices.MeshResolution(t.Draw(2))})
		}
		switch {
		case g.chance(1, 4) && len(rs.Objects)+len(childs) > 0:
			cs := &go3mf.Components{AnyAttr: g.attrs("components", true)}
			for j, n := 0, t.Draw(4); j < n; j++ {
				c := &go3mf.Component{Transform: g.matrix(), AnyAttr: g.attrs("component", false)}
				if len(rs.Objects) > 0 {
					c.ObjectID = rs.Objects[t.Draw(len(rs.Objects))].ID
				}
				if g.has[production.Namespace] && g.chance(1, 2) {
					a := &production.ComponentAttr{UUID: g.newUUID()}
					if len(childs) > 0 && g.chance(1, 2) {
						p := childs[t.Draw(len(childs))]
						if os := g.g.M.Childs[p].Resources.Objects; len(os) > 0 {
							a.Path = p
							c.ObjectID = os[t.Draw(len(os))].ID
						}
					}
					c.AnyAttr = append(c.AnyAttr, a)
				}
				cs.Component = append(cs.Component, c)
			}
			o.Components = cs
		case g.chance(1, 12):
			// neither mesh nor components
		default:
			if g.chance(1, 3) {
				o.PID = 1 + g.u32(10)/2
				o.PIndex = g.u32(3)
			}
			o.Mesh = g.mesh(o)
		}
		rs.Objects = append(rs.Objects, o)
	}
}

func (g *gen) uints() []uint32 {
	var v []uint32
	for k, l := 0, g.few(); k < l; k++ {
		v = append(v, g.u32(1000))
	}
	return v
}

func (g *gen) bytes() []byte {
	n := []int{0, 7, 100, 600, 5000, 40000}[g.rng.n(6)]
	if g.o.Small && n > 600 {
		n = 600
	}
	b := make([]byte, n)
	same := g.rng.n(3) == 0
	for i := range b {
		if same {
			b[i] = byte(i / 50)
		} else {
			b[i] = byte(g.rng.next())
		}
	}
	return b
}

func (g *gen) slice() slices.Slice {
	s := slices.Slice{TopZ: g.num()}
	for i, n := 0, g.few()*2; i < n; i++ {
		s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{g.num(), g.num()})
	}
	for i, n := 0, g.few(); i < n; i++ {
		p := slices.Polygon{StartV: g.u32(9)}
		for j, k := 0, g.few(); j < k; j++ {
			sg := slices.Segment{V2: g.u32(9)}
			if g.rng.n(2) == 0 {
				sg.PID, sg.P1, sg.P2 = 1+g.u32(4)/2, g.u32(3), g.u32(3)
			}
			p.Segments = append(p.Segments, sg)
		}
		s.Polygons = append(s.Polygons, p)
	}
	return s
}

func (g *gen) mesh(o *go3mf.Object) *go3mf.Mesh {
	m := &go3mf.Mesh{AnyAttr: g.attrs("mesh", true)}
	m.Vertices.AnyAttr = g.attrs("vertices", true)
	m.Triangles.AnyAttr = g.attrs("triangles", true)
	nv, nt := g.rng.n(9), g.rng.n(9)
	if g.o.MaxBig > 0 && (g.o.ForceBig || g.chance(1, 16)) {
		nv = 1 + g.rng.n(g.o.MaxBig)
		nt = g.rng.n(g.o.MaxBig)
	}
	m.Vertices.Vertex = g.points(nv)
	for i := 0; i < nt; i++ {
		t := go3mf.Triangle{V1: g.u32(nv + 1), V2: g.u32(nv + 1), V3: g.u32(nv + 1)}
		if o.PID != 0 || g.rng.n(3) == 0 {
			switch g.rng.n(3) {
			case 0:
				t.PID, t.P1, t.P2, t.P3 = 1+g.u32(10)/2, g.u32(3), g.u32(3), g.u32(3)
			case 1:
				t.PID = 1 + g.u32(10)/2
				t.P1 = g.u32(3)
				t.P2, t.P3 = t.P1, t.P1
			default:
				t.PID = o.PID
				if t.PID == 0 {
					t.PID = 1
				}
				t.P1, t.P2, t.P3 = o.PIndex, o.PIndex, o.PIndex
			}
		}
		if nt < 50 {
			t.AnyAttr = g.triAttrs()
		}
		m.Triangles.Triangle = append(m.Triangles.Triangle, t)
	}
	if g.has[beamlattice.Namespace] && g.chance(1, 4) {
		m.Any = append(m.Any, g.lattice())
	}
	m.Any = append(m.Any, g.any()...)
	return m
}

func (g *gen) triAttrs() (pre spec.AnyAttr) {
	defer func() { pre = g.ext(pre, "triangle") }()
	if len(g.ns) == 0 || g.rng.n(6) != 0 {
		return nil
	}
	u := &spec.UnknownAttrs{Space: g.ns[g.rng.n(len(g.ns))].Namespace}
	for j, k := 0, 1+g.rng.n(3); j < k; j++ {
		u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: u.Space, Local: g.name("t", j)}, Value: words[g.rng.n(len(words))]})
	}
	return spec.AnyAttr{u}
}

func (g *gen) lattice() *beamlattice.BeamLattice {
	l := &beamlattice.BeamLattice{
		ClipMode: beamlattice.ClipMode(g.rng.n(3)), ClippingMeshID: g.u32(3), RepresentationMeshID: g.u32(3),
		MinLength: g.num(), Radius: g.posnum(), CapMode: beamlattice.CapMode(g.rng.n(3)),
	}
	for i, n := 0, g.few()*2; i < n; i++ {
		b := beamlattice.Beam{Indices: [2]uint32{g.u32(9), g.u32(9)}, CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(g.rng.n(3)), beamlattice.CapMode(g.rng.n(3))}}
		for k := range b.Radius {
			switch g.rng.n(3) {
			case 0:
				b.Radius[k] = l.Radius
			case 1:
				b.Radius[k] = g.posnum()
			default:
				b.Radius[k] = b.Radius[0]
				if b.Radius[k] == 0 {
					b.Radius[k] = g.posnum()
				}
			}
		}
		l.Beams.Beam = append(l.Beams.Beam, b)
	}
	for i, n := 0, g.few(); i < n; i++ {
		bs := beamlattice.BeamSet{Refs: g.uints()}
		if g.rng.n(2) == 0 {
			bs.Name = g.text(false)
		}
		if g.rng.n(2) == 0 {
			bs.Identifier = g.text(false)
		}
		l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, bs)
	}
	return l
}

// attachments adds explicitly related attachments to package, root and childs.
func (g *gen) attachments(paths []string) {
	m := g.g.M
	t := g.t
	if !g.o.NoAtt {
		if g.chance(1, 3) {
			m.Thumbnail = "/Thumbnails/root.png"
			g.g.Atts = append(g.g.Atts, Att{m.Thumbnail, "image/png", g.bytes()})
		}
		for i, n := 0, t.Draw(3); i < n; i++ {
			ext := []string{"xml", "bin", "png"}[t.Draw(3)]
			a := Att{fmt.Sprintf("/Metadata/att%d.%s", i, ext), []string{"application/xml", "application/x-thing", "image/png"}[t.Draw(3)], g.bytes()}
			if g.o.OddNames && g.chance(1, 3) {
				a.Path = fmt.Sprintf([]string{"/Metadata/ñ%d.%s", "/Metadata/a%%20b%d.%s", "/Metadata/R&D'%d.%s", "/METADATA/x(y),%d.%s"}[t.Draw(4)], i, ext)
			}
			if n := len(g.g.Atts); n > 0 && g.chance(1, 4) { // the name of another part, and more
				a.Path = []string{"/more", "/Metadata"}[t.Draw(2)] + g.g.Atts[n-1].Path
			}
			r := go3mf.Relationship{Path: a.Path, Type: []string{go3mf.RelTypeMustPreserve, go3mf.RelTypePrintTicket, "http://example.com/rel"}[t.Draw(3)]}
			if g.chance(1, 3) {
				r.ID = "custom" + strconv.Itoa(i)
			}
			placed := false
			if g.chance(1, 3) {
				m.RootRelationships = append(m.RootRelationships, r)
				placed = true
			}
			if len(paths) > 0 && g.chance(1, 2) {
				c := m.Childs[paths[t.Draw(len(paths))]]
				c.Relationships = append(c.Relationships, r)
				placed = true
			}
			if !placed || g.chance(1, 3) {
				m.Relationships = append(m.Relationships, r)
			}
			if g.chance(1, 6) { // the same part in another role
				r.ID, r.Type = "", "http://example.com/another"
				if len(m.Relationships) > 0 {
					m.Relationships = append(m.Relationships, r)
				} else {
					m.RootRelationships = append(m.RootRelationships, r)
				}
			}
			g.g.Atts = append(g.g.Atts, a)
		}
	}
	if g.o.Explicit || g.chance(1, 2) {
		g.implied(m)
	}
}

// implied adds the relationships that the encoder adds by itself.
func (g *gen) implied(m *go3mf.Model) {
	add := func(list *[]go3mf.Relationship, path, typ string, anyType bool) {
		for _, r := range *list {
			if r.Path == path && (anyType || r.Type == typ) {
				return
			}
		}
		*list = append(*list, go3mf.Relationship{Path: path, Type: typ})
	}
	if m.Thumbnail != "" {
		add(&m.RootRelationships, m.Thumbnail, go3mf.RelTypeThumbnail, false)
	}
	res := func(rs *go3mf.Resources, list *[]go3mf.Relationship) {
		for _, a := range rs.Assets {
			if x, ok := a.(*materials.Texture2D); ok {
				add(list, x.Path, materials.RelTypeTexture3D, true)
			}
		}
		for _, o := range rs.Objects {
			if o.Thumbnail != "" {
				add(list, o.Thumbnail, go3mf.RelTypeThumbnail, true)
			}
		}
	}
	res(&m.Resources, &m.Relationships)
	for _, p := range sortedChilds(m) {
		res(&m.Childs[p].Resources, &m.Childs[p].Relationships)
	}
}

func (g *gen) want() *go3mf.Model {
	w := clone(g.g.M)
	g.implied(w)
	return w
}

func sortedChilds(m *go3mf.Model) []string {
	mm := map[string]int{}
	for p := range m.Childs {
		mm[p] = 0
	}
	return sortedKeys(mm)
}

// WantCanon is what decoding must yield.
func (g *Gen) WantCanon() Canon { return canon(g.Want, g.attsOrEmpty()) }

func (g *Gen) attsOrEmpty() []Att {
	if g.Atts == nil {
		return []Att{}
	}
	return g.Atts
}

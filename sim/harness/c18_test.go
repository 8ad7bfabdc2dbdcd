package harness

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"
)

func init() { scenarios["C18"] = c18 }

// c18: what is loaded depends on what a package says, not on how it is
// written, and saving what was loaded keeps it.
func c18(c *Case) {
	o := GenOpt{MaxChilds: 3, Small: true, Explicit: true, Undeclared: true}
	switch c.W.Draw(6) {
	case 1:
		o.Small = false
	case 2:
		o.MaxBig, o.MaxChilds = 300, 2
	case 3:
		o.MaxChilds = 6
	}
	g := genModel(c.W, o)
	c.describe(g)
	pkg, ok := c.encodePlain(g)
	if !ok {
		return
	}
	parts, err := unpack(pkg)
	if err != nil {
		c.Fail("C18:zip", "the package that was written cannot be unpacked: %v", err)
		return
	}
	w := &notator{r: &rng{uint64(c.W.Draw(1 << 30))}, dense: []int{1, 2, 3, 8, 30}[c.W.Draw(5)]}
	var how []string
	for i := range w.on {
		if c.W.Chance(1, 3) {
			w.on[i] = true
			how = append(how, ntNames[i])
			c.Tag("notation: " + ntNames[i])
		}
	}
	var pk pkgNotation
	pk.draw(c)
	c.Note("rewritten with %s; %s", strings.Join(how, ", "), pk)
	rootEntry := strings.TrimPrefix(normPath(g.M.PathOrDefault()), "/")
	parts = pk.rename(parts, rootEntry, w.r)
	docs := make([]*node, len(parts))
	var models []*node
	for i, p := range parts {
		if isModel(p.Name) || !isPart(p.Name) {
			docs[i] = parseDoc(p.Data)
			if isModel(p.Name) {
				models = append(models, docs[i])
			}
		}
	}
	if w.on[ntRequired] {
		divide(models, w.r)
	}
	for i := range parts {
		p := &parts[i]
		if docs[i] == nil {
			continue
		}
		x := &notator{r: w.r, on: w.on, dense: w.dense, model: isModel(p.Name), root: p.Name == rootEntry}
		n := docs[i]
		if x.model {
			x.reword(n)
		} else {
			x.on[ntPrefix], x.on[ntLocal], x.on[ntAlias], x.on[ntShadow], x.on[ntDefault] = false, false, false, false, false
			n.walk(func(k *node) { k.ours = true })
		}
		p.Data = append([]byte(nil), x.document(n)...)
	}
	want := meaning(g.WantCanon())
	var src *readerAt
	var data []byte
	if pk.sim {
		_, data = shapedPack(parts, c.W)
	} else {
		data = pk.zip(parts, w.r)
	}
	src = newReaderAt(data).shape(c.W)
	m := new(go3mf.Model)
	r := c.Sim("decode", func() {
		err = go3mf.NewDecoder(src, int64(len(data))).DecodeContext(context.Background(), m)
	})
	if len(r.Panics) > 0 {
		return
	}
	show := func() {
		for _, p := range parts {
			if !isPart(p.Name) || isModel(p.Name) && len(p.Data) < 6000 {
				c.Note("%s:\n%s", p.Name, p.Data)
			}
		}
	}
	if err != nil {
		show()
		c.Fail("C18:decode-error", "a package written differently reports %s", short(err))
		return
	}
	got := meaning(canon(m, nil))
	if d := diffCanon(want, got); d != "" {
		show()
		c.Fail("C18:differs:"+diffClass(d), "a package written differently loads as a different model: %s", d)
		return
	}
	c.Tag("the rewritten package loads as the same model")
	// Save what was loaded and load it again.
	dst := newWriter().shape(c.W)
	r = c.Sim("encode", func() {
		e := go3mf.NewEncoder(dst)
		e.FloatPrecision = -1
		err = e.Encode(m)
	})
	if len(r.Panics) > 0 {
		return
	}
	if err != nil {
		show()
		c.Fail("C18:save-error", "saving a loaded model reports %s", short(err))
		return
	}
	src = newReaderAt(dst.data).shape(c.W)
	m2 := new(go3mf.Model)
	r = c.Sim("decode again", func() {
		err = go3mf.NewDecoder(src, int64(len(dst.data))).DecodeContext(context.Background(), m2)
	})
	if len(r.Panics) > 0 {
		return
	}
	if err == nil {
		if d := diffCanon(got, meaning(canon(m2, nil))); d != "" {
			show()
			if ps, e := unpack(dst.data); e == nil {
				for _, p := range ps {
					if isModel(p.Name) && len(p.Data) < 6000 {
						c.Note("saved %s:\n%s", p.Name, p.Data)
					}
				}
			}
			c.Fail("C18:resaved:"+diffClass(d), "a loaded model changes when it is saved and loaded again: %s", d)
			return
		}
		c.Tag("the loaded model is saved and loads back equal")
		return
	}
	show()
	c.Fail("C18:resaved-error", "the package saved from a loaded model reports %s", short(err))
}

// pkgNotation is how a package is written.
type pkgNotation struct {
	sim      bool // parts as simulated streams
	relative int  // relationship targets: 0 as they are, 1 relative, 2 drawn
	types    int  // 0 as they are, 1 overrides, 2 defaults where they serve
	order    bool
	method   int  // 0 store, 1 deflate, 2 drawn
	stream   bool // sizes after the data
	dirs     bool // entries for the folders
	comment  bool
	times    bool
}

func (p *pkgNotation) draw(c *Case) {
	p.sim = c.W.Chance(1, 2)
	p.relative = c.W.Draw(3)
	p.types = c.W.Draw(3)
	p.order = c.W.Chance(1, 2)
	p.method = c.W.Draw(3)
	p.stream = c.W.Chance(1, 2)
	p.dirs = c.W.Chance(1, 4)
	p.comment = c.W.Chance(1, 4)
	p.times = c.W.Chance(1, 4)
	for what, on := range map[string]bool{"relative relationship targets": p.relative > 0, "content types as overrides": p.types == 1,
		"content types as defaults": p.types == 2, "deflated entries": !p.sim && p.method > 0, "stored entries": !p.sim && p.method == 0,
		"data descriptors": !p.sim && p.stream, "folder entries": !p.sim && p.dirs, "entries in another order": p.order || p.sim} {
		if on {
			c.Tag("notation: " + what)
		}
	}
}

func (p pkgNotation) String() string {
	s := []string{[]string{"targets as saved", "relative targets", "some relative targets"}[p.relative], []string{"content types as saved", "overrides", "default content types"}[p.types]}
	if p.sim {
		return strings.Join(append(s, "simulated part streams"), ", ")
	}
	s = append(s, []string{"stored", "deflated", "some deflated"}[p.method])
	for what, on := range map[string]bool{"with data descriptors": p.stream} {
		if on {
			s = append(s, what)
		}
	}
	if p.order {
		s = append(s, "reordered")
	}
	if p.dirs {
		s = append(s, "with folders")
	}
	return strings.Join(s, ", ")
}

// rename rewrites the relationships and the content types.
func (p *pkgNotation) rename(parts []Part, root string, r *rng) []Part {
	for i := range parts {
		pt := &parts[i]
		switch {
		case strings.HasSuffix(pt.Name, ".rels") && p.relative > 0:
			dir := path.Dir(path.Dir("/" + pt.Name))
			n := parseDoc(pt.Data)
			n.walk(func(k *node) {
				for j := range k.attrs {
					a := &k.attrs[j]
					if k.local != "Relationship" || a.local != "Target" || !strings.HasPrefix(a.value, "/") || p.relative == 2 && r.n(2) == 0 {
						continue
					}
					a.value = relTarget(dir, a.value, r)
				}
			})
			pt.Data = render(n)
		case pt.Name == "[Content_Types].xml" && p.types > 0:
			n := parseDoc(pt.Data)
			types := map[string]string{} // by extension
			over := map[string]string{}
			for _, k := range n.kids {
				at := map[string]string{}
				for _, a := range k.attrs {
					at[a.local] = a.value
				}
				if k.local == "Default" {
					types[strings.ToLower(at["Extension"])] = at["ContentType"]
				} else {
					over[strings.ToLower(at["PartName"])] = at["ContentType"]
				}
			}
			of := func(name string) string {
				if t, ok := over[strings.ToLower(name)]; ok {
					return t
				}
				return types[strings.ToLower(strings.TrimPrefix(path.Ext(name), "."))]
			}
			n.kids = []*node{{space: n.space, local: "Default", attrs: []xattr{{"", "Extension", "rels"}, {"", "ContentType", types["rels"]}}}}
			seen := map[string]string{"rels": types["rels"]}
			for _, q := range parts {
				if !isPart(q.Name) {
					continue
				}
				name := "/" + q.Name
				ext := strings.ToLower(strings.TrimPrefix(path.Ext(name), "."))
				t := of(name)
				if p.types == 2 && ext != "" {
					if _, ok := seen[ext]; !ok {
						seen[ext] = t
						e := ext
						if r.n(2) == 0 {
							e = strings.ToUpper(e)
						}
						n.kids = append(n.kids, &node{space: n.space, local: "Default", attrs: []xattr{{"", "Extension", e}, {"", "ContentType", t}}})
					}
					if seen[ext] == t {
						continue
					}
				}
				n.kids = append(n.kids, &node{space: n.space, local: "Override", attrs: []xattr{{"", "PartName", name}, {"", "ContentType", t}}})
			}
			pt.Data = render(n)
		}
	}
	return parts
}

// relTarget writes an absolute target relative to a folder.
func relTarget(dir, target string, r *rng) string {
	if !strings.HasSuffix(dir, "/") {
		dir += "/"
	}
	if strings.HasPrefix(target, dir) {
		t := target[len(dir):]
		if r.n(4) == 0 {
			t = "./" + t
		}
		return t
	}
	up := strings.Repeat("../", strings.Count(dir, "/")-1)
	return up + strings.TrimPrefix(target, "/")
}

func render(n *node) []byte {
	w := &notator{r: &rng{1}, dense: 1}
	return append([]byte(nil), w.document(n)...)
}

func (p *pkgNotation) zip(parts []Part, r *rng) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	order := make([]int, len(parts))
	for i := range order {
		order[i] = i
	}
	if p.order {
		for i := len(order) - 1; i > 0; i-- {
			j := r.n(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	dirs := map[string]bool{}
	for _, i := range order {
		pt := parts[i]
		if p.dirs {
			for d := path.Dir(pt.Name); d != "."; d = path.Dir(d) {
				if !dirs[d] {
					dirs[d] = true
					zw.Create(d + "/")
				}
			}
		}
		h := &zip.FileHeader{Name: pt.Name, Method: zip.Store}
		if p.method == 1 || p.method == 2 && r.n(2) == 0 {
			h.Method = zip.Deflate
		}
		if p.times {
			h.Modified = time.Unix(int64(r.n(1<<30)), 0)
		}
		if !p.stream {
			h.Extra = []byte{0xfe, 0xca, 2, 0, 1, 2}
		}
		var out []byte = pt.Data
		if p.stream {
			w, err := zw.CreateHeader(h)
			if err != nil {
				panic(err)
			}
			w.Write(out)
			continue
		}
		crc, comp := compress(pt.Data, h.Method)
		h.CRC32, h.UncompressedSize64, h.CompressedSize64 = crc, uint64(len(pt.Data)), uint64(len(comp))
		w, err := zw.CreateRaw(h)
		if err != nil {
			panic(err)
		}
		w.Write(comp)
	}
	if p.comment {
		zw.SetComment("a comment")
	}
	zw.Close()
	return buf.Bytes()
}

// meaning leaves out of a model what depends on how it was written.
func meaning(in Canon) Canon {
	m := clone(in.M)
	prefix := map[string]string{}
	var req []go3mf.Extension
	for _, e := range m.Extensions {
		if _, ok := prefix[e.LocalName]; !ok {
			prefix[e.LocalName] = e.Namespace
		}
		if e.IsRequired {
			req = append(req, go3mf.Extension{Namespace: e.Namespace, IsRequired: true})
		}
	}
	sort.Slice(req, func(i, j int) bool { return req[i].Namespace < req[j].Namespace })
	m.Extensions = nil
	for i, e := range req {
		if i == 0 || req[i-1].Namespace != e.Namespace {
			m.Extensions = append(m.Extensions, e)
		}
	}
	names := func(mds []go3mf.Metadata) {
		for i := range mds {
			if ns, ok := prefix[mds[i].Name.Space]; ok && mds[i].Name.Space != "" {
				mds[i].Name.Space = ns
			}
		}
	}
	names(m.Metadata)
	res := func(r *go3mf.Resources) {
		for _, o := range r.Objects {
			names(o.Metadata.Metadata)
		}
	}
	res(&m.Resources)
	for _, ch := range m.Childs {
		res(&ch.Resources)
	}
	for _, it := range m.Build.Items {
		names(it.Metadata.Metadata)
	}
	simplify(reflect.ValueOf(m))
	in.M = m
	return in
}

var (
	anyAttrType = reflect.TypeOf(spec.AnyAttr{})
	matrixType  = reflect.TypeOf(go3mf.Matrix{})
	tokenType   = reflect.TypeOf([]xml.Token{})
)

// simplify puts what has no order in one, and drops namespace declarations.
func simplify(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface && v.Elem().Kind() != reflect.Ptr {
				return
			}
			simplify(v.Elem())
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			simplify(v.MapIndex(k))
		}
	case reflect.Array:
		if v.Type() == matrixType && v.Interface().(go3mf.Matrix) == go3mf.Identity() {
			v.Set(reflect.Zero(matrixType))
		}
	case reflect.Slice:
		switch v.Type() {
		case anyAttrType:
			var out spec.AnyAttr
			for _, a := range v.Interface().(spec.AnyAttr) {
				if u, ok := a.(*spec.UnknownAttrs); ok {
					if u.Space == "xmlns" {
						continue
					}
					sortAttrs(u.Attr)
				}
				out = append(out, a)
			}
			sort.SliceStable(out, func(i, j int) bool { return out[i].Namespace() < out[j].Namespace() })
			v.Set(reflect.ValueOf(out))
			return
		case tokenType:
			var out []xml.Token
			for _, t := range v.Interface().([]xml.Token) {
				switch t := t.(type) {
				case xml.StartElement:
					var at []xml.Attr
					for _, a := range t.Attr {
						if a.Name.Space != "xmlns" && !(a.Name.Space == "" && a.Name.Local == "xmlns") {
							at = append(at, a)
						}
					}
					sortAttrs(at)
					out = append(out, xml.StartElement{Name: t.Name, Attr: at})
					continue
				case xml.CharData:
					if n := len(out) - 1; n >= 0 {
						if p, ok := out[n].(xml.CharData); ok {
							out[n] = append(p[:len(p):len(p)], t...)
							continue
						}
					}
				}
				out = append(out, t)
			}
			v.Set(reflect.ValueOf(out))
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array:
			if v.Type().Elem() == reflect.TypeOf(go3mf.Point3D{}) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				simplify(v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				simplify(v.Field(i))
			}
		}
	}
}

func sortAttrs(a []xml.Attr) {
	sort.SliceStable(a, func(i, j int) bool {
		if a[i].Name.Space != a[j].Name.Space {
			return a[i].Name.Space < a[j].Name.Space
		}
		return a[i].Name.Local < a[j].Name.Local
	})
}

package harness

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
)

// A document is rewritten from what it says: its elements, attributes and text
// with their namespaces, whatever prefixes stood for them.

const xmlSpace = "http://www.w3.org/XML/1998/namespace"

type xattr struct{ space, local, value string }

type node struct {
	text  bool
	value string
	space string
	local string
	attrs []xattr
	kids  []*node
	ours  bool     // an element the decoder understands
	need  []string // namespaces that a value of the root element or a metadata name refers to
}

var registered = map[string]bool{go3mf.Namespace: true, materials.Namespace: true, slices.Namespace: true, beamlattice.Namespace: true, production.Namespace: true}

// parseDoc reads a well-formed document. Values made of prefixes are put in
// terms of namespaces: "{ns}local".
func parseDoc(doc []byte) *node {
	x := xml.NewDecoder(bytes.NewReader(doc))
	scopes := []map[string]string{{"": "", "xml": xmlSpace}}
	var root *node
	var stack []*node
	for {
		t, err := x.RawToken()
		if err != nil {
			if root == nil || len(stack) > 0 {
				panic(fmt.Sprintf("parseDoc: %v in %s", err, clip(string(doc))))
			}
			return root
		}
		switch t := t.(type) {
		case xml.StartElement:
			sc := map[string]string{}
			for k, v := range scopes[len(scopes)-1] {
				sc[k] = v
			}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" {
					sc[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					sc[""] = a.Value
				}
			}
			scopes = append(scopes, sc)
			n := &node{space: sc[t.Name.Space], local: t.Name.Local}
			n.ours = registered[n.space] && (len(stack) == 0 || stack[len(stack)-1].ours)
			if len(stack) == 0 {
				root = n
			} else {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			}
			core := n.ours && n.space == go3mf.Namespace
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				xa := xattr{"", a.Name.Local, a.Value}
				if a.Name.Space != "" {
					ns, ok := sc[a.Name.Space]
					if !ok {
						panic("parseDoc: unbound prefix " + a.Name.Space)
					}
					xa.space = ns
				}
				if core && xa.space == "" && n.local == "model" && xa.local == "requiredextensions" {
					for _, p := range strings.Fields(xa.value) {
						n.need = append(n.need, sc[p])
					}
					continue
				}
				if core && xa.space == "" && n.local == "metadata" && xa.local == "name" {
					if i := strings.IndexByte(xa.value, ':'); i >= 0 {
						if ns, ok := sc[xa.value[:i]]; ok {
							n.need = []string{ns}
							xa.value = xa.value[i+1:]
						}
					}
				}
				n.attrs = append(n.attrs, xa)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
			scopes = scopes[:len(scopes)-1]
		case xml.CharData:
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				if !p.ours || p.local == "metadata" {
					p.kids = append(p.kids, &node{text: true, value: string(t)})
				}
			}
		}
	}
}

func (n *node) walk(f func(*node)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// The ways a document can be written.
const (
	ntPrefix   = iota // other prefixes
	ntLocal           // namespaces declared where they are used
	ntAlias           // several prefixes for a namespace
	ntShadow          // prefixes that stand for something else outside
	ntDefault         // other default namespaces
	ntOrder           // attributes in another order
	ntQuote           // apostrophes
	ntRef             // character references
	ntSpace           // white space in tags
	ntEmpty           // empty elements
	ntIndent          // white space between elements
	ntProlog          // declaration, byte order mark
	ntPI              // processing instructions
	ntComment         // comments
	ntCDATA           // CDATA sections
	ntNumber          // numbers
	ntExplicit        // default values
	ntCase            // colours
	ntMix             // resources in another order
	ntStray           // elements that are not of the format
	ntRequired        // requirements stated by some of the parts only
	ntN
)

var ntNames = [ntN]string{"other prefixes", "local declarations", "aliases", "shadowed prefixes", "default namespaces", "attribute order", "apostrophes",
	"character references", "white space in tags", "empty elements", "indentation", "prolog", "processing instructions", "comments", "CDATA", "numbers", "explicit defaults", "colours", "order of resources", "strays", "requirements"}

// divide leaves each requirement to some of the documents that state it.
func divide(docs []*node, r *rng) {
	drop := map[string][]bool{}
	for i, n := range docs {
		for _, ns := range n.need {
			if drop[ns] == nil {
				drop[ns] = make([]bool, len(docs))
			}
			drop[ns][i] = true
		}
	}
	for _, n := range docs {
		for _, ns := range n.need {
			if d := drop[ns]; d != nil {
				var have []int
				for i := range d {
					if d[i] {
						have = append(have, i)
						d[i] = r.n(2) == 0
					}
				}
				d[have[r.n(len(have))]] = false
				for i, n := range docs {
					var keep []string
					for _, x := range n.need {
						if x != ns || !d[i] {
							keep = append(keep, x)
						}
					}
					n.need = keep
				}
				drop[ns] = nil
			}
		}
	}
}

type notator struct {
	r     *rng
	on    [ntN]bool
	dense int // 1 in dense
	out   bytes.Buffer
	scope []xbind
	fresh int
	model bool // a model document, not one of the package
	root  bool // the root model document
	nl    string
}

type xbind struct{ prefix, space string }

func (w *notator) is(k int) bool { return w.on[k] && w.r.n(w.dense) == 0 }

// oddPrefixes are names with a meaning as names of attributes or elements.
var oddPrefixes = []string{"x", "y", "z", "id", "v1", "v2", "v3", "p1", "pid", "name", "objectid", "transform", "radius", "type", "unit", "path", "UUID", "color", "ztop", "vertex", "a", "b-c", "_q.1", "ñ", "aVeryLongPrefixThatFillsMoreThanAnyBufferForNames"}

func (w *notator) visible(i int) bool {
	for j := i + 1; j < len(w.scope); j++ {
		if w.scope[j].prefix == w.scope[i].prefix {
			return false
		}
	}
	return true
}

// tag holds the names of an element while they are chosen.
type tagNames struct {
	decl []xbind
	used map[string]bool // prefixes whose meaning this element relies on
}

// choose returns a prefix for a namespace in the scope of the element.
func (w *notator) choose(t *tagNames, space string, attr bool) string {
	if space == xmlSpace {
		return "xml"
	}
	if space == "" {
		for i, b := range w.scope {
			if b.prefix == "" && b.space != "" && w.visible(i) {
				t.decl = append(t.decl, xbind{})
			}
		}
		t.used[""] = true
		return ""
	}
	var have []string
	for i, b := range w.scope {
		if b.space == space && !(attr && b.prefix == "") && w.visible(i) {
			over := false
			for _, d := range t.decl {
				over = over || d.prefix == b.prefix
			}
			if !over {
				have = append(have, b.prefix)
			}
		}
	}
	for _, d := range t.decl {
		if d.space == space && !(attr && d.prefix == "") {
			have = append(have, d.prefix)
		}
	}
	if len(have) > 0 && !(w.on[ntAlias] && w.r.n(4*w.dense) == 0) {
		p := have[w.r.n(len(have))]
		t.used[p] = true
		return p
	}
	p := w.newPrefix(t, attr)
	t.decl = append(t.decl, xbind{p, space})
	t.used[p] = true
	return p
}

// newPrefix makes a prefix that this element does not use yet.
func (w *notator) newPrefix(t *tagNames, attr bool) string {
	taken := func(p string) bool {
		if t.used[p] {
			return true
		}
		for _, d := range t.decl {
			if d.prefix == p {
				return true
			}
		}
		if w.on[ntShadow] {
			return false
		}
		for _, b := range w.scope {
			if b.prefix == p {
				return true
			}
		}
		return false
	}
	if !attr && w.on[ntDefault] && w.r.n(3) == 0 && !t.used[""] {
		ok := true
		for _, d := range t.decl {
			ok = ok && d.prefix != ""
		}
		if ok {
			return ""
		}
	}
	if w.on[ntShadow] && w.r.n(2) == 0 {
		for _, b := range w.scope {
			if b.prefix != "" && !taken(b.prefix) && w.r.n(3) == 0 {
				return b.prefix
			}
		}
	}
	if w.on[ntPrefix] {
		for i := 0; i < 4; i++ {
			if p := oddPrefixes[w.r.n(len(oddPrefixes))]; !taken(p) {
				return p
			}
		}
	}
	for {
		w.fresh++
		if p := "k" + strconv.Itoa(w.fresh); !taken(p) {
			return p
		}
	}
}

func (w *notator) gap() {
	if w.is(ntSpace) {
		w.out.WriteString([]string{"  ", "\t", "\n", " \r\n\t", "\r"}[w.r.n(5)])
	} else {
		w.out.WriteByte(' ')
	}
}

func (w *notator) maybeGap() {
	if w.is(ntSpace) {
		w.out.WriteString([]string{" ", "\t", "\n", "\r\n ", "     "}[w.r.n(5)])
	}
}

// chars writes text so that a parser reads s.
func (w *notator) chars(s string, quote byte) {
	prev := rune(0)
	for _, r := range s {
		switch {
		case r == '&':
			w.out.WriteString(w.pick("&amp;", "&#38;", "&#x26;"))
		case r == '<':
			w.out.WriteString(w.pick("&lt;", "&#60;", "&#x3C;", "&#x3c;"))
		case r == '>' && (prev == ']' || w.r.n(2) == 0):
			w.out.WriteString(w.pick("&gt;", "&#62;"))
		case r == rune(quote) && quote != 0:
			if r == '"' {
				w.out.WriteString(w.pick("&quot;", "&#34;", "&#x0022;"))
			} else {
				w.out.WriteString(w.pick("&apos;", "&#39;"))
			}
		case r == '\r' || quote != 0 && (r == '\n' || r == '\t'):
			w.out.WriteString(w.pick(fmt.Sprintf("&#x%X;", r), fmt.Sprintf("&#%d;", r), fmt.Sprintf("&#x%05x;", r)))
		case w.is(ntRef):
			fmt.Fprintf(&w.out, []string{"&#%d;", "&#x%x;", "&#x%X;", "&#000%d;"}[w.r.n(4)], r)
		default:
			w.out.WriteRune(r)
		}
		prev = r
	}
}

func (w *notator) pick(s ...string) string {
	if !w.on[ntRef] {
		return s[0]
	}
	return s[w.r.n(len(s))]
}

// noise writes what says nothing.
func (w *notator) noise() {
	if w.is(ntIndent) {
		w.out.WriteString(w.nl + strings.Repeat(" ", w.r.n(5)))
	}
	if w.is(ntPI) {
		w.out.WriteString([]string{"<?pi?>", "<?app do='<model>' & ?>", "<?a ? b ??>", "<?xml-stylesheet href=\"a\"?>"}[w.r.n(4)])
	}
	if w.is(ntComment) {
		w.out.WriteString([]string{"<!---->", "<!-- a comment -->", "<!-- </model> <object id=\"1\"/> & - > -->", "<!--]]>-->", "<!-- -\n - -->"}[w.r.n(5)])
	}
}

// split writes nothing in the middle of a text.
func (w *notator) split() {
	if w.on[ntComment] && w.r.n(3) == 0 {
		w.out.WriteString("<!-- split -->")
	} else if w.on[ntPI] && w.r.n(3) == 0 {
		w.out.WriteString("<?split?>")
	}
}

// textRun writes character data; exact tells that white space alone counts.
func (w *notator) textRun(s string, exact bool) {
	if s == "" {
		return
	}
	rs := []rune(s)
	for len(rs) > 0 {
		k := len(rs)
		if (w.on[ntCDATA] || w.on[ntComment] || w.on[ntPI]) && w.r.n(2) == 0 {
			if j := 1 + w.r.n(len(rs)); exact || strings.TrimSpace(string(rs[:j])) != "" && (j == len(rs) || strings.TrimSpace(string(rs[j:])) != "") {
				k = j
			}
		}
		p := string(rs[:k])
		rs = rs[k:]
		if w.is(ntCDATA) && !strings.ContainsAny(p, "\r") && !strings.Contains(p, "]]>") {
			w.out.WriteString("<![CDATA[" + p + "]]>")
		} else {
			w.chars(p, 0)
		}
		if len(rs) > 0 {
			w.split()
		}
	}
}

func (w *notator) element(n *node, top bool) {
	saved := len(w.scope)
	t := &tagNames{used: map[string]bool{}}
	var attrs []xattr // with prefix in space
	if top && w.model {
		w.declareRoot(n, t)
	}
	pre := w.choose(t, n.space, false)
	for _, a := range n.attrs {
		if a.space != "" {
			a.space = w.choose(t, a.space, true)
		}
		attrs = append(attrs, a)
	}
	if n.ours && n.local == "metadata" && len(n.need) > 0 {
		// The prefix of a name is one of the root element.
		for i := range attrs {
			if attrs[i].space == "" && attrs[i].local == "name" {
				for _, b := range w.scope {
					if b.space == n.need[0] && b.prefix != "" {
						attrs[i].value = b.prefix + ":" + attrs[i].value
						break
					}
				}
			}
		}
	}
	if top && w.model && len(n.need) > 0 {
		var ps []string
		for _, ns := range n.need {
			for _, d := range t.decl {
				if d.space == ns && d.prefix != "" {
					ps = append(ps, d.prefix)
					break
				}
			}
		}
		sep := " "
		if w.is(ntSpace) {
			sep = "   "
		}
		attrs = append(attrs, xattr{"", "requiredextensions", strings.Join(ps, sep)})
	}
	w.scope = append(w.scope, t.decl...)
	for _, d := range t.decl {
		a := xattr{"xmlns", d.prefix, d.space}
		if d.prefix == "" {
			a = xattr{"", "xmlns", d.space}
		}
		attrs = append(attrs, a)
	}
	if w.on[ntOrder] {
		for i := len(attrs) - 1; i > 0; i-- {
			j := w.r.n(i + 1)
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	name := n.local
	if pre != "" {
		name = pre + ":" + n.local
	}
	w.out.WriteString("<" + name)
	for _, a := range attrs {
		w.gap()
		if a.space != "" {
			w.out.WriteString(a.space + ":")
		}
		w.out.WriteString(a.local)
		w.maybeGap()
		w.out.WriteByte('=')
		w.maybeGap()
		q := byte('"')
		if w.is(ntQuote) {
			q = '\''
		}
		w.out.WriteByte(q)
		w.chars(a.value, q)
		w.out.WriteByte(q)
	}
	w.maybeGap()
	if len(n.kids) == 0 && (!w.on[ntEmpty] || w.r.n(2) == 0) && !(n.ours && n.local == "metadata") {
		w.out.WriteString("/>")
		w.scope = w.scope[:saved]
		return
	}
	w.out.WriteByte('>')
	mixed := n.ours && n.local == "metadata"
	for _, k := range n.kids {
		mixed = mixed || k.text
	}
	if !mixed {
		w.noise()
	} else {
		w.split()
	}
	for _, k := range n.kids {
		if k.text {
			w.textRun(k.value, n.ours)
		} else {
			w.element(k, false)
		}
		if !mixed {
			w.noise()
		} else if len(n.kids) > 1 || n.ours {
			w.split()
		}
	}
	w.out.WriteString("</" + name)
	w.maybeGap()
	w.out.WriteByte('>')
	w.scope = w.scope[:saved]
}

// declareRoot chooses what the root element declares.
func (w *notator) declareRoot(n *node, t *tagNames) {
	must := map[string]bool{}
	var order []string
	uses := map[string]bool{}
	n.walk(func(x *node) {
		if x.text {
			return
		}
		for _, ns := range x.need {
			if !must[ns] {
				must[ns] = true
				if !uses[ns] {
					order = append(order, ns)
				}
			}
		}
		for _, ns := range append([]string{x.space}, spacesOf(x)...) {
			if ns != "" && ns != xmlSpace && !uses[ns] {
				uses[ns] = true
				if !must[ns] {
					order = append(order, ns)
				}
			}
		}
	})
	if !w.on[ntPrefix] && !w.on[ntDefault] {
		t.decl = append(t.decl, xbind{"", go3mf.Namespace})
	} else if w.r.n(2) == 0 {
		t.decl = append(t.decl, xbind{"", go3mf.Namespace})
	}
	for _, ns := range order {
		if ns == go3mf.Namespace && len(t.decl) > 0 && !must[ns] {
			continue
		}
		if !must[ns] && w.on[ntLocal] && w.r.n(2) == 0 {
			continue
		}
		t.decl = append(t.decl, xbind{w.newPrefix(t, true), ns})
	}
}

func spacesOf(n *node) []string {
	var out []string
	for _, a := range n.attrs {
		out = append(out, a.space)
	}
	return out
}

func (w *notator) document(n *node) []byte {
	w.nl = "\n"
	if w.on[ntSpace] && w.r.n(2) == 0 {
		w.nl = "\r\n"
	}
	if w.on[ntProlog] {
		if w.r.n(3) == 0 {
			w.out.WriteString("\xef\xbb\xbf")
		}
		w.out.WriteString([]string{"", `<?xml version="1.0"?>`, `<?xml version='1.0' encoding='utf-8' standalone="yes" ?>`, `<?xml version="1.0" encoding="UTF-8"?>`}[w.r.n(4)])
	} else {
		w.out.WriteString(xml.Header)
	}
	w.noise()
	w.element(n, true)
	w.noise()
	return w.out.Bytes()
}

// Attributes by what their values are, per namespace and element.
var floatAttrs = map[string]map[string]bool{
	go3mf.Namespace:       set("vertex x", "vertex y", "vertex z", "item transform", "component transform"),
	slices.Namespace:      set("vertex x", "vertex y", "slicestack zbottom", "slice ztop"),
	beamlattice.Namespace: set("beamlattice minlength", "beamlattice radius", "beam r1", "beam r2"),
	materials.Namespace:   set("tex2coord u", "tex2coord v", "composite values"),
}
var intAttrs = map[string]map[string]bool{
	go3mf.Namespace: set("object id", "object pid", "object pindex", "basematerials id", "triangle v1", "triangle v2", "triangle v3", "triangle pid", "triangle p1", "triangle p2", "triangle p3", "item objectid", "component objectid"),
	slices.Namespace: set("slicestack id", "polygon startv", "segment v2", "segment p1", "segment p2", "segment pid", "sliceref slicestackid",
		"@object slicestackid"),
	beamlattice.Namespace: set("beam v1", "beam v2", "beamlattice clippingmesh", "beamlattice representationmesh", "ref index"),
	materials.Namespace:   set("colorgroup id", "texture2d id", "texture2dgroup id", "texture2dgroup texid", "compositematerials id", "compositematerials matid", "compositematerials matindices", "multiproperties id", "multiproperties pids", "multi pindices"),
}
var defaults = map[string]map[string]string{
	go3mf.Namespace:       {"object type": "model", "metadata preserve": "0", "item transform": "1 0 0 0 1 0 0 0 1 0 0 0", "component transform": "1.0 0 0 0 1 0 -0 0 1e0 0 0 0"},
	materials.Namespace:   {"texture2d tilestyleu": "wrap", "texture2d tilestylev": "wrap", "texture2d filter": "auto"},
	beamlattice.Namespace: {"beamlattice clippingmode": "none", "beamlattice cap": "sphere"},
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// reword changes how the values of a document are written.
func (w *notator) reword(n *node) {
	if n.text {
		return
	}
	if n.ours {
		seen := map[string]bool{}
		for i := range n.attrs {
			a := &n.attrs[i]
			key := n.local + " " + a.local
			if a.space != "" {
				if a.space == slices.Namespace && n.local == "object" && a.local == "slicestackid" && w.is(ntNumber) {
					a.value = "00" + a.value
				}
				continue
			}
			seen[a.local] = true
			switch {
			case floatAttrs[n.space][key]:
				a.value = w.list(a.value, w.float)
			case intAttrs[n.space][key]:
				a.value = w.list(a.value, w.int)
			case n.space == go3mf.Namespace && key == "base displaycolor", n.space == materials.Namespace && key == "color color":
				a.value = w.colour(a.value)
			case n.space == go3mf.Namespace && key == "metadata preserve" && w.is(ntExplicit):
				a.value = map[string]string{"true": "1", "1": "1", "0": "0", "false": "false"}[a.value]
			}
		}
		for _, key := range sortedStrings(defaults[n.space]) {
			f, v := strings.Fields(key), defaults[n.space][key]
			if f[0] == n.local && !seen[f[1]] && w.is(ntExplicit) {
				n.attrs = append(n.attrs, xattr{"", f[1], v})
			}
		}
		if n.space == go3mf.Namespace && n.local == "triangle" && w.is(ntExplicit) {
			p1 := ""
			for _, a := range n.attrs {
				if a.space == "" && a.local == "p1" {
					p1 = a.value
				}
			}
			for _, p := range []string{"p2", "p3"} {
				if p1 != "" && !seen[p] {
					n.attrs = append(n.attrs, xattr{"", p, p1})
				}
			}
		}
		if n.space == go3mf.Namespace && n.local == "resources" && w.on[ntMix] {
			var a, b []*node // resources of each kind keep their order
			for _, k := range n.kids {
				if k.space == go3mf.Namespace && k.local == "object" {
					b = append(b, k)
				} else {
					a = append(a, k)
				}
			}
			n.kids = n.kids[:0:0]
			for len(a)+len(b) > 0 {
				if len(b) == 0 || len(a) > 0 && w.r.n(2) == 0 {
					n.kids, a = append(n.kids, a[0]), a[1:]
				} else {
					n.kids, b = append(n.kids, b[0]), b[1:]
				}
			}
		}
	}
	for _, k := range n.kids {
		w.reword(k)
	}
	if n.ours && w.on[ntStray] {
		w.strays(n)
	}
}

// strays puts elements that are not of the format where nothing but known
// elements counts, named as those but in no namespace or another.
func (w *notator) strays(n *node) {
	names := strayNames[n.space][n.local]
	if names == "" {
		return
	}
	fs := strings.Fields(names)
	var kids []*node
	for i := 0; i <= len(n.kids); i++ {
		if w.r.n(4*w.dense) == 0 {
			x := &node{local: fs[w.r.n(len(fs))]}
			switch w.r.n(5) {
			case 0, 1:
				x.space = "urn:stray"
			case 2: // of the format, but unknown
				x.space = n.space
				x.local = []string{"stray", x.local + "s", strings.ToUpper(x.local), x.local[:len(x.local)-1], "_" + x.local}[w.r.n(5)]
			}
			for _, a := range []string{"id", "x", "y", "z", "v1", "v2", "v3", "objectid", "name", "color", "u", "v"} {
				if w.r.n(2) == 0 {
					x.attrs = append(x.attrs, xattr{"", a, "1"})
				}
			}
			if w.r.n(4) == 0 {
				x.kids = append(x.kids, &node{local: x.local, space: n.space, attrs: x.attrs})
			}
			kids = append(kids, x)
		}
		if i < len(n.kids) {
			kids = append(kids, n.kids[i])
		}
	}
	n.kids = kids
}

var strayNames = map[string]map[string]string{
	go3mf.Namespace:       {"vertices": "vertex", "triangles": "triangle", "components": "component", "build": "item", "metadatagroup": "metadata", "basematerials": "base", "item": "metadatagroup", "object": "mesh components"},
	materials.Namespace:   {"colorgroup": "color", "texture2dgroup": "tex2coord", "compositematerials": "composite", "multiproperties": "multi"},
	slices.Namespace:      {"slicestack": "slice sliceref", "slice": "vertices polygon", "vertices": "vertex", "polygon": "segment"},
	beamlattice.Namespace: {"beamlattice": "beams beamsets", "beams": "beam", "beamsets": "beamset", "beamset": "ref"},
}

func sortedStrings(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *notator) list(s string, f func(string) string) string {
	fs := strings.Fields(s)
	for i := range fs {
		if w.is(ntNumber) {
			fs[i] = f(fs[i])
		}
	}
	if len(fs) <= 1 {
		return strings.Join(fs, "")
	}
	sep := " "
	if w.is(ntSpace) {
		sep = "  "
	}
	out := strings.Join(fs, sep)
	if w.is(ntSpace) {
		out = " " + out + "  "
	}
	return out
}

func (w *notator) int(s string) string { return strings.Repeat("0", 1+w.r.n(12)) + s }

// float writes the same decimal number in another way.
func (w *notator) float(s string) string {
	if s == "" || strings.ContainsAny(s, "eEnNiIxX") {
		return s
	}
	neg := strings.HasPrefix(s, "-")
	d := strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	ip, fp := d, ""
	if i := strings.IndexByte(d, '.'); i >= 0 {
		ip, fp = d[:i], d[i+1:]
	}
	exp := 0
	for k := w.r.n(4); k > 0; k-- {
		switch w.r.n(5) {
		case 0:
			fp += strings.Repeat("0", 1+w.r.n(8))
		case 1:
			ip = strings.Repeat("0", 1+w.r.n(3)) + ip
		case 2: // the point to the right
			if fp == "" {
				fp = "0"
			}
			ip, fp = ip+fp[:1], fp[1:]
			exp--
		case 3: // the point to the left
			if ip == "" {
				ip = "0"
			}
			ip, fp = ip[:len(ip)-1], ip[len(ip)-1:]+fp
			exp++
		}
	}
	if ip == "" && (fp == "" || w.r.n(2) == 0) {
		ip = "0"
	}
	out := ip
	if fp != "" {
		out += "." + fp
	}
	if neg {
		out = "-" + out
	} else if w.r.n(4) == 0 {
		out = "+" + out
	}
	if exp != 0 || w.r.n(4) == 0 {
		e := strconv.Itoa(exp)
		if exp >= 0 && w.r.n(2) == 0 {
			e = "+" + e
		} else if exp < 0 && w.r.n(2) == 0 {
			e = "-0" + e[1:]
		}
		out += []string{"e", "E"}[w.r.n(2)] + e
	}
	return out
}

func (w *notator) colour(s string) string {
	if w.is(ntCase) {
		if len(s) == 7 && w.r.n(2) == 0 {
			s += "ff"
		} else if len(s) == 9 && strings.EqualFold(s[7:], "ff") && w.r.n(2) == 0 {
			s = s[:7]
		}
		b := []byte(s)
		for i := range b {
			if w.r.n(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		s = string(b)
	}
	return s
}

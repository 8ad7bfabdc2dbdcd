package harness

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// A document is damaged as a list of pieces: tags and the text between them.
type piece struct {
	tag bool
	s   string
}

func pieces(b []byte) []piece {
	var out []piece
	for len(b) > 0 {
		i := bytes.IndexByte(b, '<')
		if i < 0 {
			out = append(out, piece{false, string(b)})
			break
		}
		if i > 0 {
			out = append(out, piece{false, string(b[:i])})
			b = b[i:]
		}
		j := bytes.IndexByte(b, '>')
		if j < 0 {
			j = len(b) - 1
		}
		out = append(out, piece{true, string(b[:j+1])})
		b = b[j+1:]
	}
	return out
}

func (p piece) name() string {
	s := strings.Trim(p.s, "</>?")
	if i := strings.IndexAny(s, " \t\n/"); i >= 0 {
		s = s[:i]
	}
	return s
}

func (p piece) opens() bool {
	return p.tag && !strings.HasPrefix(p.s, "</") && !strings.HasPrefix(p.s, "<?") && !strings.HasPrefix(p.s, "<!")
}
func (p piece) empty() bool { return strings.HasSuffix(p.s, "/>") }

var elemVocab = []string{"model", "resources", "object", "mesh", "vertices", "vertex", "triangles", "triangle", "components", "component", "build", "item",
	"metadatagroup", "metadata", "basematerials", "base", "m:colorgroup", "m:color", "m:texture2d", "m:texture2dgroup", "m:tex2coord", "m:compositematerials",
	"m:composite", "m:multiproperties", "m:multi", "s:slicestack", "s:slice", "s:sliceref", "s:vertices", "s:vertex", "s:polygon", "s:segment",
	"b:beamlattice", "b:beams", "b:beam", "b:beamsets", "b:beamset", "b:ref", "p:thing", "x", "ua:el", "zz:unbound"}

var attrVocab = []string{"id", "pid", "pindex", "p1", "p2", "p3", "v1", "v2", "v3", "x", "y", "z", "name", "type", "path", "p:path", "p:UUID", "objectid", "transform",
	"thumbnail", "partnumber", "unit", "xml:lang", "requiredextensions", "recommendedextensions", "xmlns", "xmlns:m", "xmlns:q", "xmlns:xml", "s:slicestackid", "s:meshresolution", "displaycolor",
	"color", "texid", "contenttype", "tilestyleu", "filter", "u", "v", "matid", "matindices", "values", "pids", "blendmethods", "pindices", "ztop", "zbottom",
	"startv", "slicestackid", "slicepath", "radius", "minlength", "cap", "cap1", "r1", "r2", "clippingmode", "clippingmesh", "identifier", "index", "preserve", "m:x", "q:y", "b:z", "p:z", "s:q"}

var valueVocab = []string{"", "0", "1", "-1", "4294967295", "99999999999999999999", "NaN", "Inf", "-", "1e400", "0x10", "a", " ", "1 1 1", "1 2 3 4 5 6 7 8 9 10 11 12",
	"/3D/3dmodel.model", "#ff", "#GGGGGG", "m s p b", "bcc", "model", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02",
	"http://schemas.microsoft.com/3dmanufacturing/material/2015/02", "&lt;", "&#0;", "&bogus;", "&#x110000;", "&", "\xff\xfe", "\x00"}

// mutateXML damages a document in up to n ways.
func mutateXML(t *simrt.Tape, b []byte, n int) ([]byte, string) {
	ps := pieces(b)
	var log []string
	pick := func() int { return t.Draw(len(ps)) }
	tagAt := func(from int) int {
		for i := range ps {
			j := (from + i) % len(ps)
			if ps[j].opens() {
				return j
			}
		}
		return 0
	}
	insert := func(i int, s ...string) {
		var add []piece
		for _, x := range s {
			add = append(add, piece{strings.HasPrefix(x, "<"), x})
		}
		ps = append(ps[:i:i], append(add, ps[i:]...)...)
	}
	end := func(i int) int { // index of the matching end tag, or i
		if ps[i].empty() {
			return i
		}
		depth := 0
		for j := i; j < len(ps); j++ {
			if ps[j].opens() && !ps[j].empty() {
				depth++
			} else if strings.HasPrefix(ps[j].s, "</") {
				depth--
				if depth == 0 {
					return j
				}
			}
		}
		return i
	}
	setAttr := func(i int, name, val string) {
		s := ps[i].s
		k := len(s) - 1
		if ps[i].empty() {
			k--
		}
		if k < 1 {
			return
		}
		ps[i].s = s[:k] + " " + name + `="` + val + `"` + s[k:]
	}
	for ; n > 0 && len(ps) > 0; n-- {
		i := pick()
		what := ""
		switch t.Draw(22) {
		case 0:
			what = "remove " + clip(ps[i].s)
			ps = append(ps[:i:i], ps[i+1:]...)
		case 1:
			what = "repeat " + clip(ps[i].s)
			insert(i, ps[i].s)
		case 2:
			j := pick()
			what = "swap " + clip(ps[i].s) + " with " + clip(ps[j].s)
			ps[i], ps[j] = ps[j], ps[i]
		case 3: // wrap a random element inside another kind of element
			i = tagAt(i)
			w := elemVocab[t.Draw(len(elemVocab))]
			e := end(i)
			what = "wrap " + clip(ps[i].s) + " in " + w
			insert(e+1, "</"+w+">")
			insert(i, "<"+w+">")
		case 4: // nest an element in itself
			i = tagAt(i)
			e := end(i)
			k := 1 + t.Draw(3)
			if t.Draw(40) == 39 {
				k = 3000
			}
			what = fmt.Sprintf("nest %s in itself %d times", clip(ps[i].s), k)
			if !ps[i].empty() && e > i {
				var o, cl []string
				for j := 0; j < k; j++ {
					o = append(o, ps[i].s)
					cl = append(cl, ps[e].s)
				}
				insert(e, cl...)
				insert(i, o...)
			}
		case 5: // insert an element
			w := elemVocab[t.Draw(len(elemVocab))]
			what = "insert " + w
			switch t.Draw(4) {
			case 0:
				insert(i, "<"+w+"/>")
			case 1:
				insert(i, "<"+w+">", "</"+w+">")
			case 2:
				insert(i, "<"+w+">")
			case 3:
				insert(i, "</"+w+">")
			}
		case 6: // rename an element
			i = tagAt(i)
			w := elemVocab[t.Draw(len(elemVocab))]
			e := end(i)
			nm := ps[i].name()
			what = "rename " + nm + " to " + w
			ps[i].s = strings.Replace(ps[i].s, nm, w, 1)
			if e != i {
				ps[e].s = "</" + w + ">"
			}
		case 7, 8: // add an attribute, maybe one the extension does not define
			i = tagAt(i)
			a, v := attrVocab[t.Draw(len(attrVocab))], valueVocab[t.Draw(len(valueVocab))]
			what = "add " + a + "=" + strconv.Quote(v) + " to " + ps[i].name()
			setAttr(i, a, v)
		case 9, 10: // change the value of an attribute
			i = tagAt(i)
			q := strings.Split(ps[i].s, `"`)
			if len(q) >= 3 {
				k := 2*t.Draw((len(q)-1)/2) + 1
				v := valueVocab[t.Draw(len(valueVocab))]
				what = "value " + strconv.Quote(clip(q[k])) + " of " + ps[i].name() + " becomes " + strconv.Quote(v)
				q[k] = v
				ps[i].s = strings.Join(q, `"`)
			}
		case 11: // remove an attribute
			i = tagAt(i)
			q := strings.Split(ps[i].s, `"`)
			if len(q) >= 3 {
				k := 2 * t.Draw((len(q)-1)/2)
				at := q[k]
				if j := strings.LastIndexByte(at, ' '); j >= 0 {
					what = "remove attribute" + at[j:] + " of " + ps[i].name()
					q[k] = at[:j]
					q = append(q[:k+1:k+1], q[k+2:]...)
					q[k] += q[k+1]
					q = append(q[:k+1:k+1], q[k+2:]...)
					ps[i].s = strings.Join(q, `"`)
				}
			}
		case 12: // repeat an attribute many times
			i = tagAt(i)
			a := attrVocab[t.Draw(len(attrVocab))]
			k := 2 + t.Draw(30)
			what = fmt.Sprintf("add %s %d times to %s", a, k, ps[i].name())
			for j := 0; j < k; j++ {
				setAttr(i, a, strconv.Itoa(j))
			}
		case 13: // cut the document
			what = fmt.Sprintf("cut after piece %d", i)
			ps = ps[:i]
		case 14: // close too early
			what = "close early at " + strconv.Itoa(i)
			insert(i, "</model>")
		case 15: // stray syntax
			s := []string{"<", ">", "<!--", "<!-- x -->", "<![CDATA[ a ]]>", "<?pi a?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "]]>", "</>", "< a>", "<a", "<a b>", "<a b=c/>", "<a 'b'/>", "&bogus;", "\x00", "\xff", "<a:b:c/>", "<:a/>", "<a:/>", "<!", "<?", "<!-", "<![CDATA[", "<a b='1' b='2'/>", "</model", "\ufeff"}[t.Draw(27)]
			what = "insert " + strconv.Quote(s)
			insert(i, s)
		case 16: // change a namespace declaration
			for j := range ps {
				if ps[j].opens() {
					k := strings.Count(ps[j].s, "xmlns")
					if k > 0 {
						v := []string{"xmlnx", "xmlns:"}[t.Draw(2)]
						k = t.Draw(k)
						idx := 0
						for ; k >= 0; k-- {
							idx += strings.Index(ps[j].s[idx:], "xmlns") + 1
						}
						idx--
						what = "rename namespace declaration"
						ps[j].s = ps[j].s[:idx] + v + ps[j].s[idx+5:]
					}
					break
				}
			}
		case 17: // move a whole element elsewhere
			i = tagAt(i)
			e := end(i)
			mv := append([]piece(nil), ps[i:e+1]...)
			what = "move " + clip(ps[i].s)
			ps = append(ps[:i:i], ps[e+1:]...)
			k := t.Draw(len(ps) + 1)
			ps = append(ps[:k:k], append(mv, ps[k:]...)...)
		case 18: // copy a whole element elsewhere
			i = tagAt(i)
			e := end(i)
			if e-i < 4000 {
				mv := append([]piece(nil), ps[i:e+1]...)
				what = "copy " + clip(ps[i].s)
				k := t.Draw(len(ps) + 1)
				ps = append(ps[:k:k], append(mv, ps[k:]...)...)
			}
		case 19: // flip a byte
			if len(ps[i].s) > 0 {
				x := []byte(ps[i].s)
				k := t.Draw(len(x))
				x[k] ^= 1 << uint(t.Draw(8))
				what = "flip a bit of " + clip(ps[i].s)
				ps[i].s = string(x)
			}
		case 20: // a long run of text or of a name
			s := strings.Repeat([]string{"a", " ", "é", "&amp;", "1 "}[t.Draw(5)], []int{5, 4090, 9000}[t.Draw(3)])
			what = "insert long text"
			switch t.Draw(3) {
			case 0:
				insert(i, s)
			case 1:
				setAttr(tagAt(i), attrVocab[t.Draw(len(attrVocab))], s)
			case 2:
				insert(i, "<"+strings.Repeat("n", len(s))+"/>")
			}
		case 21: // join with the same document again
			if t.Draw(4) == 3 {
				what = "append the document to itself"
				ps = append(ps, ps...)
			}
		}
		if what != "" {
			log = append(log, what)
		}
	}
	var out bytes.Buffer
	for _, p := range ps {
		out.WriteString(p.s)
	}
	return out.Bytes(), strings.Join(log, "; ")
}

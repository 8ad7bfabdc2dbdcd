package harness

import (
	"sort"
	"strings"

	"verifsim/simrt"
)

// rule says which attributes and elements an element may have. Documents are grown
// from the rules with everything optional, repeated, out of place or invalid now and then.
type rule struct{ attrs, kids string }

var grammar = map[string]rule{
	"model":                {"unit xml:lang requiredextensions thumbnail xmlns:q ua:a p:x m:x", "metadata metadata resources build resources build ua:el m:colorgroup b:beamlattice"},
	"metadata":             {"name type preserve", ""},
	"metadatagroup":        {"ua:a p:UUID", "metadata"},
	"resources":            {"ua:a s:x", "object basematerials m:colorgroup m:texture2d m:texture2dgroup m:compositematerials m:multiproperties s:slicestack object object ua:el b:beamlattice p:thing m:thing"},
	"object":               {"id type name pid pindex partnumber thumbnail p:UUID s:slicestackid s:meshresolution ua:a b:x", "metadatagroup mesh components mesh components"},
	"mesh":                 {"ua:a b:x", "vertices triangles b:beamlattice triangles vertices ua:el s:thing"},
	"vertices":             {"ua:a", "vertex vertex vertex"},
	"vertex":               {"x y z ua:a", ""},
	"triangles":            {"ua:a", "triangle triangle triangle"},
	"triangle":             {"v1 v2 v3 pid p1 p2 p3 ua:a m:x", ""},
	"components":           {"ua:a", "component component"},
	"component":            {"objectid transform p:UUID p:path ua:a", ""},
	"build":                {"p:UUID ua:a", "item item"},
	"item":                 {"objectid transform partnumber p:UUID p:path ua:a", "metadatagroup"},
	"basematerials":        {"id ua:a", "base base"},
	"base":                 {"name displaycolor ua:a", ""},
	"m:colorgroup":         {"id", "m:color m:color"},
	"m:color":              {"color", ""},
	"m:texture2d":          {"id path contenttype tilestyleu tilestylev filter", ""},
	"m:texture2dgroup":     {"id texid", "m:tex2coord m:tex2coord"},
	"m:tex2coord":          {"u v", ""},
	"m:compositematerials": {"id matid matindices", "m:composite"},
	"m:composite":          {"values", ""},
	"m:multiproperties":    {"id pids blendmethods", "m:multi"},
	"m:multi":              {"pindices", ""},
	"s:slicestack":         {"id zbottom", "s:slice s:slice s:sliceref"},
	"s:slice":              {"ztop", "s:vertices s:polygon s:polygon s:vertices"},
	"s:vertices":           {"", "s:vertex s:vertex"},
	"s:vertex":             {"x y", ""},
	"s:polygon":            {"startv", "s:segment s:segment"},
	"s:segment":            {"v2 pid p1 p2", ""},
	"s:sliceref":           {"slicestackid slicepath", ""},
	"b:beamlattice":        {"radius minlength cap clippingmode clippingmesh representationmesh", "b:beams b:beamsets b:beams"},
	"b:beams":              {"", "b:beam b:beam b:beam"},
	"b:beam":               {"v1 v2 r1 r2 cap1 cap2 p1 p2", ""},
	"b:beamsets":           {"", "b:beamset b:beamset"},
	"b:beamset":            {"name identifier", "b:ref b:ref"},
	"b:ref":                {"index", ""},
	"ua:el":                {"id ua:a", "ua:el vertex object m:color"},
}

var goodValues = map[string][]string{
	"unit": {"inch", "micron"}, "type": {"model", "support"}, "transform": {"1 0 0 0 1 0 0 0 1 5 6 7"}, "displaycolor": {"#ff00ff", "#ff00ff80"}, "color": {"#00ff00"},
	"p:UUID": {"cb828680-8895-4e08-a1fc-be63e033df15", "urn:uuid:cb828680-8895-4e08-a1fc-be63e033df15", "{cb828680-8895-4e08-a1fc-be63e033df15}", "cb82868088954e08a1fcbe63e033df15",
		"cb828680-8895-4e08-a1fc-be63e033df1", "urn:uuid:", "{", "cb828680-8895-4e08-a1fc-be63e033df15}", "-------------------------------------", "urn:uuid:cb828680-8895-4e08-a1fc-be63e033df1"},
	"p:path": {"/3D/child.model", "/3D/3dmodel.model", ""}, "path": {"/3D/t.png"}, "name": {"n", "q:n", "ua:n", ":n", "n:", ":", "zz:n"}, "preserve": {"1", "true"}, "contenttype": {"image/png", "image/jpeg"},
	"tilestyleu": {"wrap", "mirror", "clamp", "none"}, "tilestylev": {"wrap", "clamp"}, "filter": {"auto", "nearest", "linear"}, "blendmethods": {"mix multiply", "mix"},
	"pids": {"1 2", "", "1"}, "pindices": {"0 1", ""}, "matindices": {"0 1"}, "values": {"0.5 0.5", ""}, "cap": {"hemisphere", "butt", "sphere"}, "cap1": {"butt"}, "cap2": {"sphere"},
	"clippingmode": {"none", "inside", "outside"}, "s:meshresolution": {"fullres", "lowres"}, "requiredextensions": {"m s b p", "q", "m", ""}, "xmlns:q": {"http://example.com/q", "",
		"http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"}, "xml:lang": {"en"}, "thumbnail": {"/t.png", ""}, "slicepath": {"/3D/child.model", ""},
}

var numberValues = []string{"1", "0", "2", "3", "1.5", "-2", "+1", "007", "4294967295", "1e3"}

// grammarNames are the names of the elements of the grammar.
var grammarNames = func() (es []string) {
	for e := range grammar {
		es = append(es, e)
	}
	sort.Strings(es)
	return
}()

// pathsTo returns the ways to nest elements from the model down to the one.
func pathsTo(name string) (paths [][]string) {
	var walk func(path []string)
	walk = func(path []string) {
		last := path[len(path)-1]
		if last == name {
			paths = append(paths, append([]string(nil), path...))
			return
		}
		seen := map[string]bool{}
		for _, k := range strings.Fields(grammar[last].kids) {
			if !seen[k] && k != "ua:el" && len(path) < 8 {
				seen[k] = true
				walk(append(path, k))
			}
		}
	}
	walk([]string{"model"})
	if len(paths) == 0 {
		paths = [][]string{{"model", name}}
	}
	return
}

// growDoc grows a model document.
func growDoc(t *simrt.Tape) []byte {
	var b strings.Builder
	left := 3 + t.Draw(80) // elements
	if t.Chance(1, 3) {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	sloppy := t.Draw(3) // how often something is wrong
	wrong := func() bool { return sloppy > 0 && t.Chance(sloppy, 40) }
	// Half of the documents are mostly about one element, so that the rare ones
	// are met in all their forms too.
	focus := map[string]bool{}
	if t.Chance(1, 2) {
		path := pathsTo(grammarNames[t.Draw(len(grammarNames))])
		for _, e := range path[t.Draw(len(path))] {
			focus[e] = true
		}
	}
	var grow func(name string, depth int)
	grow = func(name string, depth int) {
		left--
		r := grammar[name]
		b.WriteByte('<')
		b.WriteString(name)
		if depth == 0 {
			b.WriteString(` xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:m="http://schemas.microsoft.com/3dmanufacturing/material/2015/02"` +
				` xmlns:p="http://schemas.microsoft.com/3dmanufacturing/production/2015/06" xmlns:s="http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"` +
				` xmlns:b="http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02" xmlns:ua="http://example.com/ua"`)
		}
		all := strings.Fields(r.attrs)
		keep := t.Draw(4) // 0: none, 1: few, 2: most, 3: all
		for _, a := range all {
			if keep == 3 || keep > 0 && t.Chance(keep, 3) {
				if wrong() {
					a = attrVocab[t.Draw(len(attrVocab))]
				}
				var v string
				if vs := goodValues[a]; wrong() {
					v = valueVocab[t.Draw(len(valueVocab))]
				} else if vs != nil {
					v = vs[t.Draw(len(vs))]
				} else {
					v = numberValues[t.Draw(len(numberValues))]
				}
				b.WriteString(" " + a + `="` + v + `"`)
			}
		}
		kids := strings.Fields(r.kids)
		var body []string
		for _, k := range kids {
			switch {
			case len(focus) == 0 && t.Chance(1, 2), focus[k] && t.Chance(7, 8), len(focus) != 0 && t.Chance(1, 8):
				body = append(body, k)
			}
		}
		if wrong() {
			body = append(body, elemVocab[t.Draw(len(elemVocab))])
		}
		if len(body) == 0 || left <= 0 || depth > 12 {
			if t.Chance(1, 2) {
				b.WriteString("/>")
			} else {
				b.WriteString("></" + name + ">")
			}
			return
		}
		b.WriteByte('>')
		for len(body) > 0 {
			i := 0
			if t.Chance(1, 4) { // another order
				i = t.Draw(len(body))
			}
			if t.Chance(1, 8) {
				b.WriteString([]string{" ", "\n", "text", "&amp;", "a\r\nb"}[t.Draw(5)])
			}
			grow(body[i], depth+1)
			body = append(body[:i:i], body[i+1:]...)
		}
		if !wrong() {
			b.WriteString("</" + name + ">")
		}
	}
	grow("model", 0)
	return []byte(b.String())
}

// hugeDoc is a document with very much of something: one element repeated, nested or with
// very many attributes, or an attribute with a very long value.
func hugeDoc(t *simrt.Tape) []byte {
	doc := string(growDoc(t))
	var at []int // where start tags end
	for i := strings.IndexByte(doc, '<'); i < len(doc); i++ {
		if doc[i] == '>' && doc[i-1] != '?' && !strings.HasPrefix(doc[strings.LastIndexByte(doc[:i], '<'):], "</") {
			at = append(at, i)
		}
	}
	end := at[t.Draw(len(at))]
	start := strings.LastIndexByte(doc[:end], '<')
	name := doc[start+1 : end]
	if i := strings.IndexAny(name, " /"); i >= 0 {
		name = name[:i]
	}
	open := strings.TrimSuffix(doc[start:end], "/")
	n := 500 << t.Draw(6)
	kid := "ua:el"
	if k := strings.Fields(grammar[name].kids); len(k) > 0 {
		kid = k[t.Draw(len(k))]
	}
	var b strings.Builder
	b.WriteString(doc[:start])
	switch t.Draw(6) {
	case 0, 1: // the same element again and again
		var attrs string
		for _, a := range strings.Fields(grammar[kid].attrs) {
			if t.Chance(2, 3) {
				v := "1"
				if vs := goodValues[a]; vs != nil {
					v = vs[0]
				}
				attrs += " " + a + `="` + v + `"`
			}
		}
		if t.Chance(1, 2) { // vertices need not be in a grown document to be seen here
			b.WriteString(open + ">" + strings.Repeat("<"+kid+attrs+"/>", n) + "</" + name + ">")
		} else {
			b.WriteString(`<resources><object id="1"><mesh><vertices>` + strings.Repeat(`<vertex x="1" y="2" z="3"/>`, n) + `</vertices><triangles>` +
				strings.Repeat(`<triangle v1="0" v2="1" v3="2"/>`, n>>t.Draw(8)) + `</triangles><b:beamlattice><b:beams>` + strings.Repeat(`<b:beam v1="0" v2="1"/>`, n>>t.Draw(8)) +
				`</b:beams></b:beamlattice></mesh></object></resources>`)
		}
	case 2: // nested
		b.WriteString(open + ">" + strings.Repeat("<"+kid+">", n))
		if t.Chance(1, 2) {
			b.WriteString(strings.Repeat("</"+kid+">", n) + "</" + name + ">")
		}
	case 3: // attributes
		b.WriteString(open)
		for i := 0; i < n; i++ {
			b.WriteString(" ")
			if t.Chance(1, 2) {
				b.WriteString("xmlns:")
			}
			b.WriteString("a" + strings.Repeat("b", i%7) + `="1"`)
		}
		b.WriteString("/>")
	case 4: // a long value
		b.WriteString(open)
		as := strings.Fields(grammar[name].attrs)
		if len(as) == 0 {
			as = []string{"pids"}
		}
		b.WriteString(" " + as[t.Draw(len(as))] + `="` + strings.Repeat([]string{"1 ", "0", "0.5 ", "&amp;", "a", " ", "#", "-", "mix "}[t.Draw(9)], n) + `"/>`)
	case 5: // text
		b.WriteString(open + ">" + strings.Repeat([]string{"text", "&lt;", "\r\n", "&#x10ffff;", " "}[t.Draw(5)], n) + "</" + name + ">")
	}
	b.WriteString(doc[end+1:])
	return []byte(b.String())
}

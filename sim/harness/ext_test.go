package harness

import (
	"encoding/xml"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	gerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/spec"
)

// An extension of a third party: attributes on every element that takes any,
// a resource, and an element for models and meshes.

const nsX = "http://example.com/verif/extension"

func init() { spec.Register(nsX, extSpec{}) }

type extSpec struct{}

func (extSpec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
	return &ExtAttrs{On: parent.Space + " " + parent.Local}
}

func (extSpec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	switch name.Local {
	case "widget":
		return &extDecoder{e: &ExtElem{Name: name.Local}, top: &ExtAsset{}}
	case "gadget":
		return &extDecoder{e: &ExtElem{Name: name.Local}}
	}
	return nil
}

// ExtAttrs are attributes of the extension: a number and a text.
type ExtAttrs struct {
	On string // the element they are of
	N  uint32
	S  string

	Fail func() error
}

// Namespace is the extension's.
func (*ExtAttrs) Namespace() string { return nsX }

// Marshal3MF adds the attributes, or fails.
func (a *ExtAttrs) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
	if a.Fail != nil {
		return a.Fail()
	}
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: nsX, Local: "n"}, Value: strconv.FormatUint(uint64(a.N), 10)})
	if a.S != "" {
		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: nsX, Local: "s"}, Value: a.S})
	}
	return nil
}

// Unmarshal3MFAttr sets one of the attributes.
func (a *ExtAttrs) Unmarshal3MFAttr(x spec.XMLAttr) error {
	switch x.Name.Local {
	case "n":
		return extNumber(&a.N, x)
	case "s":
		a.S = string(x.Value)
	}
	return nil
}

func extNumber(to *uint32, x spec.XMLAttr) error {
	n, err := strconv.ParseUint(string(x.Value), 10, 32)
	if err != nil {
		*to = 0
		return gerr.NewParseAttrError(x.Name.Local, false)
	}
	*to = uint32(n)
	return nil
}

// ExtElem is an element of the extension.
type ExtElem struct {
	Name string
	N    uint32
	S    string
	Text string
	Kids []*ExtElem

	Fail func() error
}

// ExtAsset is a resource of the extension, whose number is its identifier.
type ExtAsset struct{ ExtElem }

// XMLName is the name of the element.
func (*ExtAsset) XMLName() xml.Name { return xml.Name{Space: nsX, Local: "widget"} }

// Identify returns the identifier.
func (e *ExtAsset) Identify() uint32 { return e.N }

// Marshal3MF writes the element, or fails.
func (e *ExtElem) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
	s := xml.StartElement{Name: xml.Name{Space: nsX, Local: e.Name}, Attr: []xml.Attr{{Name: xml.Name{Local: "n"}, Value: strconv.FormatUint(uint64(e.N), 10)}}}
	if e.S != "" {
		s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Local: "s"}, Value: e.S})
	}
	x.EncodeToken(s)
	if e.Text != "" {
		x.EncodeToken(xml.CharData(e.Text))
	}
	for _, k := range e.Kids {
		if err := k.Marshal3MF(x, nil); err != nil {
			return err
		}
	}
	if e.Fail != nil {
		return e.Fail()
	}
	x.EncodeToken(s.End())
	return nil
}

type extDecoder struct {
	e     *ExtElem
	top   *ExtAsset
	ended bool
}

func (d *extDecoder) Element() interface{} {
	if d.top != nil {
		d.e = &d.top.ExtElem
		d.e.Name = "widget"
		return d.top
	}
	return d.e
}

func (d *extDecoder) Start(attrs []spec.XMLAttr) error {
	var errs error
	for _, a := range attrs {
		if a.Name.Space != "" {
			continue
		}
		switch a.Name.Local {
		case "n":
			errs = gerr.Append(errs, extNumber(&d.e.N, a))
		case "s":
			d.e.S = string(a.Value)
		}
	}
	return errs
}

func (d *extDecoder) Child(name xml.Name) (int, spec.ElementDecoder) {
	if name.Space != nsX || name.Local != "kid" {
		return -1, nil
	}
	k := &ExtElem{Name: "kid"}
	d.e.Kids = append(d.e.Kids, k)
	return len(d.e.Kids) - 1, &extDecoder{e: k}
}

func (d *extDecoder) CharData(b []byte) { d.e.Text += string(b) }

func (d *extDecoder) End() {
	if d.ended {
		panic("an element of the extension ends twice")
	}
	d.ended = true
	if len(d.e.Kids) > 0 || strings.Trim(d.e.Text, " \t\r\n") == "" {
		d.e.Text = "" // white space between elements
	}
}

// extFails lists the places of the extension in a value, to make them fail.
func extFails(v reflect.Value, to *[]*func() error) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *ExtAttrs:
			*to = append(*to, &x.Fail)
			return
		case *ExtElem:
			x.fails(to)
			return
		case *ExtAsset:
			x.fails(to)
			return
		case io.Reader:
			return
		}
		extFails(v.Elem(), to)
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				extFails(v.Index(i), to)
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			extFails(v.MapIndex(k), to)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanInterface() {
				extFails(v.Field(i), to)
			}
		}
	}
}

func (e *ExtElem) fails(to *[]*func() error) {
	*to = append(*to, &e.Fail)
	for _, k := range e.Kids {
		k.fails(to)
	}
}

// ext makes an attribute group for an element of the core.
func (g *gen) ext(pre spec.AnyAttr, on string) spec.AnyAttr {
	if !g.has[nsX] || g.rng.n(3) != 0 {
		return pre
	}
	a := &ExtAttrs{On: go3mf.Namespace + " " + on, N: g.u32(1000)}
	if g.rng.n(2) == 0 {
		a.S = words[g.rng.n(len(words))]
	}
	if g.rng.n(2) == 0 {
		return append(pre, a)
	}
	return append(spec.AnyAttr{a}, pre...)
}

func (g *gen) extElem(name string, depth int) *ExtElem {
	e := &ExtElem{Name: name, N: g.u32(1000)}
	if g.rng.n(2) == 0 {
		e.S = words[g.rng.n(len(words))]
	}
	for i, n := 0, g.rng.n(4-depth); i < n; i++ {
		e.Kids = append(e.Kids, g.extElem("kid", depth+1))
	}
	if len(e.Kids) == 0 && g.rng.n(2) == 0 {
		e.Text = g.text(false)
	}
	return e
}

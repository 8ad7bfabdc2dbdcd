package harness

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
)

// Att is an attachment with its bytes at hand.
type Att struct {
	Path, ContentType string
	Data              []byte
}

// Canon is a model in comparable form.
type Canon struct {
	M    *go3mf.Model
	Atts []Att
	IDs  map[string]string // explicit relationship identifiers
}

func normPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	var b []byte
	for i := 0; i < len(p); i++ { // names of parts are URIs
		if p[i] < 0x80 {
			b = append(b, p[i])
		} else {
			b = append(b, '%', "0123456789ABCDEF"[p[i]>>4], "0123456789ABCDEF"[p[i]&15])
		}
	}
	return string(b)
}

// canon makes a comparable copy of m; its attachment bytes are atts, or if nil
// those of the model's streams, which are consumed and replaced.
func canon(m *go3mf.Model, atts []Att) Canon {
	c := *m
	out := Canon{IDs: map[string]string{}}
	if atts == nil {
		for i := range m.Attachments {
			a := &m.Attachments[i]
			var b []byte
			if a.Stream != nil {
				b, _ = io.ReadAll(a.Stream)
			}
			a.Stream = bytes.NewReader(b)
			atts = append(atts, Att{a.Path, a.ContentType, b})
		}
	}
	for _, a := range atts {
		out.Atts = append(out.Atts, Att{normPath(a.Path), a.ContentType, a.Data})
	}
	sort.SliceStable(out.Atts, func(i, j int) bool { return out.Atts[i].Path < out.Atts[j].Path })
	c.Attachments = nil
	c.Path = normPath(m.PathOrDefault())
	rels := func(owner, base string, in []go3mf.Relationship) []go3mf.Relationship {
		var o []go3mf.Relationship
		for _, r := range in {
			if !strings.HasPrefix(r.Path, "/") {
				r.Path = path.Join(path.Dir(base), r.Path)
			}
			if r.ID != "" {
				out.IDs[owner+"|"+normPath(r.Path)+"|"+r.Type] = r.ID
			}
			o = append(o, go3mf.Relationship{Path: normPath(r.Path), Type: r.Type})
		}
		sort.SliceStable(o, func(i, j int) bool {
			if o[i].Path != o[j].Path {
				return o[i].Path < o[j].Path
			}
			return o[i].Type < o[j].Type
		})
		return o
	}
	c.RootRelationships = rels("package", "/", m.RootRelationships)
	c.Relationships = rels("root", c.Path, m.Relationships)
	if len(m.Childs) > 0 {
		c.Childs = map[string]*go3mf.ChildModel{}
		for p, ch := range m.Childs {
			cc := *ch
			cc.Relationships = rels(normPath(p), normPath(p), ch.Relationships)
			c.Childs[normPath(p)] = &cc
		}
	}
	out.M = &c
	return out
}

// diffCanon returns the first difference between what was expected and got.
func diffCanon(want, got Canon) string {
	if d := diff(reflect.ValueOf(want.M), reflect.ValueOf(got.M), "model"); d != "" {
		return d
	}
	for i := range want.Atts {
		if i >= len(got.Atts) {
			return "attachment " + want.Atts[i].Path + " is missing"
		}
		w, g := want.Atts[i], got.Atts[i]
		if w.Path != g.Path {
			return fmt.Sprintf("attachment %d is %s, not %s", i, g.Path, w.Path)
		}
		if !bytes.Equal(w.Data, g.Data) {
			return fmt.Sprintf("attachment %s has %d bytes, not the expected %d", w.Path, len(g.Data), len(w.Data))
		}
		if w.ContentType != g.ContentType {
			return fmt.Sprintf("attachment %s has content type %q, not %q", w.Path, g.ContentType, w.ContentType)
		}
	}
	if len(got.Atts) > len(want.Atts) {
		return fmt.Sprintf("%d attachments, not %d: %s", len(got.Atts), len(want.Atts), got.Atts[len(got.Atts)-1].Path)
	}
	for k, id := range want.IDs {
		if g := got.IDs[k]; g != id {
			return fmt.Sprintf("relationship %s has identifier %q, not %q", k, g, id)
		}
	}
	return ""
}

var unknownAssetType = reflect.TypeOf(go3mf.UnknownAsset{})

// diff compares two values structurally; nil and empty slices and maps are
// equal, and floats are compared exactly.
func diff(a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s: want %s, got %s", path, show(a), show(b))
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: want a %s (%s), got a %s (%s)", path, a.Type(), show(a), b.Type(), show(b))
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: want %s, got %s", path, show(a), show(b))
			}
			return ""
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		n := a.Len()
		if b.Len() < n {
			n = b.Len()
		}
		switch a.Type().Elem().Kind() {
		case reflect.Uint8:
			if a.Kind() == reflect.Slice {
				if !bytes.Equal(a.Bytes(), b.Bytes()) {
					return fmt.Sprintf("%s: want %q, got %q", path, clip(string(a.Bytes())), clip(string(b.Bytes())))
				}
				return ""
			}
		}
		// fast paths for the big lists
		switch x := a.Interface().(type) {
		case []go3mf.Point3D:
			y := b.Interface().([]go3mf.Point3D)
			for i := 0; i < n; i++ {
				if x[i] != y[i] {
					return fmt.Sprintf("%s[%d]: want %v, got %v", path, i, x[i], y[i])
				}
			}
			n = 0
		}
		for i := 0; i < n; i++ {
			if d := diff(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d elements, got %d", path, a.Len(), b.Len())
		}
	case reflect.Map:
		keys := a.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s[%v]: missing", path, k)
			}
			if d := diff(a.MapIndex(k), v, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d entries, got %d", path, a.Len(), b.Len())
		}
	case reflect.Struct:
		if a.Type() == unknownAssetType {
			x, y := a.Interface().(go3mf.UnknownAsset), b.Interface().(go3mf.UnknownAsset)
			if d := diff(reflect.ValueOf(x.UnknownTokens), reflect.ValueOf(y.UnknownTokens), path); d != "" {
				return d
			}
			if w, ok := tokenID(x.Token); ok && y.Identify() != w && y.Identify() != x.Identify() {
				return fmt.Sprintf("%s: unknown resource identifies as %d, not %d", path, y.Identify(), w)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && !(math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Float(), b.Float())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: want %q, got %q", path, clip(a.String()), clip(b.String()))
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Uint(), b.Uint())
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		panic("diff: " + a.Kind().String())
	}
	return ""
}

func tokenID(t []xml.Token) (uint32, bool) {
	if len(t) == 0 {
		return 0, false
	}
	s, ok := t[0].(xml.StartElement)
	if !ok {
		return 0, false
	}
	for _, a := range s.Attr {
		if a.Name.Space == "" && a.Name.Local == "id" {
			n, err := strconv.ParseUint(a.Value, 10, 32)
			return uint32(n), err == nil
		}
	}
	return 0, false
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:100] + "…" + s[len(s)-40:]
	}
	return s
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch x := v.Interface().(type) {
	case xml.CharData:
		return fmt.Sprintf("%q", clip(string(x)))
	case xml.StartElement, xml.EndElement:
		return clip(fmt.Sprint(x))
	}
	return clip(fmt.Sprintf("%T", v.Interface()))
}

// clone makes a deep copy of a model, attachments' streams excluded.
func clone(m *go3mf.Model) *go3mf.Model {
	return make(copier).copy(reflect.ValueOf(m)).Interface().(*go3mf.Model)
}

// copier knows the copies of the pointers met, so that what is shared stays shared.
type copier map[interface{}]reflect.Value

func (c copier) copy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if n, ok := c[v.Interface()]; ok {
			return n
		}
		n := reflect.New(v.Type().Elem())
		c[v.Interface()] = n
		n.Elem().Set(c.copy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		if _, ok := v.Interface().(io.Reader); ok {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(c.copy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(c.copy(v.Index(i)))
			}
		default:
			reflect.Copy(n, v)
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, c.copy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(c.copy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/hpinc/go3mf"
	"verifsim/simrt"
)

type face [3][3]float32

// stlFile is a generated STL.
type stlFile struct {
	ascii bool
	exact bool // coordinates that only the precise formats can write
	data  []byte
	faces []face
	need  int // bytes up to the end of the last face
}

func genSTL(t *simrt.Tape, minFaces, maxFaces int) *stlFile {
	f := &stlFile{ascii: t.Chance(1, 2)}
	r := rng{uint64(t.Draw(1 << 30))}
	n := t.Range(minFaces, maxFaces)
	pool := make([][3]float32, 3+r.n(3*n))
	wild := r.n(4) == 0
	plain := r.n(4) == 0  // numbers whose bytes are all below 128
	f.exact = r.n(3) == 0 // any finite value, in full precision
	base := math.Float32frombits(uint32(100+r.n(140))<<23 | uint32(r.n(1<<23)))
	for i := range pool {
		for k := range pool[i] {
			pool[i][k] = float32(r.n(1<<16)-(1<<15)) / 16
			if wild {
				pool[i][k] *= 256
			}
			if plain {
				pool[i][k] = []float32{0, 2, 0.5, 2.25, 8, 0.625, 32}[r.n(7)]
			}
			if !f.exact {
				continue
			}
			switch r.n(6) {
			case 0: // small and big
				pool[i][k] = math.Float32frombits(uint32(r.next())&0x807fffff | uint32(1+r.n(253))<<23)
			case 1, 2, 3: // neighbours
				pool[i][k] = math.Float32frombits(math.Float32bits(base) + uint32(r.n(4)))
			case 4: // nearer than welding tells apart, and a little farther
				pool[i][k] = float32(r.n(8)) * 0.4e-6
			}
		}
	}
	fresh := r.n(3) == 0
	for i := 0; i < n; i++ {
		var x face
		for k := range x {
			x[k] = pool[r.n(len(pool))]
			if fresh {
				x[k] = pool[(3*i+k)%len(pool)]
			}
		}
		f.faces = append(f.faces, x)
	}
	if f.ascii {
		f.text(t, &r)
	} else {
		f.binary(t, &r)
	}
	return f
}

func (f *stlFile) text(t *simrt.Tape, r *rng) {
	var b bytes.Buffer
	nl := []string{"\n", "\r\n"}[t.Draw(2)]
	ind := []string{"  ", "\t", "", "      "}[t.Draw(4)]
	num := []string{"%g", "%.9e", "%f", "%.4f", "%.9E"}[t.Draw(5)]
	if f.exact && strings.HasSuffix(num, "f") {
		num = "%g"
	}
	b.WriteString([]string{"solid part", "solid", "SOLID Part", "solid " + strings.Repeat("long name ", 40)}[t.Draw(4)] + nl)
	for _, x := range f.faces {
		fmt.Fprintf(&b, "%sfacet normal %d %d %d%s%souter loop%s", ind, r.n(2), r.n(2), r.n(2), nl, ind, nl)
		for _, v := range x {
			fmt.Fprintf(&b, ind+ind+"vertex "+num+" "+num+" "+num+nl, v[0], v[1], v[2])
		}
		fmt.Fprintf(&b, "%sendloop%s%sendfacet%s", ind, nl, ind, nl)
	}
	f.need = b.Len()
	b.WriteString("endsolid part")
	for r.n(3) == 0 {
		b.WriteString(nl)
	}
	f.data = b.Bytes()
}

func (f *stlFile) binary(t *simrt.Tape, r *rng) {
	h := make([]byte, 84)
	kind := t.Draw(4)
	for i := range h[:80] {
		h[i] = byte(r.next())
	}
	switch kind {
	case 1: // looks like text at first
		copy(h, "solid "+strings.Repeat("binary ", 11))
	case 2:
		copy(h, strings.Repeat("COLOR= x", 10))
	case 3:
		for i := range h[:80] {
			h[i] = 0
		}
	}
	if kind != 1 && bytes.HasPrefix(bytes.ToLower(h), []byte("solid")) {
		h[0] = 'x'
	}
	binary.LittleEndian.PutUint32(h[80:], uint32(len(f.faces)))
	b := h
	for _, x := range f.faces {
		var rec [50]byte
		for i := 0; i < 12 && kind != 1; i++ {
			rec[i] = byte(r.next())
		}
		for k := range x {
			for j := range x[k] {
				binary.LittleEndian.PutUint32(rec[12+12*k+4*j:], math.Float32bits(x[k][j]))
			}
		}
		if kind != 1 {
			rec[48], rec[49] = byte(r.next()), byte(r.next())
		}
		b = append(b, rec[:]...)
	}
	f.need = len(b)
	if t.Chance(1, 4) { // bytes nobody announced
		for i, n := 0, r.n(200); i < n; i++ {
			b = append(b, byte(r.next()))
		}
	}
	f.data = b
}

// diffSTL tells how a model differs from the one before the import of f.
func diffSTL(before, after *go3mf.Model, f *stlFile) string {
	no, ni := len(before.Resources.Objects), len(before.Build.Items)
	if len(after.Resources.Objects) != no+1 {
		return fmt.Sprintf("objects: %d instead of %d", len(after.Resources.Objects), no+1)
	}
	if len(after.Build.Items) != ni+1 {
		return fmt.Sprintf("items: %d instead of %d", len(after.Build.Items), ni+1)
	}
	o, it := after.Resources.Objects[no], after.Build.Items[ni]
	if o.ID == 0 {
		return "identifier: 0 is not valid"
	}
	for _, x := range before.Resources.Objects {
		if x.ID == o.ID {
			return fmt.Sprintf("identifier: %d is used by another object", o.ID)
		}
	}
	for _, x := range before.Resources.Assets {
		if x.Identify() == o.ID {
			return fmt.Sprintf("identifier: %d is used by another resource", o.ID)
		}
	}
	if o.Mesh == nil {
		return "mesh: none"
	}
	if d := diffFaces(o.Mesh, f.faces); d != "" {
		return d
	}
	if d := diffVal(&go3mf.Object{ID: o.ID, Mesh: o.Mesh}, o, "object"); d != "" {
		return d
	}
	if d := diffVal(&go3mf.Item{ObjectID: o.ID}, it, "item"); d != "" {
		return d
	}
	rest := *after
	rest.Resources.Objects = after.Resources.Objects[:no]
	rest.Build.Items = after.Build.Items[:ni]
	return diffVal(before, &rest, "model")
}

// sameVertex tells whether a vertex can stand for another, those within a micron are welded.
func sameVertex(a, b [3]float32) bool {
	for i := range a {
		if d := math.Abs(float64(a[i]) - float64(b[i])); !(d <= 1.000001e-6) {
			return false
		}
	}
	return true
}

func diffFaces(m *go3mf.Mesh, faces []face) string {
	if len(m.Triangles.Triangle) != len(faces) {
		return fmt.Sprintf("triangles: %d instead of %d", len(m.Triangles.Triangle), len(faces))
	}
	v := m.Vertices.Vertex
	for i, t := range m.Triangles.Triangle {
		for k, j := range [3]uint32{t.V1, t.V2, t.V3} {
			if int(j) >= len(v) {
				return fmt.Sprintf("triangles: vertex %d of triangle %d does not exist", k, i)
			}
			if !sameVertex([3]float32(v[j]), faces[i][k]) {
				return fmt.Sprintf("triangles: vertex %d of triangle %d is %v instead of %v", k, i, v[j], faces[i][k])
			}
		}
		if t.PID != 0 || t.P1 != 0 || t.P2 != 0 || t.P3 != 0 || len(t.AnyAttr) != 0 {
			return fmt.Sprintf("triangles: triangle %d has properties", i)
		}
	}
	return ""
}

package harness

import (
	"context"
	"errors"
	"fmt"
	"image/color"
	"sync/atomic"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/importer/stl"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"verifsim/simrt"
)

func init() { scenarios["C07"] = c07 }

// After a cancellation a part may still deliver this much: the context is
// looked at every thousand tokens, of at most 60 bytes here.
const (
	slackPart   = 100 << 10
	slackBinary = 80 << 10
	slackText   = 420 << 10
)

// bulk fills a set of resources with about n elements of one kind.
func bulk(t *simrt.Tape, rs *go3mf.Resources, n int, r *rng) string {
	kind := t.Draw(7)
	num := func() float32 { return float32(r.n(1<<10)) / 16 }
	switch kind {
	case 1: // triangles
		m := &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{}, {1}, {2}}}}
		for i := 0; i < n; i++ {
			m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: uint32(r.n(3)), V2: uint32(r.n(3)), V3: uint32(r.n(3))})
		}
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: 1, Mesh: m})
	case 2: // objects
		for i := 0; i < n/4; i++ {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: uint32(i + 1), Mesh: &go3mf.Mesh{}})
		}
	case 3: // colours
		g := &materials.ColorGroup{ID: 1}
		for i := 0; i < n; i++ {
			g.Colors = append(g.Colors, color.RGBA{uint8(r.next()), uint8(r.next()), uint8(r.next()), 255})
		}
		rs.Assets = append(rs.Assets, g)
	case 4: // slices
		s := &slices.SliceStack{ID: 1}
		for i := 0; i < n; i += 500 {
			sl := slices.Slice{TopZ: num()}
			for j := 0; j < 250; j++ {
				sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{num(), num()})
			}
			p := slices.Polygon{}
			for j := 0; j < 250; j++ {
				p.Segments = append(p.Segments, slices.Segment{V2: uint32(r.n(250))})
			}
			sl.Polygons = append(sl.Polygons, p)
			s.Slices = append(s.Slices, sl)
		}
		rs.Assets = append(rs.Assets, s)
	case 5: // beams
		l := &beamlattice.BeamLattice{Radius: 1}
		for i := 0; i < n; i++ {
			l.Beams.Beam = append(l.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(r.n(9)), uint32(r.n(9))}, Radius: [2]float32{1, 1}})
		}
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{Any: spec.Any{l}}})
	case 6: // components
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}})
		o := &go3mf.Object{ID: 2, Components: &go3mf.Components{}}
		for i := 0; i < n; i++ {
			o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: 1})
		}
		rs.Objects = append(rs.Objects, o)
	default: // vertices
		m := &go3mf.Mesh{}
		for i := 0; i < n; i++ {
			m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{num(), num(), num()})
		}
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: 1, Mesh: m})
	}
	return []string{"vertices", "triangles", "objects", "colours", "slices", "beams", "components"}[kind]
}

// bigModel makes a model whose parts are well above the slack.
func bigModel(t *simrt.Tape, note func(string, ...interface{})) *Gen {
	m := &go3mf.Model{Path: go3mf.DefaultModelPath}
	m.Extensions = append(m.Extensions, materials.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension)
	r := rng{uint64(t.Draw(1 << 30))}
	size := func() int { return []int{9000, 5000, 200, 10}[t.Draw(4)] }
	n := t.Draw(4)
	if n > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	for i := 0; i < n; i++ {
		ch := &go3mf.ChildModel{}
		k := size()
		note("child model %d: about %d %s", i, k, bulk(t, &ch.Resources, k, &r))
		m.Childs[fmt.Sprintf("/3D/c%d.model", i)] = ch
	}
	k := size()
	if t.Chance(1, 6) { // many build items
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}})
		for i := 0; i < k; i++ {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1})
		}
		note("root model: %d build items", k)
	} else {
		note("root model: about %d %s", k, bulk(t, &m.Resources, k, &r))
	}
	g := &Gen{M: m, Prec: 4}
	g.Want = clone(m)
	return g
}

// canceller decides when a context is cancelled.
type canceller struct {
	how    int
	ctx    context.Context
	cancel func()
	fired  bool
	over   int32 // atomic: the canceller must not act any more
	gone   int32 // atomic: it has acted
	want   error
	at     []int // bytes delivered by each stream at that moment
	count  func() []int
}

func (k *canceller) now(kind int) {
	if atomic.LoadInt32(&k.over) != 0 || !atomic.CompareAndSwapInt32(&k.gone, 0, 1) {
		return
	}
	fired(kind)
	simrt.Log("cancel", int64(k.how), 0)
	k.cancel()
	k.at = k.count()
}

// c07: cancelling stops promptly and says so.
func c07(c *Case) {
	if c.W.Chance(1, 3) {
		c07stl(c)
		return
	}
	g := bigModel(c.W, c.Note)
	pkg, ok := c.encodePlain(g)
	if !ok {
		return
	}
	ps, err := unpack(pkg)
	if err != nil {
		c.Tag("skipped: the package cannot be unpacked")
		return
	}
	_, data := shapedPack(ps, c.W)
	for i := 0; i < nparts; i++ { // keep the splits coarse, the parts are big
		s := partProto(i)
		if s.ch.mode == 2 || s.ch.mode == 6 {
			s.ch.mode = 1
		}
	}
	strict := !c.F.Chance(1, 3)
	k := &canceller{count: func() []int {
		out := make([]int, nparts)
		for i := range out {
			out[i] = partBytes(i)
		}
		return out
	}}
	start := c.cancelPlan(k, func() *stream { return partProto(c.F.Draw(nparts)) })
	src := newReaderAt(data).shape(c.W)
	m := new(go3mf.Model)
	left := 0
	r := c.Sim("decode", func() {
		start()
		d := go3mf.NewDecoder(src, int64(len(data)))
		d.Strict = strict
		err = d.DecodeContext(k.ctx, m)
		k.end()
		left = countTasks()
	})
	if len(r.Panics) > 0 {
		return
	}
	if left > 0 {
		c.Fail("C07:goroutines", "%d goroutines of the decode are still running when it returns", left)
		return
	}
	if k.fired {
		for i, n := range k.count() {
			if n-k.at[i] > slackPart {
				c.Fail("C07:not-prompt", "%d bytes of %s were read after the cancellation (the decode reports: %s)", n-k.at[i], partName(i), short(err))
				return
			}
		}
	}
	k.judge(c, err, func() string {
		return diffCanon(g.WantCanon(), canon(m, nil))
	})
}

// end stops a canceller that has not acted.
func (k *canceller) end() {
	atomic.StoreInt32(&k.over, 1)
	k.fired = atomic.LoadInt32(&k.gone) != 0
}

func (k *canceller) judge(c *Case, err error, complete func() string) {
	if err == nil {
		if k.how == 0 {
			c.Fail("C07:success", "the context was done before the call, which reports success")
			return
		}
		if d := complete(); d != "" {
			c.Fail("C07:partial:"+diffClass(d), "the call reports success with a partial result (cancelled: %v): %s", k.fired, d)
			return
		}
		c.Tag(fmt.Sprintf("complete (cancelled: %v)", k.fired))
		return
	}
	if !k.fired {
		c.Fail("C07:error", "nobody cancelled but the call reports %s", short(err))
		return
	}
	if !errors.Is(err, k.want) {
		c.Fail("C07:wrong-error", "the call reports %q, not the context's error %q", short(err), k.want)
		return
	}
	c.Tag("context's error reported")
}

// cancelPlan draws how the context ends; the result runs at the start.
func (c *Case) cancelPlan(k *canceller, pick func() *stream) func() {
	k.how = c.F.Draw(5)
	k.want = context.Canceled
	n := c.F.Draw(1 << 20)
	us := []int{50, 2000, 40000, 400000}[c.F.Draw(4)]
	n2 := c.F.Draw(us)
	var s *stream
	if k.how == 1 || k.how == 2 {
		s = pick()
		k.how = 1
		s.hookAt = n % (len(s.data) + 1)
		s.hook = func() { k.now(fkCancel) }
		c.Note("cancel when byte %d of %d of stream %d is read", s.hookAt, len(s.data), s.idx)
	}
	switch k.how {
	case 0:
		c.Note("cancelled before the start")
	case 3:
		c.Note("another task cancels after %d steps of its own", n>>(uint(n2)%18))
	case 4:
		c.Note("the deadline passes after %d µs", n2)
	}
	return func() {
		ctx := context.Background()
		if k.how == 4 {
			k.want = context.DeadlineExceeded
			var stop func()
			k.ctx, stop = context.WithTimeout(ctx, time.Duration(n2)*time.Microsecond+337)
			k.cancel = func() {}
			_ = stop
			context.AfterFunc(k.ctx, func() {
				k.now(fkDeadline)
			})
			return
		}
		k.ctx, k.cancel = context.WithCancel(ctx)
		switch k.how {
		case 0:
			k.now(fkCancel)
		case 3:
			simrt.Go("canceller", func() {
				for i := n >> (uint(n2) % 18); i > 0 && atomic.LoadInt32(&k.over) == 0; i-- {
					simrt.Yield()
				}
				k.now(fkCancelTask)
			})
		}
	}
}

// c07stl cancels STL imports.
func c07stl(c *Case) {
	f := genSTL(c.W, 6, []int{9000, 1500, 50}[c.W.Draw(3)])
	s := newStream(f.data).shape(c.W)
	if s.ch.mode == 2 || s.ch.mode == 6 {
		s.ch.mode = 1
	}
	slack := slackBinary
	if f.ascii {
		slack = slackText
	}
	c.Note("STL of %d faces and %d bytes, text: %v", len(f.faces), len(f.data), f.ascii)
	k := &canceller{count: func() []int { return []int{s.off} }}
	start := c.cancelPlan(k, func() *stream { return s })
	m := new(go3mf.Model)
	var err error
	left := 0
	r := c.Sim("import", func() {
		start()
		err = stl.NewDecoder(s).DecodeContext(k.ctx, m)
		k.end()
		left = countTasks()
	})
	if len(r.Panics) > 0 {
		return
	}
	if left > 0 {
		c.Fail("C07:goroutines", "%d goroutines of the import are still running when it returns", left)
		return
	}
	if k.fired && s.off-k.at[0] > slack {
		c.Fail("C07:not-prompt-stl", "%d bytes of the STL (text: %v) were read after the cancellation (the import reports: %s)", s.off-k.at[0], f.ascii, short(err))
		return
	}
	if k.how == 0 {
		k.how = 98 // a small file may be imported before the context is looked at
	}
	k.judge(c, err, func() string { return diffSTL(new(go3mf.Model), m, f) })
	if err != nil && len(c.Viols) == 0 {
		if d := diffVal(new(go3mf.Model), m, "model"); d != "" {
			c.Fail("C07:stl-not-atomic", "the import reports %s but changed the model: %s", short(err), d)
		}
	}
}

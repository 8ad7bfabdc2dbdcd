package harness

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/hpinc/go3mf"
	"verifsim/simos"
	"verifsim/simrt"
)

// input is a copy of a generated model as it is given to an encoder, with its
// attachments as simulated streams and room behind its relationship lists.
type input struct {
	m    *go3mf.Model
	was  *go3mf.Model
	atts []*stream
}

var sentinel = go3mf.Relationship{Path: "/sentinel", Type: "sentinel", ID: "sentinel"}

func roomy(in []go3mf.Relationship) []go3mf.Relationship {
	out := make([]go3mf.Relationship, len(in), len(in)+3)
	copy(out, in)
	for i := len(in); i < cap(out); i++ {
		out[:cap(out)][i] = sentinel
	}
	return out
}

func overwritten(in []go3mf.Relationship) bool {
	all := in[:cap(in)]
	for i := len(in); i < len(all); i++ {
		if all[i] != sentinel {
			return true
		}
	}
	return false
}

func newInput(g *Gen, t *simrt.Tape) *input {
	x := &input{m: clone(g.M)}
	m := x.m
	m.Relationships = roomy(m.Relationships)
	m.RootRelationships = roomy(m.RootRelationships)
	for _, c := range m.Childs {
		c.Relationships = roomy(c.Relationships)
	}
	x.was = clone(m)
	for i, a := range g.Atts {
		s := newStream(a.Data).shape(t)
		s.idx = 100 + i
		x.atts = append(x.atts, s)
		m.Attachments = append(m.Attachments, go3mf.Attachment{Stream: s, Path: a.Path, ContentType: a.ContentType})
	}
	return x
}

// changed tells how an operation changed the model it was given.
func (x *input) changed() string {
	a, b := *x.was, *x.m
	if len(b.Attachments) != len(x.atts) {
		return fmt.Sprintf("model.Attachments: %d instead of %d", len(b.Attachments), len(x.atts))
	}
	for i := range b.Attachments {
		if b.Attachments[i].Stream != x.atts[i] {
			return "model.Attachments: replaced"
		}
	}
	a.Attachments, b.Attachments = nil, nil
	if d := diff(reflect.ValueOf(a), reflect.ValueOf(b), "model"); d != "" {
		return d
	}
	if overwritten(x.m.Relationships) || overwritten(x.m.RootRelationships) {
		return "model.Relationships: the memory behind the list"
	}
	for _, p := range sortedChilds(x.m) {
		if overwritten(x.m.Childs[p].Relationships) {
			return "model.Childs.Relationships: the memory behind the list"
		}
	}
	return ""
}

func (w *writer) shape(t *simrt.Tape) *writer {
	w.ch = chunk{r: rng{uint64(t.Draw(1 << 30))}}
	if t.Chance(1, 4) {
		w.lat = 6
	}
	return w
}

// shapedPack repacks the parts of a package so that the model and attachment
// parts come from simulated streams.
func shapedPack(parts []Part, t *simrt.Tape) (*Pack, []byte) {
	p := &Pack{Parts: parts, Sim: isPart, Order: perm(t)}
	b := p.Build()
	for i := 0; i < nparts; i++ {
		partProto(i).shape(t)
	}
	return p, b
}

//go:norace
func partProto(i int) *stream { return &parts[i].proto }

// decodeCall is a decode as a user would do it.
type decodeCall struct {
	data   []byte
	src    *readerAt
	disk   *simos.Disk
	ctx    context.Context
	strict bool
}

func cloneParts(p []Part) []Part {
	out := make([]Part, len(p))
	for i := range p {
		out[i] = Part{p[i].Name, append([]byte(nil), p[i].Data...)}
	}
	return out
}

func short(err error) string {
	if err == nil {
		return "no error"
	}
	return clip(strings.ReplaceAll(err.Error(), "\n", " | "))
}

// describe summarises a generated model for the narrative.
func (c *Case) describe(g *Gen) {
	nobj := len(g.M.Resources.Objects)
	for _, ch := range g.M.Childs {
		nobj += len(ch.Resources.Objects)
	}
	c.Note("model: %d child models, %d objects, %d build items, %d attachments, %d extensions", len(g.M.Childs), nobj, len(g.M.Build.Items), len(g.Atts), len(g.M.Extensions))
}

package harness

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"verifsim/simrt"
)

func init() { scenarios["C13"] = c13 }

var uuidRE = regexp.MustCompile(`^(urn:uuid:)?\{?[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\}?$|^[0-9a-fA-F]{32}$`)

func validUUID(s string) bool { return uuidRE.MatchString(s) }

// uuidSlot is a place that must have a UUID.
type uuidSlot struct {
	where string
	get   func() (string, bool)
	set   func(string)
	drop  func()
}

func slotOf(where string, at *spec.AnyAttr) uuidSlot {
	find := func() (int, *string) {
		for i, a := range *at {
			switch x := a.(type) {
			case *production.BuildAttr:
				return i, &x.UUID
			case *production.ItemAttr:
				return i, &x.UUID
			case *production.ObjectAttr:
				return i, &x.UUID
			case *production.ComponentAttr:
				return i, &x.UUID
			}
		}
		return -1, nil
	}
	return uuidSlot{where: where,
		get: func() (string, bool) {
			if _, p := find(); p != nil {
				return *p, true
			}
			return "", false
		},
		set: func(s string) {
			if _, p := find(); p != nil {
				*p = s
			}
		},
		drop: func() {
			if i, p := find(); p != nil {
				*at = append((*at)[:i:i], (*at)[i+1:]...)
			}
		},
	}
}

func uuidSlots(m *go3mf.Model) []uuidSlot {
	out := []uuidSlot{slotOf("the build", &m.Build.AnyAttr)}
	for i, it := range m.Build.Items {
		out = append(out, slotOf(fmt.Sprintf("item %d", i), &it.AnyAttr))
	}
	res := func(where string, rs *go3mf.Resources) {
		for i, o := range rs.Objects {
			out = append(out, slotOf(fmt.Sprintf("object %d of %s", i, where), &o.AnyAttr))
			if o.Components != nil {
				for j, c := range o.Components.Component {
					out = append(out, slotOf(fmt.Sprintf("component %d of object %d of %s", j, i, where), &c.AnyAttr))
				}
			}
		}
	}
	for _, p := range sortedChilds(m) {
		res(p, &m.Childs[p].Resources)
	}
	res("the root model", &m.Resources)
	return out
}

// withoutUUIDs is a copy of a model that only lacks what the call may add.
func withoutUUIDs(m *go3mf.Model) *go3mf.Model {
	c := clone(m)
	for _, s := range uuidSlots(c) {
		s.set("")
	}
	clean := func(at *spec.AnyAttr) {
		var out spec.AnyAttr
		for _, a := range *at {
			switch x := a.(type) {
			case *production.BuildAttr, *production.ObjectAttr:
				continue
			case *production.ItemAttr:
				if x.Path == "" {
					continue
				}
			case *production.ComponentAttr:
				if x.Path == "" {
					continue
				}
			}
			out = append(out, a)
		}
		*at = out
	}
	clean(&c.Build.AnyAttr)
	for _, it := range c.Build.Items {
		clean(&it.AnyAttr)
	}
	c.WalkObjects(func(_ string, o *go3mf.Object) error {
		clean(&o.AnyAttr)
		if o.Components != nil {
			for _, k := range o.Components.Component {
				clean(&k.AnyAttr)
			}
		}
		return nil
	})
	return c
}

// randSource is a random source that does not repeat itself in the bits of an
// identifier that are kept, delivers what it likes and can fail.
type randSource struct {
	s *stream
}

func newRandSource(t *simrt.Tape, n int, salt uint64) *randSource {
	b := make([]byte, 16*n)
	r := rng{salt}
	for i := 0; i < n; i++ {
		for k := 0; k < 16; k++ {
			b[16*i+k] = 1 + byte(r.n(255)) // never zero
		}
	}
	return &randSource{newStream(b).shape(t)}
}

// idBytes are the bytes of a valid UUID.
func idBytes(u string) []byte {
	b, _ := hex.DecodeString(strings.NewReplacer("urn:uuid:", "", "{", "", "}", "", "-", "").Replace(u))
	return b
}

// hadFill reports whether all the random bytes of a UUID can come from a
// source without zeros.
func hadFill(b []byte) bool {
	for i, x := range b {
		if x == 0 && i != 6 && i != 8 {
			return false
		}
	}
	return len(b) == 16
}

func (r *randSource) Read(p []byte) (int, error) { return r.s.Read(p) }

// c13: filling in UUIDs is complete, unique, preserving and retryable.
func c13(c *Case) {
	defer uuid.SetRand(nil)
	t := c.W
	var ms, was []*go3mf.Model
	for i, n := 0, 1+t.Draw(2); i < n; i++ {
		o := GenOpt{MaxChilds: 4, Small: t.Chance(1, 2), NoAtt: true}
		var m *go3mf.Model
		if t.Chance(1, 3) {
			m = genBoxModel(t).m
		} else {
			m = genModel(t, o).M
		}
		for k, s := range uuidSlots(m) {
			u, ok := s.get()
			if ok && !validUUID(u) {
				u = fmt.Sprintf("%08x-0000-4000-8000-%012x", k+1, i+7)
				s.set(u)
			}
			if !ok {
				continue
			}
			switch t.Draw(7) {
			case 1, 2:
				s.set("")
			case 3:
				s.drop()
			case 4:
				s.set([]string{"urn:uuid:" + u, "{" + u + "}", strings.ReplaceAll(u, "-", ""), strings.ToUpper(u)}[t.Draw(4)])
			}
		}
		ms = append(ms, m)
		was = append(was, withoutUUIDs(m))
	}
	ferr := []error{errStream, io.EOF, io.ErrUnexpectedEOF}[c.F.Draw(3)]
	total := 0
	for _, m := range ms {
		total += len(uuidSlots(m))
	}
	nfail := c.F.Draw(4)
	c.Note("%d models with %d places for a UUID; the random source fails in %d attempts", len(ms), total, nfail)
	kept := map[string]string{}
	record := func() {
		for i, m := range ms {
			for _, s := range uuidSlots(m) {
				if u, ok := s.get(); ok && u != "" {
					kept[fmt.Sprintf("model %d: %s", i, s.where)] = u
				}
			}
		}
	}
	record()
	given := map[string]bool{} // places whose UUID was not generated
	givenID := map[string]string{}
	for k, u := range kept {
		given[k] = true
		givenID[strings.ToLower(u)] = k
	}
	for try := 0; try <= nfail; try++ {
		src := newRandSource(t, total+2, uint64(t.Draw(1<<30))^uint64(try)<<40)
		if try < nfail {
			src.s.fkind = fkRand
			src.s.failErr = ferr
			src.s.failAt = c.F.Draw(16*total + 2)
			src.s.withData = c.F.Chance(1, 2)
			src.s.once = c.F.Chance(1, 2)
			c.Note("attempt %d: the source fails after %d bytes (once: %v, with data: %v): %v", try, src.s.failAt, src.s.once, src.s.withData, ferr)
		}
		uuid.SetRand(src)
		var failed interface{}
		i := t.Draw(len(ms))
		r := c.Sim(fmt.Sprintf("attempt %d", try), func() {
			defer func() { failed = recover() }()
			for range ms {
				production.SetMissingUUIDs(ms[i])
				i = (i + 1) % len(ms)
			}
		})
		if len(r.Panics) > 0 {
			return
		}
		if failed != nil && src.s.fails == 0 {
			c.Fail("C13:panic", "the random source works but filling in UUIDs fails: %v", failed)
			return
		}
		if failed != nil {
			if e, ok := failed.(error); !ok || !errors.Is(e, ferr) && !errors.Is(e, io.ErrUnexpectedEOF) && strings.Contains(e.Error(), "runtime error") {
				c.Fail("C13:panic", "the random source fails and so does filling in UUIDs, with %v", failed)
				return
			}
		}
		seen := map[string]string{}
		for i, m := range ms {
			for _, s := range uuidSlots(m) {
				k := fmt.Sprintf("model %d: %s", i, s.where)
				u, ok := s.get()
				if w, had := kept[k]; had && w != u {
					c.Fail("C13:changed", "the UUID of %s was %s and is now %q", k, w, u)
					return
				}
				if u != "" && !validUUID(u) {
					c.Fail("C13:invalid", "the UUID of %s is %q", k, u)
					return
				}
				if failed == nil && (!ok || u == "") {
					c.Fail("C13:missing", "filling in UUIDs succeeded (failures of the source: %d) but %s has none", src.s.fails, k)
					return
				}
				if u == "" || given[k] {
					continue
				}
				if b := idBytes(u); !hadFill(b) {
					c.Fail("C13:not-random", "the UUID given to %s, %s, has bytes that the random source never delivered", k, u)
					return
				}
				if o, dup := seen[strings.ToLower(u)]; dup {
					c.Fail("C13:duplicate", "%s and %s both were given %s", o, k, u)
					return
				}
				seen[strings.ToLower(u)] = k
				if o, dup := givenID[strings.ToLower(u)]; dup {
					c.Fail("C13:duplicate", "%s was given %s, which %s already had", k, u, o)
					return
				}
			}
			if d := diffVal(was[i], withoutUUIDs(m), "model"); d != "" {
				c.Fail("C13:model-changed", "filling in UUIDs changed something else: %s", d)
				return
			}
		}
		record()
		if failed != nil {
			c.Tag("failed loudly")
		} else {
			c.Tag("complete")
		}
	}
}

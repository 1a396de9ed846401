package props

import (
	"bytes"
	"slices"
	"testing"

	ref "mlsref"
)

// letter is an application message on its way.
type letter struct {
	by   uint32
	data []byte
	raw  []byte
	desc string
}

// generation draws a ratchet generation.
func (c *Case) generation() uint32 {
	switch c.weighted("generation kind", 40, 40, 20, 10, 1) {
	case 0:
		return uint32(c.Int("generation", 0, 8))
	case 1:
		return uint32(c.Int("generation", 0, 300))
	case 2:
		return uint32(1<<c.Int("generation bits", 0, 10) - 1 + c.Int("generation offset", 0, 2))
	case 4:
		c.class("far generation")
		return uint32(1<<c.Int("far generation bits", 12, 16) - 1 + c.Int("generation offset", 0, 2))
	}
	return uint32(c.Int("generation", 1000, 3000))
}

// letter makes an application message of a conforming member.
func (w *World) letter(by uint32) letter {
	c := w.Case
	l := letter{by: by}
	switch c.weighted("payload", 40, 160, 160, 40, 1) {
	case 0:
	case 1:
		l.data = w.payload(c.Int("length", 1, 40))
	case 2:
		l.data = c.Bytes("payload", 1500)
	case 3:
		n := pick(c, "edge", 63, 64, 65, 16383, 16384, 16385, 70000)
		l.data = w.payload(n)
	case 4:
		c.class("huge message")
		l.data = w.payload(c.Int("huge", 1<<20-200, 5<<20))
	}
	if len(l.data) > 0 && c.Bool("zero at the end") {
		for i := c.Int("zeros", 1, min(20, len(l.data))); i > 0; i-- {
			l.data[len(l.data)-i] = 0
		}
	}
	f := &ref.Frame{Gen: c.generation()}
	switch c.weighted("padding", 2, 3, 1) {
	case 1:
		f.Pad = c.Int("pad", 1, 300)
	case 2:
		f.Pad = pick(c, "pad", 63, 64, 4096, 16384, 20000)
	}
	switch c.weighted("guard", 3, 1, 1, 1) {
	case 1:
		f.Guard = make([]byte, 4)
	case 2:
		f.Guard = []byte{255, 255, 255, 255}
	case 3:
		f.Guard = make([]byte, 4)
		f.Guard[c.Int("guard byte", 0, 3)] = byte(c.Int("guard value", 1, 255))
	}
	aad := w.aad()
	l.raw = w.G.AppMessage(by, l.data, aad, f)
	l.desc = short(l.data)
	w.op("leaf %d: %d bytes, generation %d, padding %d, guard %x, %d bytes of authenticated data", by, len(l.data), f.Gen, f.Pad, f.Guard, len(aad))
	if f.Gen > 0 && f.Pad > 0 && len(l.data) > 0 {
		c.nontrivial()
	}
	c.count("messages")
	return l
}

// someLeaf draws a member, often at an edge of the tree.
func (w *World) someLeaf(label string) uint32 {
	ms := w.members()
	switch w.weighted(label+" kind", 3, 1, 1) {
	case 1:
		return ms[0]
	case 2:
		return ms[len(ms)-1]
	}
	return ms[w.Int(label, 0, len(ms)-1)]
}

// large adds many members at once, one of them played by the library.
func (w *World) large(n int, withGo bool) {
	refs := w.refLeaves()
	by := refs[w.Int("committer", 0, len(refs)-1)]
	pl := &Plan{By: by, Path: w.Bool("path")}
	for ; n > 0; n-- {
		inv := Invitee{Ref: w.plainRef()}
		pl.Items = append(pl.Items, inv.item(by))
		pl.Invitees = append(pl.Invitees, inv)
	}
	if withGo {
		inv := Invitee{Go: w.newGo()}
		at := w.Int("at", 0, len(pl.Items))
		pl.Items = slices.Insert(pl.Items, at, inv.item(by))
		pl.Invitees = slices.Insert(pl.Invitees, at, inv)
	}
	w.execute(pl)
}

func TestC18(t *testing.T) {
	run(t, 1, "a non-empty message of a later generation with padding was delivered", func(c *Case) {
		w := c.mixed(2, 12)
		if c.Chance("large", 6) {
			w.large(c.Int("extra", 10, 90), true)
			c.class("large group")
		}
		for n := c.Int("epochs", 1, 3); n > 0; n-- {
			var box []letter
			for k := c.many("messages", 1, 8, 60); k > 0; k-- {
				by := w.someLeaf("sender")
				if len(box) > 0 && c.Bool("same sender") {
					by = box[0].by
				}
				box = append(box, w.letter(by))
			}
			// proposals that must survive the traffic
			o := GenOpts{MaxAdd: 2, MaxRemove: 1, GoBias: 30, MaxLeaves: 110, KeepGo: 1, KeepRef: 2}
			pl := w.genCommit(o)
			for _, l := range w.goLeaves() {
				gm := w.Go[l]
				// each member sees another order, with losses and repetitions
				for _, i := range c.rnd.Perm(len(box)) {
					x := box[i]
					if c.rnd.IntN(6) == 0 {
						continue
					}
					in := bytes.Clone(x.raw)
					got, err := gm.G.UnmarshalAndProcessMessage(in)
					w.must(err, "go member %d rejects the message of leaf %d with %s", l, x.by, x.desc)
					if !bytes.Equal(got, x.data) {
						w.Fatalf("go member %d reads %s instead of %s", l, short(got), x.desc)
					}
					c.count("deliveries")
				}
				if c.rnd.IntN(3) == 0 {
					w.inSync(gm)
				}
			}
			w.op("%s", pl)
			w.execute(pl)
			w.allInSync()
		}
		w.closing()
	})
}

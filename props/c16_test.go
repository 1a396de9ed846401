package props

import (
	"math/bits"
	"slices"
	"testing"

	ref "mlsref"
)

// batch adds n members in one commit, with go members at k drawn places.
func (w *World) batch(by uint32, n, k int, path bool) {
	at := map[int]bool{}
	for ; k > 0; k-- {
		at[w.Int("place", 0, n-1)] = true
	}
	pl := &Plan{By: by, Path: path}
	for i := 0; i < n; i++ {
		inv := Invitee{Ref: nil}
		if at[i] {
			inv.Go = w.newGo()
		} else {
			inv.Ref = w.plainRef()
		}
		pl.Items = append(pl.Items, inv.item(by))
		pl.Invitees = append(pl.Invitees, inv)
	}
	w.op("leaf %d adds %d members, path %v", by, n, path)
	res := w.G.Commit(&ref.CommitOpts{By: by, Items: pl.Items, Path: path, Wire: w.wire()})
	w.follow(res, pl)
	w.welcome(res, pl, &ref.WelcomeOpts{Signer: by})
}

// partner draws a reference member at a drawn distance from a go member.
func (w *World) partner() uint32 {
	refs, gos := w.refLeaves(), w.goLeaves()
	gm := gos[w.Int("go member", 0, len(gos)-1)]
	lvl := w.Int("common ancestor level", 1, max(1, w.G.Tree.D))
	var near []uint32
	for _, l := range refs {
		if bits.Len32(l^gm) == lvl {
			near = append(near, l)
		}
	}
	if len(near) == 0 {
		near = refs
	}
	by := near[w.Int("committer", 0, len(near)-1)]
	w.class("common ancestor at level %d", bits.Len32(by^gm))
	w.op("go member %d, committer %d", gm, by)
	return by
}

// TestC16 has paths through trees of many sizes: whoever finds another parent,
// sibling, path or common ancestor does not reach the same epoch.
func TestC16(t *testing.T) {
	run(t, 1, "a path commit of a member of a tree with at least eight leaves was followed", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		n := c.Int("members", 1, 40)
		if c.Chance("large", 5) {
			n = c.Int("members", 40, 280)
		} else if c.Chance("edge", 3) {
			n = pick(c, "members", 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64)
		}
		w.batch(0, n, c.Int("go members", 1, 3), c.Bool("path"))
		for k := c.Int("commits", 1, 5); k > 0; k-- {
			by := w.partner()
			pl := &Plan{By: by, Path: true}
			if ms := w.members(); c.Chance("removals", 3) && len(ms) > 3 {
				// a run of neighbours, for blank subtrees and shorter trees
				i := c.Int("first", 0, len(ms)-1)
				for _, l := range ms[i:min(len(ms), i+c.Int("run", 1, len(ms)))] {
					if refs := w.refLeaves(); l != by && slices.Contains(refs, l) {
						pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: by})
					}
				}
				w.op("removing %d from leaf %d", len(pl.Items), ms[i])
				c.class("removals")
			}
			res := w.G.Commit(&ref.CommitOpts{By: by, Items: pl.Items, Path: true, Wire: w.wire()})
			w.follow(res, pl)
			if w.G.Tree.D >= 3 {
				c.nontrivial()
			}
			c.class("depth %d", w.G.Tree.D)
			if len(w.refLeaves()) < 2 {
				break
			}
			if c.Chance("additions", 3) {
				w.batch(w.partner(), c.Int("added", 1, 20), c.Int("go members", 0, 1), c.Bool("path"))
			}
			if c.Chance("message", 2) {
				w.allInSync()
			}
		}
		w.closing()
	})
}

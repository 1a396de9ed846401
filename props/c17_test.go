package props

import (
	"testing"

	ref "mlsref"
)

// TestC17 follows long histories of tree operations. Members of the library
// keep their own trees; in the Welcomes they write, the trees are read and
// compared, and clients of the library join with the reference's trees.
func TestC17(t *testing.T) {
	run(t, 1, "the tree of the library was compared after paths were merged and members removed", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		limit := c.Int("limit", 3, 24)
		w.batch(0, c.Int("members", 2, limit), 1, c.Bool("path"))
		w.filled(GenOpts{GoBias: 15})
		var removed, updated, merged, unmerged, cut bool
		for n := c.Int("operations", 3, 14); n > 0; n-- {
			ms, refs := w.members(), w.refLeaves()
			by := refs[c.Int("committer", 0, len(refs)-1)]
			pl := &Plan{By: by, Path: c.Bool("path")}
			used := map[uint32]bool{by: true}
			for k := c.weighted("proposals", 1, 3, 3, 2, 2, 1, 1); k > 0; k-- {
				who := ms[c.Int("who", 0, len(ms)-1)]
				switch c.weighted("proposal", 3, 3, 2) {
				case 0:
					if len(ms)+len(pl.Invitees) < limit {
						inv := w.invitee(15)
						pl.Items, pl.Invitees = append(pl.Items, inv.item(by)), append(pl.Invitees, inv)
					}
				case 1:
					// often the rightmost ones
					for i := len(ms) - 1; i >= 0 && c.Bool("rightmost"); i-- {
						if who = ms[i]; !used[who] && w.Go[who] == nil {
							break
						}
					}
					if !used[who] && w.Go[who] == nil && len(refs) > 2 {
						used[who] = true
						refs = refs[:len(refs)-1]
						pl.Path, removed = true, true
						pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: who}, Sender: by})
					}
				case 2:
					if !used[who] && w.Go[who] == nil {
						used[who] = true
						pl.Path, updated = true, true
						leaf, sig := w.updateLeaf(who)
						pl.Items = append(pl.Items, w.propose(who, &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, sig))
					}
				}
			}
			if len(pl.Items) == 0 {
				pl.Path = true
			}
			before := w.G.Tree.D
			w.execute(pl)
			merged = merged || pl.Path
			cut = cut || w.G.Tree.D < before
			for _, p := range w.G.Tree.Par {
				unmerged = unmerged || len(p.Unmerged) > 0
			}
			// what the library believes the tree to be
			gos := w.goLeaves()
			inviter := gos[c.Int("inviter", 0, len(gos)-1)]
			if len(w.members()) < limit && c.Bool("invitation") {
				w.goInvite(inviter, []Invitee{{Ref: w.plainRef()}})
				c.count("trees compared")
				if merged && removed {
					c.nontrivial()
				}
			}
		}
		for name, b := range map[string]bool{"removed": removed, "updated": updated, "merged": merged, "unmerged leaves": unmerged, "truncated": cut} {
			if b {
				c.class("%s", name)
			}
		}
		w.closing()
	})
}

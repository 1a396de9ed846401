package props

import (
	"testing"

	ref "mlsref"
)

func TestC04Join(t *testing.T) {
	run(t, 1, "a go client joined a tree of at least 3 leaves and then followed a path commit by somebody else than its inviter", func(c *Case) {
		w := c.world()
		w.Certs = c.Chance("certificates", 8)
		w.startRef()
		// reference members only, to reach odd trees fast
		o := GenOpts{MaxAdd: 5, MaxRemove: 3, MaxLeaves: 20, KeepRef: 2}
		w.shapes(c.Int("prior steps", 1, 6), o)
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			pl := w.genCommit(GenOpts{MaxAdd: 3, MaxRemove: 2, GoBias: 60, MaxLeaves: 24, KeepRef: 2, KeepGo: 1})
			inv := Invitee{Go: w.newGo()}
			pl.Items = append(pl.Items, inv.item(pl.By))
			pl.Invitees = append(pl.Invitees, inv)
			res := w.execute(pl)
			me := res.Added[len(res.Added)-1]
			if pl.Path {
				c.class("welcome with path secret")
			}
			// the joiner follows commits by many different members
			for k := c.Int("follow", 1, 5); k > 0; k-- {
				refs := w.refLeaves()
				by := refs[c.Int("committer", 0, len(refs)-1)]
				p2 := &Plan{By: by, Path: true}
				if c.Chance("richer", 3) {
					p2 = w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 2, GoBias: 20, MaxLeaves: 26, KeepGo: len(w.Go), KeepRef: 2, ForcePath: true})
				}
				w.execute(p2)
				if p2.By != pl.By && len(w.members()) >= 3 {
					c.nontrivial()
				}
				c.class("joiner right of committer: %v", me > p2.By)
			}
			if c.Bool("invite") {
				w.goInvite(me, []Invitee{{Ref: w.plainRef()}})
			}
		}
		w.traffic()
		w.closing()
	})
}

var _ = ref.MLS10

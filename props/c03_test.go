package props

import "testing"

func TestC03Commits(t *testing.T) {
	run(t, 1, "at least 6 commits incl. 3 with paths were followed by go members, in a tree that had at least 8 leaves", func(c *Case) {
		w := c.world()
		w.Certs = c.Chance("certificates", 8)
		if c.Bool("start") {
			w.startGo()
		} else {
			w.startRef()
			pl := &Plan{By: 0}
			inv := Invitee{Go: w.newGo()}
			pl.Invitees = []Invitee{inv}
			pl.Items = append(pl.Items, inv.item(0))
			pl.Path = c.Bool("path")
			w.execute(pl)
		}
		w.shapes(c.many("steps", 1, 12, 40), GenOpts{MaxAdd: 4, MaxRemove: 3, GoBias: 30, MaxLeaves: 20, KeepGo: 1})
		w.closing()
		if w.commits >= 6 && w.paths >= 3 && w.widest >= 8 {
			c.nontrivial()
		}
	})
}

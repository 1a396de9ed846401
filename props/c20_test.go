package props

import (
	"bytes"
	"slices"
	"testing"

	ref "mlsref"
)

// pooled is a proposal that was sent.
type pooled struct {
	ref.Item
	raw  []byte
	inv  *Invitee
	name string
}

// pool draws proposals of any members.
func (w *World) pool(n int) []pooled {
	c := w.Case
	var out []pooled
	for ; n > 0; n-- {
		var p pooled
		by := w.someLeaf("proposer")
		var prop *ref.Proposal
		var sig []byte
		kind := c.weighted("proposal", 4, 4, 3, 3, 1)
		if kind == 3 && len(out) == 0 {
			kind = 0
		}
		switch kind {
		case 0:
			inv := w.invitee(25)
			p.inv = &inv
			it := inv.item(by)
			prop, sig = it.Prop, it.SigPriv
		case 1:
			refs := w.refLeaves()
			by = refs[c.Int("updater", 0, len(refs)-1)]
			var lf *ref.Leaf
			lf, sig = w.updateLeaf(by)
			prop = &ref.Proposal{Type: ref.PropUpdate, Update: lf}
		case 2:
			prop = &ref.Proposal{Type: ref.PropRemove, Removed: w.someLeaf("removed")}
		case 3: // an earlier one again, by the same or another member
			old := out[c.Int("again", 0, len(out)-1)]
			prop, sig, p.inv = old.Prop, old.SigPriv, old.inv
			if prop.Type == ref.PropUpdate || c.Bool("same proposer") {
				by = old.Sender
			}
		case 4:
			prop = &ref.Proposal{Type: ref.PropGCE, Exts: w.groupExts()}
		}
		p.Item, p.raw = w.makeProposal(by, prop, sig)
		p.name = propName(prop)
		w.op("proposal %d by %d: %s", len(out), by, p.name)
		out = append(out, p)
	}
	return out
}

// choose draws a valid list of proposals from the pool.
func (w *World) choose(by uint32, pool []pooled, o GenOpts) (*Plan, []int) {
	c := w.Case
	pl := &Plan{By: by}
	touched := map[uint32]bool{by: true}
	added := map[*ref.KeyPackage]bool{}
	nGo, nRef := len(w.Go), len(w.refLeaves())
	room := o.MaxLeaves - len(w.members())
	var used []int
	gce := false
	invs := map[*ref.KeyPackage]Invitee{}
	for _, i := range c.rnd.Perm(len(pool)) {
		p := pool[i]
		if !c.Bool("referenced") {
			continue
		}
		switch p.Prop.Type {
		case ref.PropAdd:
			if added[p.Prop.Add] || room == 0 {
				continue
			}
			added[p.Prop.Add] = true
			invs[p.Prop.Add] = *p.inv
			room--
		case ref.PropUpdate:
			if touched[p.Sender] {
				continue
			}
			touched[p.Sender] = true
		case ref.PropRemove:
			l := p.Prop.Removed
			if touched[l] || (w.Go[l] != nil && nGo <= o.KeepGo) || (w.Go[l] == nil && nRef <= o.KeepRef) {
				continue
			}
			touched[l] = true
			if w.Go[l] != nil {
				nGo--
			} else {
				nRef--
			}
		case ref.PropGCE:
			if gce {
				continue
			}
			gce = true
		}
		it := p.Item
		// by value, when it does not need its sender
		if it.Prop.Type != ref.PropUpdate && c.Chance("inline", 4) {
			it.Ref, it.Sender = nil, by
		} else {
			used = append(used, i)
		}
		pl.Items = append(pl.Items, it)
	}
	for _, it := range pl.Items {
		if it.Prop.Type == ref.PropAdd {
			pl.Invitees = append(pl.Invitees, invs[it.Prop.Add])
		}
	}
	pl.Path = needsPath(pl.Items) || c.Bool("path")
	return pl, used
}

func TestC20(t *testing.T) {
	run(t, 1, "a commit referenced some but not all of at least three received proposals", func(c *Case) {
		w := c.mixed(2, 10)
		var stale []pooled
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			opts := GenOpts{MaxLeaves: 24, KeepGo: 1, KeepRef: 2}
			pool := w.pool(c.many("proposals", 1, 10, 90))
			refs := w.refLeaves()
			pl, used := w.choose(refs[c.Int("committer", 0, len(refs)-1)], pool, opts)
			late := -1
			if len(used) > 0 && c.Bool("late") {
				late = used[c.Int("late proposal", 0, len(used)-1)]
				for i, p := range pool {
					if i != late && bytes.Equal(p.Ref, pool[late].Ref) {
						late = -1 // sent twice with deterministic signatures
						break
					}
				}
			}
			gos := w.goLeaves()
			var behind []uint32
			for _, l := range gos {
				gm := w.Go[l]
				order := c.rnd.Perm(len(pool))
				for i := range order {
					if c.rnd.IntN(5) == 0 {
						order = append(order, order[i]) // repeated
					}
				}
				seen := map[int]bool{}
				for _, i := range order {
					if !slices.Contains(used, i) && c.rnd.IntN(4) == 0 {
						continue // lost, but not needed
					}
					if i == late && len(behind) == 0 {
						continue
					}
					got, err := gm.G.UnmarshalAndProcessMessage(bytes.Clone(pool[i].raw))
					if len(got) != 0 {
						c.Fatalf("a proposal returned application data")
					}
					if !seen[i] { // what happens to repetitions is not our business
						w.must(err, "go member %d rejects proposal %d: %s by %d", l, i, pool[i].name, pool[i].Sender)
					}
					seen[i] = true
					c.count("received proposals")
				}
				if c.Chance("invitation dropped", 6) {
					w.op("go member %d makes an invitation that is not sent", l)
					w.offer(l)
				}
				if late >= 0 && len(behind) == 0 {
					behind = append(behind, l)
				}
				w.inSync(gm)
			}
			if c.Chance("invitation instead", 5) {
				by := gos[c.Int("inviter", 0, len(gos)-1)]
				w.op("go member %d invites, ignoring all proposals", by)
				w.goInvite(by, []Invitee{w.invitee(30)})
				stale = pool
			} else {
				o := w.opts(pl)
				w.op("%s wire=%d", pl, o.Wire)
				res := w.G.Commit(o)
				for _, l := range behind {
					w.op("go member %d lacks proposal %d", l, late)
					w.refuse(w.Go[l], "a commit that references a proposal it does not know", res.Raw)
					w.inSync(w.Go[l])
					_, err := w.Go[l].G.UnmarshalAndProcessMessage(pool[late].raw)
					w.must(err, "late proposal")
					c.count("late proposals")
				}
				w.follow(res, pl)
				w.welcome(res, pl, nil)
				if len(used) > 0 && len(used) < len(pool) && len(pool) >= 3 {
					c.nontrivial()
				}
				c.class("%d referenced", min(len(used), 4))
				stale = pool
			}
			w.allInSync()
			// nothing of the pool is left
			for k := c.Int("stale", 0, 2); k > 0; k-- {
				p := stale[c.Int("stale proposal", 0, len(stale)-1)]
				var it ref.Item
				switch {
				case p.Prop.Type == ref.PropAdd && !w.hasKeys(p.Prop.Add):
					it = p.Item
				case p.Prop.Type == ref.PropRemove && w.G.Tree.Leaf(p.Prop.Removed) != nil:
					it = p.Item
				case p.Prop.Type == ref.PropGCE:
					it = p.Item
				default:
					continue
				}
				var by []uint32
				for _, l := range w.refLeaves() {
					if it.Prop.Type != ref.PropRemove || it.Prop.Removed != l {
						by = append(by, l)
					}
				}
				cm := w.G.Commit(&ref.CommitOpts{By: by[c.Int("stale committer", 0, len(by)-1)], Items: []ref.Item{it}, Path: true, Wire: w.wire()})
				w.op("stale reference to: %s by %d", p.name, p.Sender)
				w.refuseAll("a commit with a reference of an earlier epoch", cm.Raw)
			}
		}
		w.closing()
	})
}

// hasKeys tells whether the keys of a key package are in use in the group.
func (w *World) hasKeys(kp *ref.KeyPackage) bool {
	for _, l := range w.members() {
		x := w.G.Tree.Leaf(l)
		if bytes.Equal(x.EncKey, kp.Leaf.EncKey) || bytes.Equal(x.SigKey, kp.Leaf.SigKey) {
			return true
		}
	}
	return false
}

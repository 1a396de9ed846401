package props

import (
	"bytes"
	"slices"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// offer is a commit that a go member has created but not processed.
type offer struct {
	by   uint32
	invs []Invitee
	wel  *mls.Welcome
	raw  []byte
}

// dropOne makes a go member create an invitation that is not processed now.
func (w *World) offer(by uint32) *offer {
	o := &offer{by: by}
	var kps []mls.KeyPackage
	for n := w.Int("batch", 1, 3); n > 0; n-- {
		inv := w.invitee(30)
		o.invs = append(o.invs, inv)
		if inv.Go != nil {
			kps = append(kps, inv.Go.KPP.Public)
		} else {
			kps = append(kps, *w.goKP(inv.Ref.KP))
		}
	}
	var err error
	o.wel, o.raw, err = w.Go[by].G.CreateWelcome(kps)
	w.must(err, "CreateWelcome by leaf %d", by)
	return o
}

// broken makes a commit that is right in everything but what shows at the very
// end of processing.
func (w *World) broken(pl *Plan) (string, []byte) {
	c := w.Case
	o := w.opts(pl)
	name := ""
	switch c.Int("broken", 0, 6) {
	case 0:
		o.Evil.CommitSecret, name = func(b []byte) []byte { return flip(c, b) }, "another commit secret"
	case 1:
		o.Evil.Init, name = ref.Rand(w.S.Nh), "another init secret"
	case 2:
		o.Evil.PSKSecret, name = ref.Rand(w.S.Nh), "a pre-shared key nobody knows"
	case 3:
		o.Evil.Ctx, name = func(x *ref.Context) { x.TreeHash = flip(c, x.TreeHash) }, "another tree hash"
	case 4:
		o.Evil.Ctx, name = func(x *ref.Context) { x.CTH = flip(c, x.CTH) }, "another transcript"
	case 5:
		o.Evil.ConfTag, name = func(b []byte) []byte { return flip(c, b) }, "another confirmation tag"
	case 6:
		o.Evil.Tree, name = func(t *ref.Tree) {
			ms := slices.DeleteFunc(t.Members(), func(l uint32) bool { return l == pl.By })
			l := ms[c.Int("changed leaf", 0, len(ms)-1)]
			x := t.Lf[l].Clone()
			rename(x)
			t.Lf[l] = x
		}, "another tree"
	}
	return name, w.G.Commit(o).Raw
}

func TestC06(t *testing.T) {
	run(t, 1, "at least two failing or dropped operations of different kinds happened between a plan made with pending proposals and its execution", func(c *Case) {
		w := c.mixed(2, 12)
		w.Strict = true
		var old [][]byte // messages of earlier epochs
		for n := c.Int("rounds", 1, 4); n > 0; n-- {
			opts := GenOpts{MaxAdd: 3, MaxRemove: 2, GoBias: 20, MaxLeaves: 24, KeepGo: 1, KeepRef: 2}
			base := w.genCommit(opts)
			var offers []*offer
			kinds := map[int]bool{}
			if c.Bool("check first") {
				w.allInSync()
			}
			for k := c.Int("failing", 1, 8); k > 0; k-- {
				kind := c.weighted("kind", 3, 2, 2, 2, 2, 3, 1, 2)
				kinds[kind] = true
				switch kind {
				case 0: // a commit that is not processed, or only later
					gos := w.goLeaves()
					by := gos[c.Int("inviter", 0, len(gos)-1)]
					w.op("go member %d creates a commit", by)
					offers = append(offers, w.offer(by))
				case 1:
					d := w.draft()
					name, raw := w.forge(d)
					w.op("forged: %s, %s", d.name, name)
					w.refuseAll(d.name+", "+name, raw)
				case 2:
					pl := w.genCommit(w.keepAll())
					draw := (*World).listBreach
					if c.Bool("path breach") {
						draw = (*World).pathBreach
					}
					b := draw(w, pl)
					w.op("%s: %s", pl, b.name)
					raw := w.commitBreach(b, pl.By)
					for _, l := range w.goLeaves() {
						if !slices.Contains(b.skip, l) {
							w.refuse(w.Go[l], b.name, raw)
						}
					}
				case 3:
					pl := w.genCommit(w.keepAll())
					in := w.intruder(&Plan{By: pl.By, Items: pl.Items, Path: pl.Path})
					w.op("%s: %s", pl, in.name)
					w.refuseAll(in.name, w.G.Commit(in.bad).Raw)
				case 4:
					if len(old) == 0 {
						continue
					}
					raw := old[c.Int("old", 0, len(old)-1)]
					w.op("a message of an earlier epoch")
					w.refuseAll("a message of an earlier epoch", raw)
				case 5:
					pl := base
					if c.Bool("another plan") {
						pl = w.genCommit(w.keepAll())
					}
					name, raw := w.broken(pl)
					w.op("%s with %s", pl, name)
					w.refuseAll("a commit with "+name, raw)
				case 6:
					gos := w.goLeaves()
					by := gos[c.Int("inviter", 0, len(gos)-1)]
					name, bad := w.badInvite(by)
					w.op("go member %d invites: %s", by, name)
					if bad != nil {
						if _, _, err := w.Go[by].G.CreateWelcome([]mls.KeyPackage{*bad}); err == nil {
							c.class("bad invitation issued") // C24
						}
					}
				case 7:
					raw := w.payload(c.Int("garbage", 0, 200))
					if c.Bool("from a message") {
						raw, _ = w.build(w.draft(), nil)
						raw = raw[:c.Int("prefix", 0, len(raw)-1)]
					}
					w.op("garbage of %d bytes", len(raw))
					w.refuseAll("garbage", raw)
				}
				if c.Chance("check now", 3) {
					w.allInSync()
				}
			}
			epoch := w.G.Ctx.Epoch
			var commit []byte
			if len(offers) > 0 && c.Bool("take an offer") {
				o := offers[c.Int("offer", 0, len(offers)-1)]
				w.op("the commit of go member %d is taken", o.by)
				w.followGo(o.by, o.invs, o.wel, o.raw)
				commit = o.raw
				c.class("one of %d offers taken", min(len(offers), 3))
			} else {
				res := w.execute(base)
				commit = res.Raw
				if len(offers) > 0 {
					c.class("offers lost against another commit")
				}
				if slices.ContainsFunc(base.Items, func(it ref.Item) bool { return it.Ref != nil }) {
					c.class("pending proposals used after failures")
					if len(kinds) > 1 {
						c.nontrivial()
					}
				}
			}
			if w.G.Ctx.Epoch != epoch+1 {
				c.Fatalf("harness: epoch %d after %d", w.G.Ctx.Epoch, epoch)
			}
			old = append(old, bytes.Clone(commit))
			for _, o := range offers {
				if !bytes.Equal(o.raw, commit) {
					w.refuseAll("a commit that lost", o.raw)
					old = append(old, o.raw)
				}
			}
			w.refuseAll("the same commit again", commit)
			if len(offers) > 1 {
				c.nontrivial()
			}
		}
		w.closing()
	})
}

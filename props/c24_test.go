package props

import (
	"bytes"
	"slices"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// badInvite draws a key package that may not be added, in the form a caller
// gets it; nil if it cannot even be decoded.
func (w *World) badInvite(by uint32) (string, *mls.KeyPackage) {
	c := w.Case
	conv := func(kp *ref.KeyPackage) *mls.KeyPackage {
		k, err := mls.UnmarshalKeyPackage(ref.Message(ref.WireKeyPackage, ref.Bytes(kp)))
		if err != nil {
			return nil
		}
		return k
	}
	switch c.weighted("bad invite", 8, 2, 1, 1, 1) {
	case 1: // a package of a present go member
		gos := w.goLeaves()
		gm := w.Go[gos[c.Int("member", 0, len(gos)-1)]]
		if bytes.Equal(gm.KP.Leaf.SigKey, w.G.Tree.Leaf(gm.Leaf).SigKey) {
			if gm.Leaf == by {
				return "own key package", &gm.KPP.Public
			}
			return "key package of a member", &gm.KPP.Public
		}
	case 2: // of another suite that the client itself supports
		id := pick(c, "suite", suiteIDs...)
		if id != w.S.ID {
			kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(id), mls.NewBasicCredential([]byte("x")))
			c.must(err, "GenerateKeyPairPackage")
			return "generated for another suite", &kpp.Public
		}
	case 3: // the empty value
		return "zero key package", &mls.KeyPackage{}
	case 4: // keys of the wrong length
		p := w.plainRef()
		switch c.Int("key", 0, 2) {
		case 0:
			_, p.KP.InitKey = mangle(c, p.KP.InitKey)
			p.sign(w.S)
			// flipping bits may give another valid key
			if len(p.KP.InitKey) < len(p.KP.Leaf.EncKey) {
				return "init key too short", conv(p.KP)
			}
		case 1:
			p.KP.Leaf.SigKey = p.KP.Leaf.SigKey[:len(p.KP.Leaf.SigKey)-1]
			p.sign(w.S)
			return "signature key of the wrong length", conv(p.KP)
		case 2:
			p.KP.Leaf.SigKey = nil
			p.sign(w.S)
			return "no signature key", conv(p.KP)
		}
	}
	p := w.newRef()
	d := w.leafDefect(viaAdd, 0, 1<<31)
	kp := conv(w.spoil(p, d))
	return d.name, kp
}

func TestC24(t *testing.T) {
	run(t, 1, "an invitation with a bad key package was refused and a valid one by the same member accepted by everybody", func(c *Case) {
		w := c.mixed(3, 12)
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			gos := w.goLeaves()
			by := gos[c.Int("inviter", 0, len(gos)-1)]
			g := w.Go[by].G
			var good []Invitee
			var kps []mls.KeyPackage
			for k := c.many("batch", 1, 3, 12); k > 0; k-- {
				inv := w.invitee(30)
				good = append(good, inv)
				if inv.Go != nil {
					kps = append(kps, inv.Go.KPP.Public)
				} else {
					kps = append(kps, *w.goKP(inv.Ref.KP))
				}
			}
			for k := c.Int("bad batches", 1, 6); k > 0; k-- {
				var name string
				batch := slices.Clone(kps[:c.Int("others", 0, len(kps))])
				if len(batch) > 0 && c.Chance("twice", 5) {
					name = "the same key package twice"
					x := batch[c.Int("which", 0, len(batch)-1)]
					if c.Bool("same signature key only") {
						// another key package of the same client
						i := slices.IndexFunc(good, func(v Invitee) bool { return v.Ref != nil })
						if i >= 0 && i < len(batch) {
							p := w.newRef()
							p.KP.Leaf.SigKey, p.Sig = good[i].Ref.KP.Leaf.SigKey, good[i].Ref.Sig
							p.sign(w.S)
							x = *w.goKP(p.KP)
							name = "two key packages of the same client"
						}
					}
					batch = slices.Insert(batch, c.Int("at", 0, len(batch)), x)
				} else {
					var bad *mls.KeyPackage
					name, bad = w.badInvite(by)
					if bad == nil {
						c.class("not decoded: %s", name)
						continue
					}
					batch = slices.Insert(batch, c.Int("at", 0, len(batch)), *bad)
				}
				w.op("go member %d invites %d: %s", by, len(batch), name)
				c.class("%s", name)
				wel, raw, err := g.CreateWelcome(batch)
				if err == nil {
					w.Fatalf("member %d issues an invitation for a batch of %d with a bad key package: %s", by, len(batch), name)
				}
				if wel != nil || raw != nil {
					w.Fatalf("CreateWelcome returns a result together with an error (%s)", name)
				}
				c.count("refused invitations")
				c.nontrivial()
			}
			w.inSync(w.Go[by])
			w.goInvite(by, good)
		}
		w.closing()
	})
}

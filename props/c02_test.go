package props

import (
	"bytes"
	"testing"
	"time"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// checkGenerated checks everything about a generated key package.
func (c *Case) checkGenerated(s *ref.Suite, kpp *mls.KeyPairPackage, identity []byte) *ref.KeyPackage {
	kp := c.parseGoKP(&kpp.Public)
	now := uint64(time.Now().Unix())
	c.must(kp.Validate(s, now), "generated key package is not valid")
	l := &kp.Leaf
	if l.Cred.Type != ref.CredBasic || !bytes.Equal(l.Cred.Identity, identity) {
		c.Fatalf("credential of the generated key package is %+v, want identity %x", l.Cred, identity)
	}
	if l.NotAfter <= now || l.NotAfter-l.NotBefore < 3600 {
		c.Fatalf("generated lifetime %d..%d", l.NotBefore, l.NotAfter)
	}
	for _, x := range []struct{ pub, priv []byte }{{kp.InitKey, kpp.Private.InitKey}, {l.EncKey, kpp.Private.EncryptionKey}} {
		pub, err := s.KEMPub(x.priv)
		c.must(err, "private key of the generated package")
		if !bytes.Equal(pub, x.pub) {
			c.Fatalf("HPKE private key does not belong to the public key")
		}
	}
	pub, err := s.SigPub(kpp.Private.SignatureKey)
	c.must(err, "signature key of the generated package")
	if !bytes.Equal(pub, l.SigKey) {
		c.Fatalf("signature private key does not belong to the public key")
	}
	got, err := kpp.Public.GenerateRef()
	c.must(err, "GenerateRef")
	if !bytes.Equal(got, kp.Ref(s)) {
		c.Fatalf("key package reference %x, want %x", got, kp.Ref(s))
	}
	return kp
}

func TestC02Output(t *testing.T) {
	run(t, 1, "a go member issued at least 2 invitations (used or dropped) in a tree of at least 3 leaves, checked by the reference", func(c *Case) {
		w := c.world()
		w.Strict = true
		id := c.Bytes("identity", 70000)
		kpp, err := mls.GenerateKeyPairPackage(w.CS, mls.NewBasicCredential(bytes.Clone(id)))
		c.must(err, "GenerateKeyPairPackage")
		gm := &GoMember{KPP: kpp, KP: c.checkGenerated(w.S, kpp, id)}
		if c.Bool("start") {
			w.startGo()
			w.goInvite(0, []Invitee{{Go: gm}})
		} else {
			w.startRef()
			inv := Invitee{Go: gm}
			w.execute(&Plan{By: 0, Items: []ref.Item{inv.item(0)}, Invitees: []Invitee{inv}, Path: c.Bool("path")})
		}
		issued := 0
		for n := c.Int("rounds", 1, 4); n > 0; n-- {
			w.shapes(c.Int("steps", 0, 3), GenOpts{MaxAdd: 4, MaxRemove: 3, GoBias: 30, MaxLeaves: 24, KeepGo: 1})
			gos := w.goLeaves()
			// alternatives by several members; one is used
			type alt struct {
				by   uint32
				invs []Invitee
				wel  *mls.Welcome
				raw  []byte
			}
			var alts []alt
			for k := c.Int("alternatives", 1, 3); k > 0; k-- {
				a := alt{by: gos[c.Int("inviter", 0, len(gos)-1)]}
				var kps []mls.KeyPackage
				for b := c.many("batch", 1, 5, 20); b > 0; b-- {
					inv := w.invitee(30)
					a.invs = append(a.invs, inv)
					if inv.Go != nil {
						kps = append(kps, inv.Go.KPP.Public)
					} else {
						kps = append(kps, *w.goKP(inv.Ref.KP))
					}
				}
				c.op("go member %d prepares an invitation for %d", a.by, len(kps))
				a.wel, a.raw, err = w.Go[a.by].G.CreateWelcome(kps)
				c.must(err, "CreateWelcome")
				w.checkInvitation(a.by, a.invs, a.wel, a.raw)
				issued++
				alts = append(alts, a)
			}
			w.allInSync()
			a := alts[c.Int("chosen", 0, len(alts)-1)]
			c.op("the invitation of %d is used", a.by)
			w.followGo(a.by, a.invs, a.wel, a.raw)
			if c.Bool("traffic") {
				w.traffic()
			}
		}
		if issued >= 2 && len(w.members()) >= 3 {
			c.nontrivial()
		}
	})
}

// checkInvitation checks a commit and its Welcome in every detail without
// using it.
func (w *World) checkInvitation(by uint32, invs []Invitee, wel *mls.Welcome, raw []byte) {
	o, err := w.open(raw)
	w.must(err, "commit of go member %d is not valid in its epoch", by)
	res, err := w.G.Follow(o, nil)
	w.must(err, "commit of go member %d does not follow the RFC", by)
	if len(o.AC.Content.Commit.Props) != len(invs) {
		w.Fatalf("commit lists %d proposals for %d invitees", len(o.AC.Content.Commit.Props), len(invs))
	}
	rw, err := ref.ParseWelcomeMsg(wel.Bytes())
	w.must(err, "Welcome of go member %d", by)
	if rw.Suite != w.S.ID || len(rw.Secrets) != len(invs) {
		w.Fatalf("Welcome for suite %d with %d recipients", rw.Suite, len(rw.Secrets))
	}
	for i, inv := range invs {
		kp := inv.kp()
		var init []byte
		if inv.Go != nil {
			init = inv.Go.KPP.Private.InitKey
		} else {
			init = inv.Ref.Init
		}
		if !bytes.Equal(rw.Secrets[i].Ref, kp.Ref(w.S)) {
			w.Fatalf("recipient %d of the Welcome has the wrong reference", i)
		}
		g, me, gi, err := ref.Join(wel.Bytes(), kp, init)
		w.must(err, "invitee %d cannot join by the RFC", i)
		if gi.Signer != by || me != res.Added[i] {
			w.Fatalf("Welcome: signer %d want %d, leaf %d want %d", gi.Signer, by, me, res.Added[i])
		}
		w.must(g.Same(res.G), "Welcome and commit of go member %d disagree", by)
		w.count("reference joins")
	}
}

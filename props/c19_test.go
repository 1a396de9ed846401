package props

import (
	"bytes"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// guest is a client of the library whose buffers are all overwritten after use.
type guest struct {
	*Case
	calls int
}

// lend passes a copy of b to f, checks that f left it alone, and overwrites it.
func (g *guest) lend(what string, b []byte, f func(b []byte)) {
	// the buffer is part of a larger one, whose rest must also stay alone
	const slack = 24
	full := make([]byte, len(b)+2*slack)
	for i := range full {
		full[i] = 0xa5
	}
	copy(full[slack:], b)
	f(full[slack : slack+len(b)])
	if !bytes.Equal(full[slack:slack+len(b)], b) {
		g.Fatalf("%s was modified", what)
	}
	for i, v := range full {
		if (i < slack || i >= slack+len(b)) && v != 0xa5 {
			g.Fatalf("memory next to %s was modified", what)
		}
	}
	g.wipe(full)
}

// wipe overwrites a buffer.
func (g *guest) wipe(b []byte) {
	g.calls++
	b = b[:cap(b)]
	switch g.rnd.IntN(3) {
	case 0:
		clear(b)
	case 1:
		for i := range b {
			b[i] = ^b[i]
		}
	case 2:
		for i := range b {
			b[i] = byte(g.rnd.Uint32())
		}
	}
}

// take returns a copy of b and overwrites b.
func (g *guest) take(b []byte) []byte {
	out := bytes.Clone(b)
	if b != nil && out == nil {
		out = []byte{}
	}
	g.wipe(b)
	return out
}

// pkgBytes encodes a key package twice, overwriting the first result.
func (g *guest) pkgBytes(kp *mls.KeyPackage) []byte {
	a := g.take(kp.Bytes())
	if !bytes.Equal(kp.Bytes(), a) {
		g.Fatalf("the encoding of a key package changes when an earlier encoding is overwritten")
	}
	return a
}

func (g *guest) pkgRef(kp *mls.KeyPackage) mls.KeyPackageRef {
	r, err := kp.GenerateRef()
	g.must(err, "GenerateRef")
	a := mls.KeyPackageRef(g.take(r))
	r, err = kp.GenerateRef()
	g.must(err, "GenerateRef")
	if !r.Equal(a) {
		g.Fatalf("the reference of a key package changes when an earlier reference is overwritten")
	}
	return a
}

func (g *guest) welBytes(wel *mls.Welcome) []byte {
	a := g.take(wel.Bytes())
	for _, r := range wel.NewMembers() {
		g.wipe(r)
	}
	clear(wel.NewMembers())
	if !bytes.Equal(wel.Bytes(), a) {
		g.Fatalf("a Welcome changes when its encoding or its references are overwritten")
	}
	return a
}

// keys generates a key package.
func (g *guest) keys(s *ref.Suite) *mls.KeyPairPackage {
	id := g.Bytes("identity", 100)
	var cred *mls.Credential
	g.lend("identity", id, func(b []byte) { cred = mls.NewBasicCredential(b) })
	kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s.ID), cred)
	g.must(err, "GenerateKeyPairPackage")
	g.checkGenerated(s, kpp, id)
	raw := g.pkgBytes(&kpp.Public)
	// the credential can be used again and the key packages do not share memory
	if g.Bool("again") {
		other, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s.ID), cred)
		g.must(err, "GenerateKeyPairPackage")
		g.checkGenerated(s, other, id)
		g.wipePrivate(other)
	}
	g.checkGenerated(s, kpp, id)
	if !bytes.Equal(g.pkgBytes(&kpp.Public), raw) {
		g.Fatalf("a key package changed")
	}
	return kpp
}

func (g *guest) wipePrivate(kpp *mls.KeyPairPackage) {
	g.wipe(kpp.Private.InitKey)
	g.wipe(kpp.Private.EncryptionKey)
	g.wipe(kpp.Private.SignatureKey)
}

// spend calls f with a key package that is then overwritten, and checks that f
// did not change it. The copy that is returned still works.
func (g *guest) spend(kpp *mls.KeyPairPackage, f func(*mls.KeyPairPackage)) *mls.KeyPairPackage {
	keep := g.dup(kpp)
	before := g.pkgBytes(&kpp.Public)
	f(kpp)
	if !bytes.Equal(g.pkgBytes(&kpp.Public), before) || !bytes.Equal(kpp.Private.InitKey, keep.Private.InitKey) || !bytes.Equal(kpp.Private.EncryptionKey, keep.Private.EncryptionKey) || !bytes.Equal(kpp.Private.SignatureKey, keep.Private.SignatureKey) {
		g.Fatalf("a key package that was passed in was modified")
	}
	if g.Chance("keep the keys", 4) {
		return keep
	}
	g.wipePrivate(kpp)
	// the variable is used for other keys
	other, err := mls.GenerateKeyPairPackage(mls.CipherSuite(1), mls.NewBasicCredential([]byte("other")))
	g.must(err, "GenerateKeyPairPackage")
	*kpp = *other
	return keep
}

func (g *guest) dup(kpp *mls.KeyPairPackage) *mls.KeyPairPackage {
	kp, err := mls.UnmarshalKeyPackage(kpp.Public.Bytes())
	g.must(err, "UnmarshalKeyPackage")
	return &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{
		InitKey:       bytes.Clone(kpp.Private.InitKey),
		EncryptionKey: bytes.Clone(kpp.Private.EncryptionKey),
		SignatureKey:  bytes.Clone(kpp.Private.SignatureKey),
	}}
}

// parse decodes a key package from a buffer that is then overwritten.
func (g *guest) parse(raw []byte) *mls.KeyPackage {
	var kp *mls.KeyPackage
	var err error
	g.lend("encoded key package", raw, func(b []byte) { kp, err = mls.UnmarshalKeyPackage(b) })
	g.must(err, "UnmarshalKeyPackage")
	if !bytes.Equal(g.pkgBytes(kp), raw) {
		g.Fatalf("a key package changes with the buffer it was decoded from")
	}
	return kp
}

// process delivers a message in a buffer that is then overwritten.
func (g *guest) process(gr *mls.Group, what string, raw []byte) (out []byte) {
	var err error
	g.lend(what, raw, func(b []byte) { out, err = gr.UnmarshalAndProcessMessage(b) })
	g.must(err, "%s is rejected", what)
	return g.take(out)
}

func TestC19(t *testing.T) {
	run(t, 1, "a group continued over at least two epochs and 20 overwritten buffers", func(c *Case) {
		w := c.world()
		g := &guest{Case: c}
		w.Wipe = g.wipe
		// the group is made by the library or by the reference
		if c.Bool("created by the library") {
			kpp := g.keys(w.S)
			lf := c.parseGoKP(&kpp.Public).Leaf
			var gr *mls.Group
			var err error
			kept := g.spend(kpp, func(kpp *mls.KeyPairPackage) {
				g.lend("group id", w.GID, func(b []byte) { gr, err = mls.CreateGroup(b, kpp) })
			})
			c.must(err, "CreateGroup")
			gm := &GoMember{KPP: kept, G: gr, Leaf: 0}
			w.op("go member creates group %s", short(w.GID))
			// the first invitation shows the secrets
			p := w.plainRef()
			wel, raw, err := gr.CreateWelcome([]mls.KeyPackage{*g.parse(ref.Message(ref.WireKeyPackage, ref.Bytes(p.KP)))})
			c.must(err, "CreateWelcome")
			rg, leaf, _, err := ref.Join(g.welBytes(wel), p.KP, p.Init)
			c.must(err, "Join")
			g.process(gr, "own commit", raw)
			if !bytes.Equal(rg.Ctx.GroupID, w.GID) || leaf != 1 {
				c.Fatalf("group id is %s instead of %s", short(rg.Ctx.GroupID), short(w.GID))
			}
			if rg.Tree.Lf[0] == nil || !bytes.Equal(ref.Bytes(rg.Tree.Lf[0]), ref.Bytes(&lf)) {
				c.Fatalf("leaf of the creator changed")
			}
			w.G = rg
			w.G.Sig[0], w.G.Sig[1] = gm.sigPriv(), p.Sig
			w.Go[0] = gm
		} else {
			w.startRef()
			w.execute(&Plan{By: 0, Items: []ref.Item{Invitee{Ref: w.newRef()}.item(0), Invitee{Ref: w.newRef()}.item(0)}, Path: true})
		}
		epochs := 0
		for n := c.Int("steps", 2, 7); n > 0; n-- {
			switch c.weighted("step", 3, 3, 2, 2) {
			case 0: // a reference member adds a guest
				kpp := g.keys(w.S)
				kp := c.parseGoKP(&kpp.Public)
				inv := Invitee{Go: &GoMember{KPP: kpp, KP: kp}}
				pl := w.genCommit(GenOpts{MaxAdd: 1, MaxRemove: 1, MaxLeaves: 14, KeepGo: 9, KeepRef: 3})
				pl.Items = append(pl.Items, inv.item(pl.By))
				res := w.G.Commit(w.opts(pl))
				wraw := res.Welcome(&ref.WelcomeOpts{Signer: pl.By})
				w.op("%s, and a guest joins", pl)
				var wel *mls.Welcome
				var err error
				g.lend("encoded Welcome", wraw, func(b []byte) { wel, err = mls.UnmarshalWelcome(b) })
				c.must(err, "UnmarshalWelcome")
				if !bytes.Equal(g.welBytes(wel), wraw) {
					c.Fatalf("a Welcome changes with the buffer it was decoded from")
				}
				var gr *mls.Group
				kept := g.spend(kpp, func(kpp *mls.KeyPairPackage) { gr, err = mls.GroupFromWelcome(wel, kpp) })
				c.must(err, "GroupFromWelcome")
				if !bytes.Equal(g.welBytes(wel), wraw) {
					c.Fatalf("a Welcome was modified by joining")
				}
				leaf := res.Added[len(res.Added)-1]
				g.followRef(w, res, pl)
				w.Go[leaf] = &GoMember{KPP: kept, KP: kp, G: gr, Leaf: leaf}
				w.G.Sig[leaf] = w.Go[leaf].sigPriv()
				epochs++
			case 1: // a guest invites
				gos := w.goLeaves()
				if len(gos) == 0 {
					continue
				}
				by := gos[c.Int("inviter", 0, len(gos)-1)]
				var invs []Invitee
				var kps []mls.KeyPackage
				for k := c.Int("batch", 1, 3); k > 0; k-- {
					inv := Invitee{Ref: w.plainRef()}
					invs = append(invs, inv)
					kps = append(kps, *g.parse(ref.Message(ref.WireKeyPackage, ref.Bytes(inv.Ref.KP))))
				}
				w.op("guest %d invites %d", by, len(invs))
				wel, raw, err := w.Go[by].G.CreateWelcome(kps)
				c.must(err, "CreateWelcome")
				for i := range kps {
					if !bytes.Equal(kps[i].Bytes(), ref.Message(ref.WireKeyPackage, ref.Bytes(invs[i].Ref.KP))) {
						c.Fatalf("an invited key package was modified")
					}
				}
				junk, err := mls.GenerateKeyPairPackage(w.CS, mls.NewBasicCredential(nil))
				c.must(err, "GenerateKeyPairPackage")
				for i := range kps {
					kps[i] = junk.Public
				}
				g.welBytes(wel)
				kept := g.take(raw)
				op, err := w.G.Unprotect(kept)
				c.must(err, "commit")
				res, err := w.G.Follow(op, nil)
				c.must(err, "commit")
				for i, inv := range invs {
					rg, _, _, err := ref.Join(g.welBytes(wel), inv.Ref.KP, inv.Ref.Init)
					c.must(err, "invitee %d cannot join", i)
					if err := rg.Same(res.G); err != nil {
						c.Fatalf("invitee %d: %v", i, err)
					}
				}
				for _, l := range gos {
					g.process(w.Go[l].G, "commit", kept)
				}
				for i, inv := range invs {
					res.G.Sig[res.Added[i]] = inv.Ref.Sig
				}
				w.G, w.Pend = res.G, nil
				epochs++
			case 2: // traffic
				for _, l := range w.goLeaves() {
					data := c.Bytes("payload", 300)
					var raw []byte
					var err error
					g.lend("payload", data, func(b []byte) { raw, err = w.Go[l].G.CreateApplicationMessage(b) })
					c.must(err, "CreateApplicationMessage")
					raw = g.take(raw)
					o, err := w.G.Unprotect(raw)
					c.must(err, "message of guest %d", l)
					if !bytes.Equal(o.AC.Content.App, data) {
						c.Fatalf("message of guest %d contains something else", l)
					}
					for _, k := range w.goLeaves() {
						for again := 0; again < 2; again++ {
							if k != l && !bytes.Equal(g.process(w.Go[k].G, "message", raw), data) {
								c.Fatalf("guest %d reads something else", k)
							}
						}
					}
				}
			case 3: // proposals and a commit that refers to them
				pl := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 1, MaxLeaves: 14, KeepGo: 9, KeepRef: 3})
				w.op("%s", pl)
				g.followRef(w, w.G.Commit(w.opts(pl)), pl)
				epochs++
			}
			w.allInSync()
		}
		if epochs >= 2 && g.calls >= 20 {
			c.nontrivial()
		}
		w.closing()
	})
}

// followRef lets all guests process a commit of the reference.
func (g *guest) followRef(w *World, res *ref.Result, pl *Plan) {
	for _, l := range w.goLeaves() {
		if got := g.process(w.Go[l].G, "commit", res.Raw); len(got) != 0 {
			g.Fatalf("a commit returned data")
		}
	}
	w.G, w.Pend = res.G, nil
}

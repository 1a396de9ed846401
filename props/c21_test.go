package props

import (
	"bytes"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// checkRefs compares references of the library with those of the RFC.
func (w *World) checkRefs(what string, got []mls.KeyPackageRef, invs []Invitee) {
	if len(got) != len(invs) {
		w.Fatalf("%s lists %d references for %d invitees", what, len(got), len(invs))
	}
	for i, inv := range invs {
		if !bytes.Equal(got[i], inv.kp().Ref(w.S)) {
			w.Fatalf("%s: reference %d is %x, want %x", what, i, []byte(got[i]), inv.kp().Ref(w.S))
		}
	}
}

// checkRef checks the reference of one key package, before and after encoding.
func (w *World) checkRef(kp *mls.KeyPackage, want *ref.KeyPackage) mls.KeyPackageRef {
	r, err := kp.GenerateRef()
	w.must(err, "GenerateRef")
	if !bytes.Equal(r, want.Ref(w.S)) {
		w.Fatalf("reference of a key package is %x, want %x", []byte(r), want.Ref(w.S))
	}
	again, err := mls.UnmarshalKeyPackage(kp.Bytes())
	w.must(err, "UnmarshalKeyPackage")
	s, err := again.GenerateRef()
	w.must(err, "GenerateRef")
	if !r.Equal(s) || !s.Equal(r) {
		w.Fatalf("reference of a key package changes with encoding")
	}
	return r
}

// welcome of a batch of invitees, by the library or by the reference.
func (w *World) address(invs []Invitee) (*mls.Welcome, func()) {
	gos := w.goLeaves()
	if w.Bool("by the library") {
		by := gos[w.Int("inviter", 0, len(gos)-1)]
		w.op("go member %d invites %d", by, len(invs))
		var kps []mls.KeyPackage
		for _, inv := range invs {
			if inv.Go != nil {
				kps = append(kps, inv.Go.KPP.Public)
			} else {
				kps = append(kps, *w.goKP(inv.Ref.KP))
			}
		}
		wel, raw, err := w.Go[by].G.CreateWelcome(kps)
		w.must(err, "CreateWelcome")
		w.checkRefs("the new Welcome", wel.NewMembers(), invs)
		return wel, func() { w.followGo(by, invs, wel, raw) }
	}
	refs := w.refLeaves()
	pl := &Plan{By: refs[w.Int("committer", 0, len(refs)-1)], Path: w.Bool("path"), Invitees: invs}
	for _, inv := range invs {
		pl.Items = append(pl.Items, inv.item(pl.By))
	}
	w.op("%s", pl)
	res := w.G.Commit(w.opts(pl))
	raw := res.Welcome(&ref.WelcomeOpts{Signer: pl.By})
	wel, err := mls.UnmarshalWelcome(raw)
	w.must(err, "UnmarshalWelcome")
	return wel, func() { w.follow(res, pl); w.welcome(res, pl, nil) }
}

// shut tries to join where this must fail.
func (w *World) shut(what string, wel *mls.Welcome, kpp *mls.KeyPairPackage) {
	g, err := mls.GroupFromWelcome(wel, kpp)
	w.count("refused")
	if err == nil || g != nil {
		w.Fatalf("a Welcome can be used with %s", what)
	}
}

func TestC21(t *testing.T) {
	run(t, 1, "a Welcome for at least two invitees was tried with foreign or mixed key packages", func(c *Case) {
		w := c.populated(2, 10)
		for n := c.Int("rounds", 1, 2); n > 0; n-- {
			var invs []Invitee
			var refs []mls.KeyPackageRef
			for k := c.many("batch", 1, 6, 25); k > 0; k-- {
				inv := w.invitee(60)
				invs = append(invs, inv)
				kp := w.goKP(inv.kp())
				refs = append(refs, w.checkRef(kp, inv.kp()))
			}
			for i, a := range refs {
				for j, b := range refs {
					if a.Equal(b) != (i == j) {
						c.Fatalf("references %d and %d: Equal is %v", i, j, a.Equal(b))
					}
				}
			}
			wel, proceed := w.address(invs)
			raw := wel.Bytes()
			again, err := mls.UnmarshalWelcome(bytes.Clone(raw))
			c.must(err, "UnmarshalWelcome")
			w.checkRefs("the Welcome", wel.NewMembers(), invs)
			w.checkRefs("the decoded Welcome", again.NewMembers(), invs)

			var gos []*GoMember
			for _, inv := range invs {
				if inv.Go != nil {
					gos = append(gos, inv.Go)
				}
			}
			any := func(label string) *GoMember { return gos[c.Int(label, 0, len(gos)-1)] }
			for k := c.Int("attempts", 1, 6); k > 0; k-- {
				use := wel
				if c.Bool("decoded") {
					use = again
				}
				kind := c.Int("attempt", 0, 7)
				if len(gos) == 0 && kind > 0 {
					continue
				}
				switch kind {
				case 0: // a stranger
					w.shut("a key package that was not invited", use, w.newGo().KPP)
				case 1: // a stranger that has the private keys of an invitee
					x, s := *any("invitee").KPP, w.newGo().KPP
					s.Private = x.Private
					w.shut("the key package of a stranger and the keys of an invitee", use, s)
				case 2: // an invitee with the keys of a stranger or of another invitee
					x := *any("invitee").KPP
					y := w.newGo().KPP
					if o := any("other"); o.KPP.Public.Bytes() != nil && !bytes.Equal(o.KPP.Private.InitKey, x.Private.InitKey) && c.Bool("of another invitee") {
						y = o.KPP
						c.nontrivial()
					}
					x.Private.InitKey = y.Private.InitKey
					if c.Bool("all keys") {
						x.Private = y.Private
					}
					w.shut("the private init key of another", use, &x)
				case 3: // a wrong init key
					x := *any("invitee").KPP
					bad := flip(c, x.Private.InitKey)
					if pub, err := w.S.KEMPub(bad); err == nil && bytes.Equal(pub, w.initKey(&x)) {
						continue // the same key
					}
					x.Private.InitKey = bad
					w.shut("a changed private init key", use, &x)
				case 4: // the encryption key instead of the init key
					x := *any("invitee").KPP
					x.Private.InitKey = x.Private.EncryptionKey
					w.shut("the encryption key as init key", use, &x)
				case 5: // another key package of the same client
					x := any("invitee")
					id := x.KP.Leaf.Cred.Identity
					y, err := mls.GenerateKeyPairPackage(w.CS, mls.NewBasicCredential(id))
					c.must(err, "GenerateKeyPairPackage")
					w.shut("another key package of the same identity", use, y)
					// the same keys in another key package
					twin := x.KP.Clone()
					twin.Leaf.NotAfter--
					twin.Leaf.SignWith(w.S, x.sigPriv(), nil, 0)
					twin.SignWith(w.S, x.sigPriv())
					tk := w.goKP(twin)
					if r := w.checkRef(tk, twin); r.Equal(refs[0]) {
						c.Fatalf("different key packages have the same reference")
					}
					w.shut("another key package with the same keys", use, &mls.KeyPairPackage{Public: *tk, Private: x.KPP.Private})
				case 6: // changed references
					x, err := ref.ParseWelcomeMsg(raw)
					c.must(err, "Welcome")
					i := c.Int("entry", 0, len(invs)-1)
					if invs[i].Go == nil {
						continue
					}
					name := ""
					name, x.Secrets[i].Ref = mangle(c, x.Secrets[i].Ref)
					w.op("reference %d: %s", i, name)
					y, err := mls.UnmarshalWelcome(ref.Message(ref.WireWelcome, ref.Bytes(x)))
					if err != nil {
						continue
					}
					if got := y.NewMembers(); !bytes.Equal(got[i], x.Secrets[i].Ref) || got[i].Equal(refs[i]) {
						c.Fatalf("NewMembers does not return the references of the Welcome")
					}
					w.shut("a reference that is "+name, y, invs[i].Go.KPP)
					for j, inv := range invs {
						if j != i && inv.Go != nil {
							_, err := mls.GroupFromWelcome(y, inv.Go.KPP)
							w.must(err, "invitee %d cannot join because the reference of %d is wrong", j, i)
							c.nontrivial()
						}
					}
				case 7: // removed, exchanged and moved entries
					x, err := ref.ParseWelcomeMsg(raw)
					c.must(err, "Welcome")
					if len(invs) < 2 {
						continue
					}
					i := c.Int("entry", 0, len(invs)-1)
					j := (i + c.Int("other", 1, len(invs)-1)) % len(invs)
					bad := map[int]bool{}
					switch c.Int("entries", 0, 2) {
					case 0:
						w.op("entry %d removed", i)
						x.Secrets = append(x.Secrets[:i:i], x.Secrets[i+1:]...)
						bad[i] = true
					case 1:
						w.op("references %d and %d exchanged", i, j)
						x.Secrets[i].Ref, x.Secrets[j].Ref = x.Secrets[j].Ref, x.Secrets[i].Ref
						bad[i], bad[j] = true, true
					case 2:
						w.op("entries %d and %d moved", i, j)
						x.Secrets[i], x.Secrets[j] = x.Secrets[j], x.Secrets[i]
					}
					y, err := mls.UnmarshalWelcome(ref.Message(ref.WireWelcome, ref.Bytes(x)))
					c.must(err, "UnmarshalWelcome")
					for k, inv := range invs {
						if inv.Go == nil {
							continue
						}
						if bad[k] {
							w.shut("an entry that is not the invitee's", y, inv.Go.KPP)
						} else {
							_, err := mls.GroupFromWelcome(y, inv.Go.KPP)
							w.must(err, "invitee %d cannot join although its entry is right", k)
						}
						c.nontrivial()
					}
				}
			}
			// the intended use works after all that
			proceed()
			w.allInSync()
		}
	})
}

// initKey returns the public init key of a key package.
func (w *World) initKey(x *mls.KeyPairPackage) []byte { return w.parseGoKP(&x.Public).InitKey }

// TestC21Equal: comparisons of references and group ids.
func TestC21Equal(t *testing.T) {
	run(t, 1, "two references or ids of different content or length were compared", func(c *Case) {
		a := c.Bytes("a", 200)
		b := bytes.Clone(a)
		name := "equal"
		if c.Int("different", 0, 4) > 0 {
			name, b = mangle(c, a)
		}
		c.op("%s and %s: %s", short(a), short(b), name)
		want := bytes.Equal(a, b)
		if !want {
			c.nontrivial()
		}
		ra, rb := mls.KeyPackageRef(a), mls.KeyPackageRef(b)
		if ra.Equal(rb) != want || rb.Equal(ra) != want {
			c.Fatalf("KeyPackageRef.Equal is wrong: %s", name)
		}
		ga, gb := mls.GroupID(a), mls.GroupID(b)
		if ga.Equal(gb) != want || gb.Equal(ga) != want {
			c.Fatalf("GroupID.Equal is wrong: %s", name)
		}
	})
}

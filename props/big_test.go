package props

import (
	"bytes"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// big draws a number of members that few groups have.
func (c *Case) big() int {
	var n int
	switch c.weighted("big kind", 2, 2, 1) {
	case 0:
		n = c.Int("big", 70, 140)
	case 1:
		n = pick(c, "big", 126, 127, 128, 254, 255, 256, 257)
	case 2:
		n = c.Int("big", 258, 530)
	}
	c.class("at least %d members", n/64*64)
	return n
}

// messages sends many messages of one member in one epoch.
func (w *World) messages(gm *GoMember, n int) {
	w.op("go member %d sends %d messages", gm.Leaf, n)
	for ; n > 0; n-- {
		w.checkSend(gm)
	}
}

// TestC01Big has one member invite very many, few of whom are online.
func TestC01Big(t *testing.T) {
	run(t, 1, "members of a group of at least 64 exchanged messages after two invitations", func(c *Case) {
		w := &crowd{Case: c, cs: mls.CipherSuite(c.suite().ID)}
		g, err := mls.CreateGroup(c.Bytes("group id", 300), w.kpp())
		c.must(err, "CreateGroup")
		w.gs = []*mls.Group{g}
		for _, n := range []int{c.big(), c.Int("second batch", 1, 150)} {
			by := c.Int("inviter", 0, len(w.gs)-1)
			online := map[int]bool{n - 1: true, c.Int("online", 0, n-1): true, c.Int("online", 0, n-1): true}
			var kps []mls.KeyPackage
			kpps := map[int]*mls.KeyPairPackage{}
			for i := 0; i < n; i++ {
				k := w.kpp()
				if kps = append(kps, k.Public); online[i] {
					kpps[i] = k
				}
			}
			c.op("member %d invites %d", by, n)
			wel, commit, err := w.gs[by].CreateWelcome(kps)
			c.must(err, "CreateWelcome")
			for i, g := range w.gs {
				_, err := g.UnmarshalAndProcessMessage(bytes.Clone(commit))
				c.must(err, "member %d cannot process the commit", i)
			}
			wel, err = mls.UnmarshalWelcome(wel.Bytes())
			c.must(err, "UnmarshalWelcome")
			for i := range n {
				if online[i] {
					g, err := mls.GroupFromWelcome(wel, kpps[i])
					c.must(err, "invitee %d of %d cannot join", i, n)
					w.gs = append(w.gs, g)
				}
			}
			for i := range w.gs {
				w.say(i, w.payload(c.rnd.IntN(60)))
			}
		}
		c.nontrivial()
	})
}

// TestC02Big has go members of large groups make invitations and messages.
func TestC02Big(t *testing.T) {
	run(t, 1, "a member of a group of at least 64 sent many messages and a large invitation", func(c *Case) {
		w := c.world()
		w.Plain, w.Strict, w.Sparse = true, true, 60
		var gm *GoMember
		if c.Bool("start") {
			gm = w.startGo()
		} else {
			w.startRef()
			w.batch(0, c.Int("members", 1, 140), 1, c.Bool("path"))
			gm = w.Go[w.goLeaves()[0]]
		}
		w.messages(gm, c.many("messages", 1, 300, 1200))
		w.largeInvite(gm.Leaf, c.big())
		gos := w.goLeaves()
		gm = w.Go[gos[len(gos)-1]]
		w.messages(gm, c.Int("messages", 1, 300))
		w.largeInvite(gm.Leaf, c.Int("second batch", 1, 40))
		data := w.payload(c.Int("huge", 60000, 3<<20))
		raw, err := gm.G.CreateApplicationMessage(bytes.Clone(data))
		c.must(err, "CreateApplicationMessage of %d bytes", len(data))
		o, err := w.open(raw)
		c.must(err, "message of %d bytes", len(data))
		if !bytes.Equal(o.AC.Content.App, data) {
			c.Fatalf("message of %d bytes holds %d bytes or others", len(data), len(o.AC.Content.App))
		}
		id := w.payload(c.Int("identity", 60000, 300000))
		kpp, err := mls.GenerateKeyPairPackage(w.CS, mls.NewBasicCredential(bytes.Clone(id)))
		c.must(err, "GenerateKeyPairPackage with %d bytes of identity", len(id))
		c.checkGenerated(w.S, kpp, id)
		c.nontrivial()
	})
}

// largeInvite lets a go member invite many, the last being a go client.
func (w *World) largeInvite(by uint32, n int) {
	var invs []Invitee
	for i := 1; i < n; i++ {
		invs = append(invs, Invitee{Ref: w.plainRef()})
	}
	w.goInvite(by, append(invs, Invitee{Go: w.newGo()}))
}

// TestC03Big has long lists of proposals in large groups.
func TestC03Big(t *testing.T) {
	run(t, 1, "a commit with a path and a commit with many proposals were followed in a group of at least 64", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		w.batch(0, c.big(), c.Int("go members", 1, 3), c.Bool("path"))
		for k := c.Int("commits", 1, 3); k > 0; k-- {
			w.execute(&Plan{By: w.partner(), Path: true})
			if len(w.refLeaves()) < 20 {
				break
			}
			by := w.partner()
			pl := &Plan{By: by, Path: true}
			gone := 0
			for _, l := range w.refLeaves() {
				switch {
				case l == by:
				case c.rnd.IntN(3) == 0:
					pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: by})
					gone++
				case c.rnd.IntN(4) == 0:
					lf, sig := w.updateLeaf(l)
					pl.Items = append(pl.Items, w.propose(l, &ref.Proposal{Type: ref.PropUpdate, Update: lf}, sig))
				}
			}
			for n := c.Int("added", 0, gone); n > 0; n-- {
				inv := Invitee{Ref: w.plainRef()}
				pl.Items = append(pl.Items, inv.item(by))
				pl.Invitees = append(pl.Invitees, inv)
			}
			c.class("at least %d proposals", len(pl.Items)/64*64)
			w.execute(pl)
		}
		w.closing()
		c.nontrivial()
	})
}

// TestC04Big has clients join large groups anywhere.
func TestC04Big(t *testing.T) {
	run(t, 1, "clients joined a group of at least 64 and followed a path", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		w.batch(0, c.big(), c.Int("go members", 0, 2), c.Bool("path"))
		for k := c.Int("rounds", 1, 3); k > 0; k-- {
			ms := w.refLeaves()
			by := ms[c.Int("committer", 0, len(ms)-1)]
			if c.Bool("removals") {
				pl := &Plan{By: by, Path: true}
				i := c.Int("first", 0, len(ms)-1)
				for _, l := range ms[i:min(len(ms), i+c.Int("run", 1, 40))] {
					if l != by {
						pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: by})
					}
				}
				w.execute(pl)
			}
			w.batch(by, c.Int("joiners", 1, 60), c.Int("go joiners", 1, 2), c.Bool("path"))
			w.execute(&Plan{By: w.partner(), Path: true})
		}
		w.closing()
		c.nontrivial()
	})
}

// TestC14Many looks for keys used twice among many messages of one epoch.
func TestC14Many(t *testing.T) {
	run(t, 1, "a member sent at least 100 messages in one epoch", func(c *Case) {
		w := c.populated(1, 6)
		w.Strict = true
		gos := w.goLeaves()
		gm := w.Go[gos[c.Int("speaker", 0, len(gos)-1)]]
		n := c.Int("messages", 2, 400)
		if c.Chance("very many", 4) {
			n = c.Int("messages", 400, 1500)
		}
		w.messages(gm, n)
		w.offer(gm.Leaf)
		w.messages(gm, c.Int("more", 1, 40))
		if n >= 100 {
			c.nontrivial()
		}
	})
}

// TestC18Big has messages of members anywhere in large groups.
func TestC18Big(t *testing.T) {
	run(t, 1, "messages were delivered in a group of at least 64", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		w.batch(0, c.big(), c.Int("go members", 1, 2), c.Bool("path"))
		for n := c.Int("messages", 10, 60); n > 0; n-- {
			x := w.letter(w.someLeaf("sender"))
			for _, l := range w.goLeaves() {
				got, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(x.raw))
				w.must(err, "go member %d rejects the message of leaf %d with %s", l, x.by, x.desc)
				if !bytes.Equal(got, x.data) {
					w.Fatalf("go member %d reads %s instead of %s", l, short(got), x.desc)
				}
			}
		}
		w.allInSync()
		c.nontrivial()
	})
}

// TestC20Big has a commit refer to a large part of very many proposals.
func TestC20Big(t *testing.T) {
	run(t, 1, "a commit referred to at least 64 proposals", func(c *Case) {
		w := c.world()
		w.Plain = true
		w.startRef()
		w.batch(0, c.Int("members", 3, 60), c.Int("go members", 1, 2), c.Bool("path"))
		var items []ref.Item
		invs := map[*ref.KeyPackage]Invitee{}
		for n := c.big(); n > 0; n-- {
			inv := Invitee{Ref: w.plainRef()}
			invs[inv.Ref.KP] = inv
			it := inv.item(w.someLeaf("proposer"))
			items = append(items, w.propose(it.Sender, it.Prop, it.SigPriv))
		}
		refs := w.refLeaves()
		pl := &Plan{By: refs[c.Int("committer", 0, len(refs)-1)], Path: c.Bool("path")}
		perm := c.rnd.Perm(len(items))
		if c.Bool("in order") {
			for i := range perm {
				perm[i] = i
			}
		}
		keep := pick(c, "kept", 100, 90, 50, 10)
		for _, i := range perm {
			if c.rnd.IntN(100) < keep {
				pl.Items = append(pl.Items, items[i])
				pl.Invitees = append(pl.Invitees, invs[items[i].Prop.Add])
			}
		}
		if pl.Items == nil {
			pl.Path = true
		}
		w.execute(pl)
		if len(pl.Items) >= 64 {
			c.nontrivial()
		}
		w.closing()
	})
}

// TestC21Big has Welcomes for very many.
func TestC21Big(t *testing.T) {
	run(t, 1, "a Welcome for at least 64 was used by one of them and refused to a stranger", func(c *Case) {
		w := c.populated(1, 6)
		w.Plain, w.Sparse = true, 60
		n := c.big()
		at := map[int]bool{n - 1: true, c.Int("at", 0, n-1): true}
		var invs []Invitee
		for i := range n {
			inv := Invitee{}
			if at[i] {
				inv.Go = w.newGo()
			} else {
				inv.Ref = w.plainRef()
			}
			invs = append(invs, inv)
		}
		wel, proceed := w.address(invs)
		again, err := mls.UnmarshalWelcome(wel.Bytes())
		c.must(err, "UnmarshalWelcome")
		w.checkRefs("the Welcome", wel.NewMembers(), invs)
		w.checkRefs("the decoded Welcome", again.NewMembers(), invs)
		w.shut("a key package that was not invited", again, w.newGo().KPP)
		proceed()
		c.nontrivial()
	})
}

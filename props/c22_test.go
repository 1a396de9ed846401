package props

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

const (
	day         = 24 * 3600
	maxLifetime = 90 * day
)

// simulated runs f with a simulated clock.
func simulated(t *testing.T, f func()) {
	var p any
	synctest.Test(t, func(*testing.T) {
		defer func() { p = recover() }()
		time.Sleep(1500 * time.Millisecond)
		f()
	})
	if p != nil {
		panic(p)
	}
}

func clock() uint64 { return uint64(time.Now().Unix()) }

// alive tells whether a lifetime is acceptable at the current time. It is
// unsure close to the limits.
func alive(notBefore, notAfter uint64) (ok, sure bool) {
	now := clock()
	if notAfter <= notBefore || notAfter-notBefore > maxLifetime {
		return false, true
	}
	near := func(a uint64) bool { return a <= now+2 && now <= a+2 }
	return notBefore < now && now < notAfter, !near(notBefore) && !near(notAfter)
}

// expired lists the leaves of a tree whose lifetime is not acceptable now.
func expired(t *ref.Tree) (out []uint32, sure bool) {
	sure = true
	for _, l := range t.Members() {
		if x := t.Leaf(l); x.Source == ref.SourceKeyPackage {
			ok, s := alive(x.NotBefore, x.NotAfter)
			sure = sure && s
			if !ok {
				out = append(out, l)
			}
		}
	}
	return out, sure
}

// pass lets time pass.
func (w *World) pass() {
	var d int
	switch w.weighted("wait", 3, 3, 2) {
	case 0:
		d = w.Int("seconds", 0, 600)
	case 1:
		d = w.Int("hours", 0, 24*12) * 3600
	case 2: // close to the end of somebody's lifetime
		ms := w.members()
		x := w.G.Tree.Leaf(ms[w.Int("whose", 0, len(ms)-1)])
		if now := clock(); x.Source == ref.SourceKeyPackage && x.NotAfter > now+10 {
			d = int(x.NotAfter-now) + pick(w.Case, "side", -10, -5, 5, 10)
		}
	}
	w.wait(d)
}

func (w *World) wait(seconds int) {
	if seconds > 0 {
		w.op("%d seconds pass", seconds)
		time.Sleep(time.Duration(seconds) * time.Second)
	}
}

// lifetimes draws the limits of a lifetime.
func (c *Case) lifetimes() (name string, notBefore, notAfter uint64) {
	now := clock()
	a := uint64(c.Int("age", 10, 80*day))
	switch c.Int("lifetime", 0, 12) {
	case 0, 1:
		return "alive", now - a, now + min(uint64(c.Int("rest", 10, 80*day)), maxLifetime-a)
	case 2:
		return "just as long as allowed", now - a, now - a + maxLifetime
	case 3:
		return "one second too long", now - a, now - a + maxLifetime + 1
	case 4:
		return "too long", now - a, now + uint64(c.Int("rest", maxLifetime+1, 50*365*day))
	case 5:
		return "not yet alive", now + uint64(c.Int("ahead", 10, 80*day)), now + 85*day
	case 6:
		return "expired", now - 85*day, now - a
	case 7:
		return "inverted", now + uint64(c.Int("ahead", 10, 80*day)), now - a
	case 8:
		return "empty", now - a, now - a
	case 9:
		return "all time", 0, math.MaxUint64
	case 10:
		return "never ending", now - a, pick[uint64](c, "end", math.MaxUint64, math.MaxInt64, math.MaxInt64+1, 1<<62, math.MaxUint64-a, math.MaxUint64-62135596800, math.MaxInt64-62135596800, math.MaxInt64-62135596799)
	case 11:
		return "inverted at the end of time", pick[uint64](c, "begin", math.MaxUint64, math.MaxInt64, math.MaxInt64+1, 1<<62, math.MaxUint64-a, math.MaxInt64-62135596799), now + a
	}
	// a duration or an instant that overflows
	x := pick[uint64](c, "wrap", math.MaxUint64/1000000000, math.MaxInt64/1000000000, math.MaxUint32, math.MaxInt32, 1<<63)
	return "wrapping", now - a, now - a + x + uint64(c.Int("more", 0, 100*day))
}

// tryEntry lets a library client join and checks the outcome against the
// lifetimes in the tree.
func (w *World) tryEntry(gm *GoMember, raw []byte, leaf uint32, tree *ref.Tree) bool {
	bad, sure := expired(tree)
	if !sure {
		w.wait(6)
		bad, sure = expired(tree)
	}
	wel, err := mls.UnmarshalWelcome(bytes.Clone(raw))
	w.must(err, "UnmarshalWelcome")
	g, err := mls.GroupFromWelcome(wel, gm.KPP)
	if !sure {
		return false
	}
	w.count("joins tried")
	if len(bad) > 0 {
		if err == nil {
			w.Fatalf("joined although the lifetime of leaves %v is not acceptable", bad)
		}
		w.class("join refused")
		w.nontrivial()
		return false
	}
	w.must(err, "cannot join although all lifetimes are acceptable")
	gm.G, gm.Leaf = g, leaf
	return true
}

func TestC22(t *testing.T) {
	run(t, 1, "an addition or a join was refused because of a lifetime, or worked in the last seconds of one", func(c *Case) {
		simulated(t, func() { c.lifetimeCase() })
	})
}

func (c *Case) lifetimeCase() {
	w := c.populated(1, 8)
	opts := GenOpts{MaxAdd: 1, MaxRemove: 1, MaxLeaves: 14, KeepGo: 1, KeepRef: 2}
	var shelf []*GoMember // key packages generated earlier
	for n := c.Int("steps", 2, 10); n > 0; n-- {
		switch c.weighted("step", 3, 3, 5, 1, 2, 2) {
		case 0:
			w.pass()
		case 1:
			before := clock()
			gm := w.newGo()
			l := gm.KP.Leaf
			w.op("key package generated, valid for %d seconds", l.NotAfter-l.NotBefore)
			if l.NotBefore > before || l.NotAfter <= before+20*day || l.NotAfter-l.NotBefore > maxLifetime {
				c.Fatalf("a new key package has lifetime %d to %d at %d", l.NotBefore, l.NotAfter, before)
			}
			shelf = append(shelf, gm)
			c.wait(pick(c, "delay", 2, 0, 1))
		case 2: // add somebody, by a commit of the reference or by an invitation
			var inv Invitee
			name := ""
			if len(shelf) > 0 && c.Bool("from the shelf") {
				i := c.Int("which", 0, len(shelf)-1)
				inv.Go = shelf[i]
				shelf = slices.Delete(shelf, i, i+1)
				name = "generated earlier"
				if l := inv.Go.KP.Leaf; c.Bool("at the limit") && l.NotAfter > clock()+20 {
					w.wait(int(l.NotAfter-clock()) + pick(c, "side", -5, 5))
				}
			} else {
				inv.Ref = w.plainRef()
				l := &inv.Ref.KP.Leaf
				name, l.NotBefore, l.NotAfter = c.lifetimes()
				inv.Ref.sign(w.S)
			}
			w.addAt(name, inv, opts)
		case 3: // the group goes on no matter what expired
			pl := w.genCommit(GenOpts{MaxRemove: 1, MaxLeaves: 14, KeepGo: 1, KeepRef: 2})
			w.op("%s", pl)
			w.follow(w.G.Commit(w.opts(pl)), pl)
		case 4: // a library client wants to join
			gm := w.newGo()
			c.wait(2)
			inv := Invitee{Go: gm}
			refs := w.refLeaves()
			by := refs[c.Int("committer", 0, len(refs)-1)]
			pl := &Plan{By: by, Items: []ref.Item{inv.item(by)}, Path: c.Bool("path")}
			w.op("%s", pl)
			res := w.G.Commit(w.opts(pl))
			raw := res.Welcome(&ref.WelcomeOpts{Signer: by})
			w.follow(res, pl)
			w.G.Sig[res.Added[0]] = gm.sigPriv()
			if c.Chance("wait before joining", 3) {
				w.pass()
			}
			if w.tryEntry(gm, raw, res.Added[0], res.G.Tree) {
				w.Go[res.Added[0]] = gm
				w.inSync(gm)
			}
		case 5: // members renew their leaves
			refs := w.refLeaves()
			by := refs[c.Int("committer", 0, len(refs)-1)]
			pl := &Plan{By: by, Path: true}
			for _, l := range refs {
				if l != by && c.Bool("renew") {
					lf, sig := w.updateLeaf(l)
					pl.Items = append(pl.Items, w.propose(l, &ref.Proposal{Type: ref.PropUpdate, Update: lf}, sig))
				}
			}
			w.op("%s", pl)
			w.follow(w.G.Commit(w.opts(pl)), pl)
		}
	}
	// whatever happened, those in the group understand each other
	for _, l := range w.goLeaves() {
		w.inSync(w.Go[l])
	}
	pl := &Plan{By: w.refLeaves()[0], Path: true}
	w.follow(w.G.Commit(w.opts(pl)), pl)
}

func (c *Case) wait(seconds int) { time.Sleep(time.Duration(seconds) * time.Second) }

// addAt adds a client with a certain lifetime now.
func (w *World) addAt(name string, inv Invitee, o GenOpts) {
	c := w.Case
	lf := inv.kp().Leaf
	if _, sure := alive(lf.NotBefore, lf.NotAfter); !sure {
		w.wait(6)
	}
	ok, sure := alive(lf.NotBefore, lf.NotAfter)
	if !sure {
		return
	}
	now := clock()
	desc := fmt.Sprintf("lifetime from %d to %d relative to now (%s)", int64(lf.NotBefore-now), int64(lf.NotAfter-now), name)
	w.op("%s", desc)
	c.class("lifetime %s", name)
	if !ok || lf.NotAfter-now < 20 {
		c.nontrivial()
	}
	gos := w.goLeaves()
	if len(gos) == 0 {
		return
	}
	if c.Bool("invitation") {
		by := gos[c.Int("inviter", 0, len(gos)-1)]
		kp := w.goKP(inv.kp())
		wel, raw, err := w.Go[by].G.CreateWelcome([]mls.KeyPackage{*kp})
		if !ok {
			if err == nil {
				c.Fatalf("invitation issued: %s", desc)
			}
			c.class("invitation refused")
			for _, l := range gos {
				w.inSync(w.Go[l])
			}
			return
		}
		w.must(err, "CreateWelcome: %s", desc)
		op, err := w.G.Unprotect(raw)
		w.must(err, "commit")
		res, err := w.G.Follow(op, nil)
		w.must(err, "commit")
		if c.Chance("wait before processing", 3) && lf.NotAfter > now+10 && lf.NotAfter < now+120*day {
			w.wait(int(lf.NotAfter-now) + pick(c, "side", -5, 5))
			if good, _ := alive(lf.NotBefore, lf.NotAfter); !good {
				w.refuseAll("a commit that adds an expired key package", raw)
				c.nontrivial()
				return
			}
		}
		w.deliver("commit of go member", raw)
		res.G.Sig[res.Added[0]] = inv.sig()
		w.G, w.Pend = res.G, nil
		w.enter(inv, wel.Bytes(), res)
		return
	}
	pl := w.genCommit(o)
	it := inv.item(pl.By)
	if c.Bool("by reference") {
		by := w.someLeaf("proposer")
		var raw []byte
		it, raw = w.makeProposal(by, it.Prop, it.SigPriv)
		for _, l := range gos {
			_, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(raw))
			if ok {
				w.must(err, "proposal: %s", desc)
			}
		}
	}
	pl.Items = append(pl.Items, it)
	if pl.Path || len(pl.Items) > 1 {
		pl.Path = pl.Path || needsPath(pl.Items)
	}
	w.op("%s", pl)
	res := w.G.Commit(w.opts(pl))
	if !ok {
		for _, l := range gos {
			if !slices.Contains(w.removedBy(pl), l) {
				w.refuse(w.Go[l], desc, res.Raw)
				w.inSync(w.Go[l])
			}
		}
		// the reference does not insist
		if c.Bool("never mind") {
			w.Go = map[uint32]*GoMember{}
			w.G, w.Pend = res.G, nil
			// somebody new would see the leaf
			gm := w.newGo()
			c.wait(2)
			x := Invitee{Go: gm}
			p2 := &Plan{By: pl.By, Items: []ref.Item{x.item(pl.By)}, Path: c.Bool("path")}
			res := w.G.Commit(w.opts(p2))
			w.G = res.G
			w.G.Sig[res.Added[0]] = gm.sigPriv()
			w.op("the reference goes on, and a client joins")
			raw := res.Welcome(&ref.WelcomeOpts{Signer: pl.By})
			if w.tryEntry(gm, raw, res.Added[0], res.G.Tree) {
				c.Fatalf("harness: joined after all")
			}
			// remove it again, and then the client can join
			p3 := &Plan{By: pl.By, Path: true}
			bad, _ := expired(w.G.Tree)
			if slices.Contains(bad, pl.By) {
				bad = nil
			}
			bad = append(bad, res.Added[0])
			slices.Sort(bad)
			for _, l := range slices.Compact(bad) {
				if l != pl.By {
					p3.Items = append(p3.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: pl.By})
				}
			}
			w.G = w.G.Commit(w.opts(p3)).G
			gm = w.newGo()
			c.wait(2)
			x = Invitee{Go: gm}
			p4 := &Plan{By: pl.By, Items: []ref.Item{x.item(pl.By)}, Path: true}
			for i := 0; i < 2; i++ {
				p4.Items = append(p4.Items, Invitee{Ref: w.plainRef()}.item(pl.By))
			}
			res = w.G.Commit(w.opts(p4))
			w.G = res.G
			w.G.Sig[res.Added[0]] = gm.sigPriv()
			w.op("it is removed, and another client joins")
			if w.tryEntry(gm, res.Welcome(&ref.WelcomeOpts{Signer: pl.By}), res.Added[0], res.G.Tree) {
				w.Go[res.Added[0]] = gm
				w.inSync(gm)
			}
		}
		return
	}
	w.follow(res, pl)
	if inv.Go != nil {
		w.G.Sig[res.Added[len(res.Added)-1]] = inv.sig()
	}
	w.enter(inv, res.Welcome(&ref.WelcomeOpts{Signer: pl.By}), res)
}

// enter lets the last one added join.
func (w *World) enter(inv Invitee, raw []byte, res *ref.Result) {
	if inv.Go == nil {
		return
	}
	leaf := res.Added[len(res.Added)-1]
	if w.Chance("join late", 4) {
		lf := inv.kp().Leaf
		if now := clock(); lf.NotAfter > now+10 {
			w.wait(int(lf.NotAfter-now) + pick(w.Case, "side", -5, 5))
		}
	}
	if w.tryEntry(inv.Go, raw, leaf, res.G.Tree) {
		w.Go[leaf] = inv.Go
		w.inSync(inv.Go)
	}
}

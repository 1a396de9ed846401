package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	ref "mlsref"
)

// crew is a fixed set of clients that can form several groups.
type crew struct {
	p0   *RefPkg
	invs []Invitee
}

// form creates a group of a crew; all members sit at the same leaves in each
// of its groups.
func (c *Case) form(w0 *World, cr *crew, gid []byte) *World {
	w := &World{Case: c, S: w0.S, CS: w0.CS, GID: gid, Go: map[uint32]*GoMember{}, Plain: w0.Plain}
	w.G = ref.NewGroup(w.S, gid, &cr.p0.KP.Leaf, cr.p0.Sig, nil)
	pl := &Plan{By: 0}
	for _, inv := range cr.invs {
		if inv.Go != nil {
			inv.Go = &GoMember{KPP: inv.Go.KPP, KP: inv.Go.KP}
		}
		pl.Invitees = append(pl.Invitees, inv)
		pl.Items = append(pl.Items, inv.item(0))
	}
	res := w.G.Commit(&ref.CommitOpts{By: 0, Items: pl.Items, Wire: ref.WirePublic})
	w.follow(res, pl)
	w.welcome(res, pl, &ref.WelcomeOpts{Signer: 0})
	return w
}

// something makes any message of the current epoch by any member. Commits are
// left uncommitted.
func (w *World) something() (string, []byte) {
	ms := w.members()
	by := ms[w.Int("sender", 0, len(ms)-1)]
	gm := w.Go[by]
	switch k := w.Int("something", 0, 3); {
	case gm != nil && k < 2:
		raw, err := gm.G.CreateApplicationMessage(w.payload(20))
		w.must(err, "CreateApplicationMessage")
		return "message of a library member", raw
	case gm != nil:
		return "commit of a library member", w.offer(by).raw
	case k == 0:
		return "message", w.G.AppMessage(by, w.payload(20), w.aad(), w.frame())
	case k == 1:
		l, _ := w.updateLeaf(by)
		raw, _ := w.G.ProposalMessage(by, &ref.Proposal{Type: ref.PropUpdate, Update: l}, w.wire(), w.aad(), w.frame())
		return "proposal", raw
	default:
		o := &ref.CommitOpts{By: by, Wire: w.wire(), Path: w.Bool("path"), AAD: w.aad(), Frame: w.frame()}
		if !o.Path || w.Bool("add") {
			o.Items = []ref.Item{Invitee{Ref: w.plainRef()}.item(by)}
		}
		return "commit", w.G.Commit(o).Raw
	}
}

// TestC13Siblings: groups of the same clients with the same keys.
func TestC13Siblings(t *testing.T) {
	run(t, 1, "messages of a sibling group in the same epoch were refused", func(c *Case) {
		w0 := c.world()
		w0.Plain = true
		cr := &crew{p0: w0.newRef()}
		for n := c.Int("library members", 1, 3); n > 0; n-- {
			cr.invs = append(cr.invs, Invitee{Go: w0.newGo()})
		}
		for n := c.Int("reference members", 1, 3); n > 0; n-- {
			cr.invs = append(cr.invs, Invitee{Ref: w0.newRef()})
		}
		gid := w0.GID
		var groups []*World
		for n := c.Int("groups", 2, 3); n > 0; n-- {
			id := gid
			if len(groups) > 0 {
				switch c.Int("id", 0, 3) {
				case 0:
					id = flip(c, gid)
				case 1:
					id = append(bytes.Clone(gid), 0)
				}
			}
			same := bytes.Equal(id, gid)
			c.op("group with id %s (same: %v)", short(id), same)
			if len(groups) > 0 && same {
				c.class("same group id")
			}
			groups = append(groups, c.form(w0, cr, id))
		}
		for n := c.Int("rounds", 1, 4); n > 0; n-- {
			from := groups[c.Int("from", 0, len(groups)-1)]
			name, raw := from.something()
			for _, to := range groups {
				if to == from {
					continue
				}
				c.op("%s in another group", name)
				to.refuseAll(name+" of another group", raw)
				to.refuseAll(name+" of another group, relabelled", relabel(raw, to.GID, to.G.Ctx.Epoch))
				if bytes.Equal(to.GID, from.GID) && to.G.Ctx.Epoch == from.G.Ctx.Epoch {
					c.nontrivial()
					c.class("same id and epoch: %s", name)
					if bytes.Equal(to.G.Ctx.CTH, from.G.Ctx.CTH) {
						c.class("even the same group context")
					}
				}
			}
			// move some group on
			if c.Bool("move on") {
				g := groups[c.Int("moves", 0, len(groups)-1)]
				g.execute(g.genCommit(GenOpts{MaxAdd: 1, MaxLeaves: 10, KeepGo: 9, KeepRef: 9}))
			}
		}
		for _, g := range groups {
			g.allInSync()
			g.closing()
		}
	})
}

// TestC13Epochs: replays, forks, early and late messages.
func TestC13Epochs(t *testing.T) {
	run(t, 1, "replayed commits, messages of a fork, early messages and proposals of another epoch were refused", func(c *Case) {
		w := c.populated(2, 10)
		var past [][]byte
		kinds := map[string]bool{}
		refuse := func(kind string, raw []byte) {
			kinds[kind] = true
			c.class("%s", kind)
			c.op("%s", kind)
			w.refuseAll(kind, raw)
		}
		for n := c.Int("rounds", 1, 4); n > 0; n-- {
			base := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 1, GoBias: 30, MaxLeaves: 14, KeepGo: 1, KeepRef: 2})
			// proposals received now, to be committed in the next epoch
			ls := w.refLeaves()
			var stale []ref.Item
			var staleRaw [][]byte
			for k := c.Int("stale proposals", 0, 2); k > 0; k-- {
				by := ls[c.Int("proposer", 0, len(ls)-1)]
				p := &ref.Proposal{Type: ref.PropAdd, Add: w.plainRef().KP}
				it, raw := w.makeProposal(by, p, nil)
				w.op("proposal by %d", by)
				w.deliver("proposal", raw)
				stale = append(stale, it)
				staleRaw = append(staleRaw, raw)
			}
			for k := c.Int("messages", 0, 2); k > 0; k-- {
				_, raw := w.something()
				past = append(past, raw)
			}
			// a fork: another commit of the same epoch
			fork := w.G.Commit(w.opts(&Plan{By: ls[0], Path: true}))
			o := w.opts(base)
			w.op("%s", base)
			res := w.G.Commit(o)
			// early messages
			next := *w
			next.G = res.G
			next.Go = nil
			early := next.G.AppMessage(base.By, w.payload(12), nil, nil)
			refuse("message of the next epoch", early)
			refuse("message of the next epoch, relabelled", relabel(early, w.GID, w.G.Ctx.Epoch))
			ec := res.G.Commit(&ref.CommitOpts{By: base.By, Path: true, Wire: w.wire()})
			refuse("commit of the next epoch", ec.Raw)
			refuse("commit of the next epoch, relabelled", relabel(ec.Raw, w.GID, w.G.Ctx.Epoch))
			forked := fork.G.AppMessage(ls[0], w.payload(12), nil, nil)
			refuse("message of a fork that nobody took", forked)

			w.follow(res, base)
			w.welcome(res, base, nil)

			refuse("the commit again", res.Raw)
			refuse("the commit again, relabelled", relabel(res.Raw, w.GID, w.G.Ctx.Epoch))
			refuse("the commit of a fork", fork.Raw)
			refuse("message of a fork", forked)
			fc := fork.G.Commit(&ref.CommitOpts{By: ls[0], Path: true, Wire: w.wire()})
			refuse("the next commit of a fork", fc.Raw)
			for _, raw := range past {
				refuse("message of an earlier epoch", raw)
				refuse("message of an earlier epoch, relabelled", relabel(raw, w.GID, w.G.Ctx.Epoch))
			}
			for _, l := range w.goLeaves() {
				got, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(early))
				c.must(err, "a message that came too early is refused in its epoch")
				if len(got) != 12 {
					c.Fatalf("message yields %x", got)
				}
			}
			for i, it := range stale {
				if c.Bool("resend") {
					refuse("proposal of the previous epoch", staleRaw[i])
					refuse("proposal of the previous epoch, relabelled", relabel(staleRaw[i], w.GID, w.G.Ctx.Epoch))
				}
				by := w.refLeaves()[0]
				x := &ref.CommitOpts{By: by, Items: []ref.Item{it}, Path: c.Bool("path"), Wire: w.wire()}
				refuse("commit of a proposal of the previous epoch", w.G.Commit(x).Raw)
			}
			past = append(past, res.Raw, fork.Raw)
			w.allInSync()
			if len(stale) > 0 {
				c.nontrivial()
			}
		}
		w.closing()
	})
}

// TestC13Senders: messages given to another sender.
func TestC13Senders(t *testing.T) {
	run(t, 1, "a message re-attributed to another member was refused", func(c *Case) {
		w := c.populated(3, 14)
		for n := c.Int("messages", 1, 8); n > 0; n-- {
			d := w.draft()
			good, _ := w.build(d, nil)
			ms := w.members()
			other := ms[c.Int("victim", 0, len(ms)-1)]
			if c.Chance("nobody", 5) {
				other = w.beyond(d.by)
			}
			if other == d.by {
				continue
			}
			var bad []byte
			if d.wire == ref.WirePublic {
				// with the right membership tag, which every member can make
				bd := &bend{sent: func(x *ref.Content) { x.Sender.Index = other }}
				if c.Chance("old tag", 4) {
					bd = &bend{}
					bd.frame.PubPost = func(m *ref.PubMsg) { m.Content.Sender.Index = other }
				}
				bad, _ = w.build(d, bd)
			} else {
				bd := &bend{}
				bd.frame.SD = func(s *ref.SenderData) { s.Leaf = other }
				if int(other) < len(w.G.Tree.Lf) && c.Bool("ratchet of the victim") {
					bd.frame.Key = func(uint32) uint32 { return other }
				}
				bad, _ = w.build(d, bd)
			}
			c.op("%s by %d attributed to %d", d.name, d.by, other)
			if bytes.Equal(bad, good) {
				continue
			}
			w.refuseAll("a message of another member", bad)
			c.class("%s wire %d", d.name, d.wire)
			c.nontrivial()
		}
		w.closing()
	})
}

// TestC13Headers: the group id and the epoch that a message names must be those
// of the group, whatever the message is signed and encrypted for.
func TestC13Headers(t *testing.T) {
	run(t, 1, "a message of a member that names another group or epoch was refused, and accepted with the right name", func(c *Case) {
		w := c.populated(2, 10)
		d := w.draft()
		w.op("honest: %s by %d", d.name, d.by)
		for n := c.Int("attempts", 1, 5); n > 0; n-- {
			bd := &bend{}
			var name string
			if c.Bool("group") {
				how, id := mangle(c, w.GID)
				name = "group id " + how
				bd.content = func(x *ref.Content) { x.GroupID = id }
				if c.Bool("signed so") {
					bd.context = func(x *ref.Context) { x.GroupID = id }
				}
			} else {
				e := w.G.Ctx.Epoch
				x := pick(c, "epoch", e+1, e-1, e+2, 0, 1, e^1<<8, e^1<<16, e^1<<32, e^1<<63, ^e)
				if x == e {
					x++
				}
				name = fmt.Sprintf("epoch %d instead of %d", x, e)
				bd.content = func(y *ref.Content) { y.Epoch = x }
				if c.Bool("signed so") {
					bd.context = func(y *ref.Context) { y.Epoch = x }
				}
			}
			raw, _ := w.build(d, bd)
			c.class("%s, wire %d: %s", propKind(d), d.wire, strings.Fields(name)[0])
			w.op("named: %s", name)
			w.refuseAll(d.name+" with "+name, raw)
		}
		w.allInSync()
		w.accept(d)
		c.nontrivial()
	})
}

func propKind(d *draft) string {
	return []string{ref.ContentApp: "application", ref.ContentProposal: "proposal", ref.ContentCommit: "commit"}[d.ct]
}

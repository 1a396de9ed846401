package props

import (
	"bytes"
	"slices"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// sent is a recorded message.
type sent struct {
	epoch uint64
	kind  string
	raw   []byte
	data  []byte
	by    uint32
}

// log is everything that was ever sent in a group.
type record struct {
	w      *World
	msgs   []sent
	epochs map[uint64]*ref.Group
	// frozen are library states that do not move any more, with their epoch
	frozen []*GoMember
	at     map[*GoMember]uint64
}

func newRecord(w *World) *record {
	r := &record{w: w, epochs: map[uint64]*ref.Group{}, at: map[*GoMember]uint64{}}
	r.epochs[w.G.Ctx.Epoch] = w.G
	return r
}

func (r *record) note(kind string, by uint32, raw, data []byte) {
	r.msgs = append(r.msgs, sent{r.w.G.Ctx.Epoch, kind, bytes.Clone(raw), bytes.Clone(data), by})
}

// chatter lets members of both kinds talk.
func (r *record) chatter(n int) {
	w := r.w
	for ; n > 0; n-- {
		ms := w.members()
		by := ms[w.Int("speaker", 0, len(ms)-1)]
		data := append([]byte("secret text "), w.payload(w.Int("length", 8, 40))...)
		if gm := w.Go[by]; gm != nil {
			raw, err := gm.G.CreateApplicationMessage(bytes.Clone(data))
			w.must(err, "CreateApplicationMessage")
			r.note("message of a library member", by, raw, data)
		} else {
			r.note("message", by, w.G.AppMessage(by, data, w.aad(), w.frame()), data)
		}
	}
	ms := w.refLeaves()
	if w.Chance("proposal", 3) {
		by := ms[w.Int("proposer", 0, len(ms)-1)]
		raw, _ := w.G.ProposalMessage(by, &ref.Proposal{Type: ref.PropRemove, Removed: by}, w.wire(), nil, w.frame())
		r.note("proposal", by, raw, nil)
	}
}

// relabel changes epoch (and group) in the cleartext header of a message.
func relabel(raw []byte, gid []byte, epoch uint64) []byte {
	wire, body, err := ref.OpenMessage(raw)
	if err != nil {
		panic(err)
	}
	switch wire {
	case ref.WirePrivate:
		m, err := strict[ref.PrivMsg](body)
		if err != nil {
			panic(err)
		}
		m.Epoch, m.GroupID = epoch, gid
		return ref.Message(wire, ref.Bytes(m))
	case ref.WirePublic:
		m, err := strict[ref.PubMsg](body)
		if err != nil {
			panic(err)
		}
		m.Content.Epoch, m.Content.GroupID = epoch, gid
		return ref.Message(wire, ref.Bytes(m))
	}
	return raw
}

// noAccess checks that a library state of some epoch gets nothing out of the
// messages of other epochs.
func (r *record) noAccess(gm *GoMember, epoch uint64, what string) {
	w := r.w
	for _, m := range r.msgs {
		if m.epoch == epoch {
			continue
		}
		for _, raw := range [][]byte{m.raw, relabel(m.raw, w.GID, epoch)} {
			got, err := gm.G.UnmarshalAndProcessMessage(bytes.Clone(raw))
			w.count("attempts")
			if err == nil || got != nil {
				w.Fatalf("%s with the state of epoch %d: %s of epoch %d gives %q, error %v", what, epoch, m.kind, m.epoch, got, err)
			}
		}
		w.class("%s: %s", what, m.kind)
	}
}

// TestC12: all states against all messages.
func TestC12(t *testing.T) {
	run(t, 1, "a removed member and a later joiner both tried messages of epochs that are not theirs", func(c *Case) {
		w := c.mixed(1, 10)
		r := newRecord(w)
		r.chatter(c.Int("messages", 1, 3))
		removed, joined := 0, 0
		for n := c.Int("epochs", 2, 6); n > 0; n-- {
			before := map[uint32]*GoMember{}
			for l, gm := range w.Go {
				before[l] = gm
			}
			// a library member goes offline: it stays a member, its state is
			// kept, and it hears nothing any more
			if gos := w.goLeaves(); len(gos) > 1 && c.Chance("offline", 3) {
				l := gos[c.Int("offline member", 0, len(gos)-1)]
				gm := w.Go[l]
				delete(w.Go, l)
				delete(before, l)
				r.frozen = append(r.frozen, gm)
				r.at[gm] = w.G.Ctx.Epoch
				w.op("library member %d goes offline", l)
			}
			epoch := w.G.Ctx.Epoch
			gos := w.goLeaves()
			if len(gos) > 0 && len(w.members()) < 14 && c.Chance("invitation by the library", 3) {
				by := gos[c.Int("inviter", 0, len(gos)-1)]
				o := w.offer(by)
				w.op("library member %d invites %d", by, len(o.invs))
				r.note("commit", by, o.raw, nil)
				r.welcomeAudience(o)
				w.followGo(o.by, o.invs, o.wel, o.raw)
			} else {
				pl := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 2, GoBias: 50, MaxLeaves: 14, KeepGo: 1, KeepRef: 2})
				res := w.execute(pl)
				r.msgs = append(r.msgs, sent{epoch, "commit", res.Raw, nil, pl.By})
				for l, gm := range before {
					if w.Go[l] != gm {
						removed++
						r.frozen = append(r.frozen, gm)
						r.at[gm] = epoch
					}
				}
			}
			r.epochs[w.G.Ctx.Epoch] = w.G
			r.chatter(c.Int("messages", 1, 3))
			// newcomers and the past
			for l, gm := range w.Go {
				if before[l] != gm {
					joined++
				}
			}
			for _, l := range w.goLeaves() {
				gm := w.Go[l]
				what := "current member"
				if before[l] != gm {
					what = "joiner"
				}
				r.noAccess(gm, w.G.Ctx.Epoch, what)
			}
			for _, gm := range r.frozen {
				r.noAccess(gm, r.at[gm], "old state")
			}
		}
		// somebody who never was a member: another group with the same id
		st := w.newGo()
		g, err := mls.CreateGroup(mls.GroupID(bytes.Clone(w.GID)), st.KPP)
		c.must(err, "CreateGroup")
		st.G = g
		for _, m := range r.msgs {
			for _, raw := range [][]byte{m.raw, relabel(m.raw, w.GID, 0)} {
				if got, err := g.UnmarshalAndProcessMessage(bytes.Clone(raw)); err == nil || got != nil {
					c.Fatalf("a stranger processes %s: %q %v", m.kind, got, err)
				}
			}
		}
		// what library members sent is only readable with the secrets of its
		// epoch
		for _, m := range r.msgs {
			for _, e := range sortedEpochs(r.epochs) {
				if e == m.epoch {
					continue
				}
				if _, err := r.epochs[e].Unprotect(relabel(m.raw, w.GID, e)); err == nil {
					c.Fatalf("%s of epoch %d can be read with the secrets of epoch %d", m.kind, m.epoch, e)
				}
			}
		}
		// those who belong to an epoch still read it
		for _, m := range r.msgs {
			if m.epoch != w.G.Ctx.Epoch || m.data == nil {
				continue
			}
			for _, l := range w.goLeaves() {
				got, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(m.raw))
				c.must(err, "member %d cannot read %s of its epoch", l, m.kind)
				if !bytes.Equal(got, m.data) {
					c.Fatalf("member %d reads %q", l, got)
				}
			}
		}
		if removed > 0 && joined > 0 {
			c.nontrivial()
		}
		w.closing()
	})
}

func sortedEpochs(m map[uint64]*ref.Group) []uint64 {
	var out []uint64
	for e := range m {
		out = append(out, e)
	}
	slices.Sort(out)
	return out
}

// welcomeAudience checks who can open the group secrets in a Welcome issued
// by the library: exactly the invitee each entry is made for.
func (r *record) welcomeAudience(o *offer) {
	w := r.w
	x, err := ref.ParseWelcomeMsg(o.wel.Bytes())
	w.must(err, "Welcome of the library")
	if len(x.Secrets) != len(o.invs) {
		w.Fatalf("Welcome for %d invitees has %d entries", len(o.invs), len(x.Secrets))
	}
	for i := range x.Secrets {
		open := func(who string, priv []byte, want bool) {
			if len(priv) == 0 {
				return
			}
			_, err := w.S.Decrypt(priv, "Welcome", x.EncInfo, x.Secrets[i].Ct)
			w.count("Welcome entries tried")
			if want != (err == nil) {
				w.Fatalf("entry %d of the Welcome and %s: %v", i, who, err)
			}
		}
		for j, inv := range o.invs {
			if inv.Go != nil {
				open("the init key of an invitee", inv.Go.KPP.Private.InitKey, i == j)
				open("the leaf key of an invitee", inv.Go.KPP.Private.EncryptionKey, false)
			} else {
				open("the init key of an invitee", inv.Ref.Init, i == j)
				open("the leaf key of an invitee", inv.Ref.Encr, false)
			}
		}
		for _, gm := range w.Go {
			open("the init key of a member", gm.KPP.Private.InitKey, false)
			open("the leaf key of a member", gm.KPP.Private.EncryptionKey, false)
		}
		for _, gm := range r.frozen {
			open("the init key of an earlier member", gm.KPP.Private.InitKey, false)
			open("the leaf key of an earlier member", gm.KPP.Private.EncryptionKey, false)
		}
	}
}

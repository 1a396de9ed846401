package props

import (
	"bytes"
	"slices"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// bent returns a suite that computes one labelled operation with another label
// or context. With an empty target it only records the operations.
func (w *World) bent(target string, seen map[string]bool) *ref.Suite {
	s := *w.S
	kind := 0
	if target != "" {
		kind = w.Int("bent", 0, 5)
	}
	at := w.rnd.Uint32()
	s.Bend = func(op, label string, context []byte) (string, []byte) {
		name := op + " " + label
		seen[name] = true
		if name != target {
			return label, context
		}
		switch kind {
		case 0:
			return "", context
		case 1:
			return label + "s", context
		case 2:
			return label[1:], context
		case 3:
			return label[:len(label)-1], context
		case 4:
			return label, append(bytes.Clone(context), 0)
		}
		if len(context) == 0 {
			return label, []byte{0}
		}
		context = bytes.Clone(context)
		context[int(at)%len(context)] ^= 1 << (at % 8)
		return label, context
	}
	return &s
}

// target builds something with every label recorded, chooses one of the
// operations and builds it again with that one bent.
func (w *World) target(build func(s *ref.Suite) []byte) (string, []byte) {
	seen := map[string]bool{}
	build(w.bent("", seen))
	// what the next epoch starts from is not part of this message
	delete(seen, "kdf init")
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	slices.Sort(names)
	t := names[w.Int("operation", 0, len(names)-1)]
	raw := build(w.bent(t, seen))
	w.op("bent: %s", t)
	w.class("bent: %s", t)
	w.nontrivial()
	return t, raw
}

func (w *World) groupWith(s *ref.Suite) *ref.Group {
	g := *w.G
	g.S = s
	return &g
}

// TestC15 checks that messages computed with one other label or context are
// refused, and those computed as the RFC says are accepted.
func TestC15(t *testing.T) {
	run(t, 1, "a message, Welcome or key package that differs in one label or context was offered", func(c *Case) {
		w := c.populated(c.Int("history", 0, 3), 10)
		for k := c.Int("rounds", 1, 3); k > 0; k-- {
			switch c.weighted("what", 3, 2, 4, 3, 1) {
			case 0:
				by, data, aad := w.someLeaf("sender"), c.Bytes("data", 300), w.aad()
				f := &ref.Frame{Gen: c.generation(), Pad: c.Int("pad", 0, 100), Guard: w.payload(4)}
				name, raw := w.target(func(s *ref.Suite) []byte { return w.groupWith(s).AppMessage(by, data, aad, f) })
				w.refuseAll("an application message with another "+name, raw)
				good := w.G.AppMessage(by, data, aad, f)
				for _, l := range w.goLeaves() {
					got, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(good))
					w.must(err, "go member %d rejects the message of leaf %d", l, by)
					if !bytes.Equal(got, data) {
						w.Fatalf("go member %d reads %s instead of %s", l, short(got), short(data))
					}
				}
			case 1:
				ms := w.refLeaves()
				by := ms[c.Int("proposer", 0, len(ms)-1)]
				others := slices.DeleteFunc(w.members(), func(l uint32) bool { return l == by })
				p := &ref.Proposal{Type: ref.PropRemove, Removed: others[c.Int("removed", 0, len(others)-1)]}
				wire, aad := w.wire(), w.aad()
				f := &ref.Frame{Gen: c.generation(), Guard: w.payload(4)}
				name, raw := w.target(func(s *ref.Suite) []byte {
					g := w.groupWith(s)
					x := g.NewContent(by, ref.ContentProposal)
					x.Prop, x.AAD = p, aad
					return g.Protect(g.SignContent(wire, x, nil), f)
				})
				w.refuseAll("a proposal with another "+name, raw)
			case 2:
				pl := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 2, GoBias: 40, MaxLeaves: 14, KeepGo: 1, KeepRef: 2, ForcePath: c.Bool("force path")})
				o := w.opts(pl)
				if o.Frame == nil {
					o.Frame = &ref.Frame{}
				}
				o.Frame.Guard = w.payload(4)
				name, raw := w.target(func(s *ref.Suite) []byte { return w.groupWith(s).Commit(o).Raw })
				w.refuseAll("a commit with another "+name, raw)
				w.execute(pl)
			case 3:
				refs := w.refLeaves()
				by := refs[c.Int("committer", 0, len(refs)-1)]
				pl := &Plan{By: by, Path: c.Bool("path")}
				inv := w.invitee(100)
				pl.Items, pl.Invitees = append(pl.Items, inv.item(by)), append(pl.Invitees, inv)
				res := w.G.Commit(w.opts(pl))
				w.follow(res, pl)
				name, raw := w.target(func(s *ref.Suite) []byte {
					r, g := *res, *res.G
					g.S = s
					r.G = &g
					return r.Welcome(&ref.WelcomeOpts{Signer: by})
				})
				if wel, err := mls.UnmarshalWelcome(raw); err == nil {
					if _, err := mls.GroupFromWelcome(wel, inv.Go.KPP); err == nil {
						w.Fatalf("a client joins with a Welcome with another %s", name)
					}
				}
				w.welcome(res, pl, nil)
			case 4:
				var pkg *RefPkg
				name, _ := w.target(func(s *ref.Suite) []byte {
					real := w.S
					w.S = s
					defer func() { w.S = real }()
					pkg = w.plainRef()
					return nil
				})
				refs, gos := w.refLeaves(), w.goLeaves()
				by := refs[c.Int("committer", 0, len(refs)-1)]
				pl := &Plan{By: by, Path: c.Bool("path")}
				pl.Items = append(pl.Items, Invitee{Ref: pkg}.item(by))
				w.refuseAll("a commit adding a key package with another "+name, w.G.Commit(w.opts(pl)).Raw)
				gm := w.Go[gos[c.Int("inviter", 0, len(gos)-1)]]
				if kp, err := mls.UnmarshalKeyPackage(ref.Message(ref.WireKeyPackage, ref.Bytes(pkg.KP))); err == nil {
					if _, _, err := gm.G.CreateWelcome([]mls.KeyPackage{*kp}); err == nil {
						w.Fatalf("a client is invited with a key package with another %s", name)
					}
				}
			}
		}
		w.closing()
	})
}

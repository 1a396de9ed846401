package props

import (
	"bytes"
	"fmt"
	"testing"

	ref "mlsref"
)

// populated drives a new world into a random state with at least one go
// member and two reference members.
func (c *Case) populated(steps, maxLeaves int) *World {
	return c.settle(c.world(), steps, maxLeaves)
}

// mixed is a populated world in which there may be X.509 credentials.
func (c *Case) mixed(steps, maxLeaves int) *World {
	w := c.world()
	w.Certs = c.Chance("certificates", 6)
	w.CertsRare = w.Certs && c.Bool("few certificates")
	return c.settle(w, steps, maxLeaves)
}

func (c *Case) settle(w *World, steps, maxLeaves int) *World {
	if c.Chance("start by go", 4) {
		w.startGo()
		w.goInvite(0, []Invitee{{Ref: w.newRef()}})
	} else {
		w.startRef()
		a, b := Invitee{Go: w.newGo()}, Invitee{Ref: w.newRef()}
		invs := []Invitee{a, b}
		if c.Bool("order") {
			invs = []Invitee{b, a}
		}
		w.execute(&Plan{By: 0, Items: []ref.Item{invs[0].item(0), invs[1].item(0)}, Invitees: invs, Path: c.Bool("path")})
	}
	w.shapes(c.Int("steps", 0, steps), GenOpts{MaxAdd: 3, MaxRemove: 2, GoBias: 30, MaxLeaves: maxLeaves, KeepGo: 1, KeepRef: 2})
	return w
}

// refuse delivers a message that a go member must reject.
func (w *World) refuse(gm *GoMember, what string, raw []byte) {
	got, err := gm.G.UnmarshalAndProcessMessage(bytes.Clone(raw))
	w.count("refused")
	if err == nil {
		w.Fatalf("go member at leaf %d accepts %s (data %x)", gm.Leaf, what, got)
	}
	if got != nil {
		w.Fatalf("go member at leaf %d returns data %x with an error for %s", gm.Leaf, got, what)
	}
}

func (w *World) refuseAll(what string, raw []byte) {
	for _, l := range w.goLeaves() {
		w.refuse(w.Go[l], what, raw)
	}
}

// draft is a message that is valid unless it is tampered with.
type draft struct {
	name   string
	by     uint32
	wire   uint16
	ct     uint8
	data   []byte
	aad    []byte
	prop   *ref.Proposal
	commit *Plan
	gen    uint32
	pad    int
	newSig []byte
}

// bend says how a draft is forged.
type bend struct {
	content func(c *ref.Content)            // what is signed and sent
	key     []byte                          // signing key
	context func(ctx *ref.Context)          // context that is signed
	tbs     func(ac *ref.AuthContent)       // what is signed differs from what is sent
	label   string                          // signature label
	sig     func([]byte) []byte             // signature
	tag     func(tag, oldTag []byte) []byte // confirmation tag
	sent    func(c *ref.Content)            // what is sent differs from what is signed
	frame   ref.Frame
}

// build makes the message; bd nil makes the honest message.
func (w *World) build(d *draft, bd *bend) ([]byte, *ref.Result) {
	if bd == nil {
		bd = &bend{}
	}
	g := w.G
	f := bd.frame
	f.Gen = d.gen
	if f.Pad == 0 {
		f.Pad = d.pad
	}
	resign := func(ac *ref.AuthContent) {
		if bd.context == nil && bd.tbs == nil && bd.label == "" {
			return
		}
		key := bd.key
		if key == nil {
			key = g.Sig[d.by]
		}
		ctx := g.Ctx
		if bd.context != nil {
			bd.context(&ctx)
		}
		tmp := *ac
		if bd.tbs != nil {
			bd.tbs(&tmp)
		}
		label := bd.label
		if label == "" {
			label = "FramedContentTBS"
		}
		ac.Auth.Sig = g.S.Sign(key, label, tmp.TBS(&ctx))
	}
	if d.ct == ref.ContentCommit {
		o := &ref.CommitOpts{By: d.by, Items: d.commit.Items, Path: d.commit.Path, Wire: d.wire, AAD: d.aad, Frame: &f, NewSigPriv: d.newSig}
		o.Evil.Content = bd.content
		o.Evil.SignKey = bd.key
		o.Evil.Auth = func(ac *ref.AuthContent) {
			resign(ac)
			if bd.sig != nil {
				ac.Auth.Sig = bd.sig(ac.Auth.Sig)
			}
		}
		if bd.tag != nil {
			o.Evil.ConfTag = func(t []byte) []byte { return bd.tag(t, g.ConfTag) }
		}
		o.Evil.Sent = bd.sent
		res := g.Commit(o)
		return res.Raw, res
	}
	c := g.NewContent(d.by, d.ct)
	c.AAD = d.aad
	c.App, c.Prop = d.data, d.prop
	if bd.content != nil {
		bd.content(&c)
	}
	ac := g.SignContent(d.wire, c, bd.key)
	resign(ac)
	if bd.sig != nil {
		ac.Auth.Sig = bd.sig(ac.Auth.Sig)
	}
	if bd.sent != nil {
		bd.sent(&ac.Content)
	}
	return g.Protect(ac, &f), nil
}

// draft draws an honest message of a reference member.
func (w *World) draft() *draft {
	from := w.refLeaves()
	if w.Chance("library member", 3) {
		// its messages must not be forged towards itself either
		from = w.goLeaves()
	}
	d := &draft{by: from[w.Int("sender", 0, len(from)-1)], aad: w.aad(), gen: uint32(w.Int("generation", 0, 3)), pad: w.Int("padding", 0, 20)}
	switch w.weighted("content", 2, 2, 3) {
	case 0:
		d.ct, d.wire, d.name = ref.ContentApp, ref.WirePrivate, "application message"
		d.data = w.payload(w.Int("size", 0, 50))
	case 1:
		d.ct, d.wire = ref.ContentProposal, w.wire()
		switch k := w.Int("proposal", 0, 2); {
		case k == 0 || k == 2 && w.Go[d.by] != nil:
			d.prop = &ref.Proposal{Type: ref.PropAdd, Add: w.plainRef().KP}
		case k == 1:
			ms := w.members()
			d.prop = &ref.Proposal{Type: ref.PropRemove, Removed: ms[w.Int("removed", 0, len(ms)-1)]}
		case k == 2:
			l, _ := w.updateLeaf(d.by)
			d.prop = &ref.Proposal{Type: ref.PropUpdate, Update: l}
		}
		d.name = fmt.Sprintf("%s proposal (wire %d)", propName(d.prop), d.wire)
	case 2:
		d.ct, d.wire = ref.ContentCommit, w.wire()
		d.commit = w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 1, GoBias: 0, MaxLeaves: 40, KeepGo: len(w.Go), KeepRef: 2})
		d.by = d.commit.By
		d.name = fmt.Sprintf("%s (wire %d)", d.commit, d.wire)
	}
	return d
}

func flip(c *Case, b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) == 0 {
		return []byte{1}
	}
	i := c.Int("position", 0, len(b)*8-1)
	b[i/8] ^= 1 << (i % 8)
	return b
}

// mangle changes a byte string.
func mangle(c *Case, b []byte) (string, []byte) {
	switch c.Int("mangle", 0, 5) {
	case 0:
		return "flipped bit", flip(c, b)
	case 1:
		if len(b) > 0 {
			return "truncated", bytes.Clone(b[:len(b)-1])
		}
	case 2:
		if len(b) > 0 {
			return "empty", []byte{}
		}
	case 3:
		return "extended", append(bytes.Clone(b), byte(c.Int("byte", 0, 255)))
	case 4:
		z := make([]byte, len(b))
		if !bytes.Equal(z, b) {
			return "zeroed", z
		}
	case 5:
		if len(b) > 1 {
			n := c.Int("prefix", 1, len(b)-1)
			return "prefix", bytes.Clone(b[:n])
		}
	}
	return "flipped bit", flip(c, b)
}

// forge draws a forgery of a draft.
func (w *World) forge(d *draft) (string, []byte) {
	c := w.Case
	g := w.G
	bd := &bend{}
	var name string
	other := func() uint32 {
		for {
			ms := w.members()
			if l := ms[c.Int("other", 0, len(ms)-1)]; l != d.by {
				return l
			}
		}
	}
	tags := 0
	if d.ct == ref.ContentCommit {
		tags = 4
	}
	mem, priv := 0, 0
	if d.wire == ref.WirePublic {
		mem = 4
	} else {
		priv = 6
	}
	switch c.weighted("forgery", 2, 2, 3, 2, 2, 1, 2, 2, tags, mem, priv, 2) {
	case 0:
		o := other()
		bd.key, name = g.Sig[o], fmt.Sprintf("signed with the key of leaf %d", o)
	case 1:
		_, k := w.S.GenSig()
		bd.key, name = k, "signed with an unknown key"
	case 2:
		bd.sig = func(s []byte) []byte {
			n, x := mangle(c, s)
			name = "signature " + n
			return x
		}
	case 3:
		switch k := c.Int("context", 0, 5); k {
		case 0:
			bd.context, name = func(x *ref.Context) { x.Epoch++ }, "signed for another epoch"
		case 1:
			bd.context, name = func(x *ref.Context) { x.TreeHash = flip(c, x.TreeHash) }, "signed for another tree"
		case 2:
			bd.context, name = func(x *ref.Context) { x.CTH = flip(c, x.CTH) }, "signed for another transcript"
		case 3:
			bd.context, name = func(x *ref.Context) { x.GroupID = append(bytes.Clone(x.GroupID), 0) }, "signed for another group"
		case 4:
			bd.context, name = func(x *ref.Context) { x.Exts = []ref.Ext{{Type: 0xf0f1, Data: nil}} }, "signed for other context extensions"
		case 5:
			bd.context, name = func(x *ref.Context) { *x = ref.Context{} }, "signed without context"
		}
	case 4:
		switch c.Int("tbs", 0, 4) {
		case 0:
			bd.tbs, name = func(a *ref.AuthContent) { a.Wire ^= 3 }, "signed for the other wire format"
		case 1:
			bd.tbs, name = func(a *ref.AuthContent) { a.Content.AAD = append(bytes.Clone(a.Content.AAD), 7) }, "signed with other authenticated data"
		case 2:
			bd.tbs, name = func(a *ref.AuthContent) { a.Content.Sender.Index++ }, "signed with another sender"
		case 3:
			bd.tbs, name = func(a *ref.AuthContent) { a.Content.Epoch-- }, "signed with another epoch in the content"
		case 4:
			bd.tbs, name = func(a *ref.AuthContent) { a.Content.GroupID = append(bytes.Clone(a.Content.GroupID), 1) }, "signed with another group id in the content"
		}
	case 5:
		bd.label, name = pick(c, "label", "LeafNodeTBS", "GroupInfoTBS", "KeyPackageTBS", "framedContentTBS", ""), "signed under another label"
		if bd.label == "" {
			bd.label = " "
		}
	case 6: // sent differently than signed, everything else consistent
		k := c.Int("sent", 0, 3)
		if k == 3 && d.ct == ref.ContentCommit {
			k = 2
		}
		switch k {
		case 0:
			name = "authenticated data changed after signing"
			bd.sent = func(x *ref.Content) { _, x.AAD = mangle(c, x.AAD) }
		case 1:
			o := other()
			if d.wire == ref.WirePublic && c.Bool("outside the tree") {
				o = w.beyond(d.by)
			}
			name = fmt.Sprintf("re-attributed to leaf %d", o)
			bd.sent = func(x *ref.Content) { x.Sender.Index = o }
		case 2:
			name = "body changed after signing"
			bd.sent = func(x *ref.Content) {
				switch x.Type {
				case ref.ContentApp:
					_, x.App = mangle(c, x.App)
				case ref.ContentProposal:
					if x.Prop.Type == ref.PropRemove {
						x.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: x.Prop.Removed + 1}
					} else {
						x.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: other()}
					}
				case ref.ContentCommit:
					cc := *x.Commit
					cc.Props = append(append([]ref.PropOrRef{}, cc.Props...), ref.PropOrRef{Prop: &ref.Proposal{Type: ref.PropAdd, Add: w.plainRef().KP}})
					x.Commit = &cc
				}
			}
		case 3:
			name = "content type changed after signing"
			bd.sent = func(x *ref.Content) {
				if x.Type == ref.ContentApp {
					x.Type, x.Prop = ref.ContentProposal, &ref.Proposal{Type: ref.PropRemove, Removed: other()}
				} else {
					x.Type, x.App = ref.ContentApp, []byte("hello")
				}
			}
		}
	case 7: // outsiders change the finished bytes
		raw, _ := w.build(d, nil)
		n, x := "", raw
		switch c.Int("outside", 0, 4) {
		case 0:
			n, x = "bit flipped in transit", flip(c, raw)
		case 1:
			n, x = "truncated in transit", bytes.Clone(raw[:c.Int("length", 0, len(raw)-1)])
		case 2:
			n, x = "extended in transit", append(bytes.Clone(raw), w.payload(c.Int("more", 1, 4))...)
		case 3:
			n = "byte replaced in transit"
			x = bytes.Clone(raw)
			i := c.Int("at", 0, len(x)-1)
			x[i] += byte(c.Int("delta", 1, 255))
		case 4:
			n = "bytes swapped in transit"
			x = bytes.Clone(raw)
			for k := 0; k < 50 && bytes.Equal(x, raw); k++ {
				i, j := w.rnd.IntN(len(x)), w.rnd.IntN(len(x))
				x[i], x[j] = x[j], x[i]
			}
			if bytes.Equal(x, raw) {
				x = flip(c, raw)
			}
		}
		return n, x
	case 8: // confirmation tag
		switch c.Int("tag", 0, 4) {
		case 0, 1:
			bd.tag = func(t, _ []byte) []byte {
				n, x := mangle(c, t)
				name = "confirmation tag " + n
				return x
			}
		case 2:
			bd.tag, name = func(_, old []byte) []byte { return old }, "confirmation tag of the previous epoch"
		case 3:
			bd.tag, name = func(t, _ []byte) []byte { return w.S.MAC(g.Secret("confirm"), g.Ctx.CTH) }, "confirmation tag under the old key"
		case 4:
			// the tag of an equal commit with other randomness
			_, res2 := w.build(d, &bend{frame: ref.Frame{}, sent: func(x *ref.Content) { x.AAD = append(bytes.Clone(x.AAD), 9) }})
			bd.tag, name = func(_, _ []byte) []byte { return res2.G.ConfTag }, "confirmation tag of another commit"
			if d.commit.Path == false && w.S.Curve == nil {
				// deterministic signatures: same commit, same tag
				bd.tag, name = func(_, old []byte) []byte { return old }, "confirmation tag of the previous epoch"
			}
		}
	case 9: // membership tag
		switch c.Int("membership", 0, 5) {
		case 0, 1:
			bd.frame.MemTag = func(t []byte) []byte {
				n, x := mangle(c, t)
				name = "membership tag " + n
				return x
			}
		case 2:
			bd.frame.MemKey, name = ref.Rand(w.S.Nh), "membership tag under an unknown key"
		case 3:
			bd.frame.MemKey, name = g.Secret(pick(c, "secret", "confirm", "external", "authentication", "sender data")), "membership tag under another secret"
		case 4:
			bd.frame.MemKey, name = g.Init, "membership tag under the init secret"
		case 5:
			bd.frame.PubPost, name = func(m *ref.PubMsg) { m.Content.AAD = append(bytes.Clone(m.Content.AAD), 1) }, "authenticated data changed after the tag"
		}
	case 10: // private framing
		switch c.Int("private", 0, 11) {
		case 0, 1:
			bd.frame.Pad = d.pad + 1
			bd.frame.PadByte = byte(c.Int("pad byte", 1, 255))
			bd.frame.PadAt = c.Int("pad at", 0, 100)
			name = "non-zero padding"
		case 2:
			o := other()
			if c.Bool("outside the tree") {
				o = w.beyond(d.by)
			}
			bd.frame.SD, name = func(s *ref.SenderData) { s.Leaf = o }, "sender data names another leaf"
		case 3:
			n := pick(c, "later", uint32(1), 1, 1<<8, 1<<24, 1<<31)
			bd.frame.SD, name = func(s *ref.SenderData) { s.Gen += n }, "sender data names another generation"
		case 4:
			bd.frame.SD, name = func(s *ref.SenderData) { s.Guard[c.Int("guard", 0, 3)] ^= 4 }, "sender data with another reuse guard"
		case 5:
			bd.frame.PrivPost = func(m *ref.PrivMsg) {
				n, x := mangle(c, m.EncSD)
				m.EncSD, name = x, "encrypted sender data "+n
			}
		case 6:
			bd.frame.PrivPost = func(m *ref.PrivMsg) {
				n, x := mangle(c, m.Ct)
				m.Ct, name = x, "ciphertext "+n
			}
		case 7:
			bd.frame.PrivPost, name = func(m *ref.PrivMsg) { m.AAD = append(bytes.Clone(m.AAD), 3) }, "authenticated data changed after encryption"
		case 8:
			bd.frame.PrivPost, name = func(m *ref.PrivMsg) { m.Type = m.Type%3 + 1 }, "content type changed after encryption"
		case 9:
			bd.frame.EncSecret, name = g.Init, "content encrypted under another secret"
		case 10:
			bd.frame.SDSecret, name = g.Init, "sender data encrypted under another secret"
		case 11:
			if d.ct == ref.ContentApp {
				bd.frame.RatchetLbl = "handshake"
			} else {
				bd.frame.RatchetLbl = "application"
			}
			name = "encrypted with the key of the other ratchet"
		}
	case 11: // consistently made for another group or epoch with the secrets of this one
		if c.Bool("group") {
			n, id := mangle(c, w.GID)
			bd.content, name = func(x *ref.Content) { x.GroupID = id }, "made for another group id ("+n+")"
		} else {
			e := pick(c, "epoch", g.Ctx.Epoch+1, g.Ctx.Epoch-1, g.Ctx.Epoch^1<<32, g.Ctx.Epoch^1<<63, g.Ctx.Epoch+256)
			bd.content, name = func(x *ref.Content) { x.Epoch = e }, "made for another epoch"
		}
	}
	raw, _ := w.build(d, bd)
	return name, raw
}

// beyond draws a leaf index outside the tree that some shortened form may
// take for a given leaf.
func (w *World) beyond(l uint32) uint32 {
	n := uint32(1)
	for n < uint32(len(w.G.Tree.Lf)) {
		n *= 2
	}
	return l + pick(w.Case, "beyond", n, 2*n, 3*n, 1<<8, 1<<16, 1<<24, 1<<31)
}

// accept delivers the honest message.
func (w *World) accept(d *draft) {
	raw, res := w.build(d, nil)
	switch d.ct {
	case ref.ContentApp:
		for _, l := range w.goLeaves() {
			if l == d.by {
				continue
			}
			got, err := w.Go[l].G.UnmarshalAndProcessMessage(raw)
			w.must(err, "honest %s is rejected after forgeries", d.name)
			if !bytes.Equal(got, d.data) {
				w.Fatalf("honest message reads %x", got)
			}
		}
	case ref.ContentProposal:
		w.deliver("honest "+d.name, raw, d.by)
	case ref.ContentCommit:
		w.follow(res, d.commit)
	}
}

func TestC05Forgery(t *testing.T) {
	run(t, 1, "a forged message for which the honest twin was accepted afterwards by the same members", func(c *Case) {
		w := c.mixed(3, 12)
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			d := w.draft()
			w.op("honest: %s by %d", d.name, d.by)
			for k := c.Int("forgeries", 1, 8); k > 0; k-- {
				name, raw := w.forge(d)
				w.op("forged: %s", name)
				c.class("forged: %s", name)
				w.refuseAll(d.name+", "+name, raw)
				c.count("forgeries")
			}
			w.allInSync()
			w.accept(d)
			c.nontrivial()
		}
	})
}

// TestC05Strangers: parties that are not members, or use a position that is
// not theirs.
func TestC05Strangers(t *testing.T) {
	run(t, 1, "a stranger's message was refused by a group with at least one go member", func(c *Case) {
		w := c.mixed(3, 12)
		_, priv := w.S.GenSig()
		for n := c.Int("attempts", 1, 6); n > 0; n-- {
			cont := w.G.NewContent(0, pick(c, "content type", uint8(ref.ContentProposal), ref.ContentCommit, ref.ContentApp))
			switch cont.Type {
			case ref.ContentProposal:
				cont.Prop = &ref.Proposal{Type: ref.PropAdd, Add: w.plainRef().KP}
			case ref.ContentCommit:
				cont.Commit = &ref.Commit{Props: []ref.PropOrRef{{Prop: &ref.Proposal{Type: ref.PropAdd, Add: w.plainRef().KP}}}}
			case ref.ContentApp:
				cont.App = []byte("hello")
			}
			var blank []uint32
			for i, l := range w.G.Tree.Lf {
				if l == nil {
					blank = append(blank, uint32(i))
				}
			}
			key := priv
			wire := w.wire()
			name := ""
			switch k := c.Int("stranger", 0, 5); {
			case k == 0:
				cont.Sender, name = ref.Sender{Type: ref.SenderExternal, Index: uint32(c.Int("index", 0, 3))}, "external sender"
				wire = ref.WirePublic
			case k == 1:
				cont.Sender, name = ref.Sender{Type: ref.SenderNewProposal}, "new member proposal"
				wire = ref.WirePublic
			case k == 2:
				cont.Sender, name = ref.Sender{Type: ref.SenderNewCommit}, "new member commit"
				wire = ref.WirePublic
			case k == 3 && len(blank) > 0:
				cont.Sender.Index = blank[c.Int("blank", 0, len(blank)-1)]
				name = "blank leaf"
			case k == 4:
				ms := w.members()
				cont.Sender.Index = ms[c.Int("leaf", 0, len(ms)-1)]
				name = "member without its key"
			default:
				cont.Sender.Index = pick(c, "index", uint32(len(w.G.Tree.Lf)), uint32(len(w.G.Tree.Lf)+3), 1<<31-1, 1<<31, 1<<32-1)
				name = "leaf outside of the tree"
				if c.Bool("alias") {
					// an index that a careless computation confuses with a member
					ms := w.members()
					l := ms[c.Int("alias of", 0, len(ms)-1)]
					cont.Sender.Index = l + pick(c, "offset", uint32(len(w.G.Tree.Lf)), 1<<31, 1<<30, 1<<16)
					key = w.G.Sig[l]
					name = "leaf outside of the tree with a member's key"
				}
			}
			if cont.Sender.Type != ref.SenderMember && c.Bool("key of a member") {
				// no member may speak as somebody else
				ms := w.members()
				l := ms[c.Int("member", 0, len(ms)-1)]
				if c.Bool("default index") {
					l = cont.Sender.Index
				}
				key = w.G.Sig[l]
				name += " with a member's key"
			}
			if key == nil || len(w.Ex) > 0 && c.Bool("key of a removed member") {
				key = priv
				if len(w.Ex) > 0 {
					key = w.Ex[w.rnd.IntN(len(w.Ex))].sigPriv()
				}
			}
			w.op("%s, content %d, wire %d", name, cont.Type, wire)
			c.class("stranger: %s", name)
			f := &ref.Frame{}
			if wire == ref.WirePrivate && int64(cont.Sender.Index) >= int64(len(w.G.Tree.Lf)) {
				f.Key = func(l uint32) uint32 { return l % uint32(len(w.G.Tree.Lf)) }
			}
			ac := w.G.SignContent(wire, cont, key)
			if cont.Type == ref.ContentCommit {
				ac.Auth.ConfTag = ref.Rand(w.S.Nh)
			}
			w.refuseAll("a message of "+name, w.G.Protect(ac, f))
		}
		// application data must not be sent in the clear
		ms := w.members()
		by := ms[c.Int("open speaker", 0, len(ms)-1)]
		cont := w.G.NewContent(by, ref.ContentApp)
		cont.App = []byte("hello")
		w.refuseAll("application data in a public message", w.G.Protect(w.G.SignContent(ref.WirePublic, cont, nil), nil))
		c.nontrivial()
		w.allInSync()
		w.closing()
	})
}

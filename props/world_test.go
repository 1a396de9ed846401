package props

import (
	"bytes"
	"fmt"
	"slices"
	"time"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// GoMember is a group member played by the implementation under test.
type GoMember struct {
	Leaf uint32
	G    *mls.Group
	KPP  *mls.KeyPairPackage
	KP   *ref.KeyPackage // the key package as the reference decodes it
}

// RefPkg is a key package of a client played by the reference.
type RefPkg struct {
	KP              *ref.KeyPackage
	Sig, Init, Encr []byte
}

// World is a group of members played by the implementation under test and by
// the reference; the reference knows the complete state.
type World struct {
	*Case
	S    *ref.Suite
	CS   mls.CipherSuite
	GID  []byte
	G    *ref.Group
	Go   map[uint32]*GoMember
	Ex   []*GoMember
	Pend []ref.Item // received proposals of this epoch (with their references)
	// AddExts: let reference clients use extensions and odd capabilities.
	Plain bool
	// Wipe overwrites buffers after their use, when set.
	Wipe func([]byte)

	// Certs: all clients support X.509 credentials and some use them.
	Certs bool
	// CertsRare: only few use them.
	CertsRare bool
	// Next, if set, are the extensions that the group gets with the commit
	// that is being drawn.
	Next *[]ref.Ext

	// Sparse: only the first and then each so manyth reference invitee of go
	// members joins.
	Sparse int

	// Strict: a key of the ratchets may only be used for one message.
	Strict bool
	spent  map[string]string

	commits, paths, widest int
}

// open lets the reference receive a message of a go member. Members delete the
// key of a message when they have read it, so there must not be a second
// message with it.
func (w *World) open(raw []byte) (*ref.Opened, error) {
	o, err := w.G.Unprotect(raw)
	if err != nil || !w.Strict || o.Key == nil {
		return o, err
	}
	if w.spent == nil {
		w.spent = map[string]string{}
	}
	if old, ok := w.spent[string(o.Key)]; ok && old != string(raw) {
		return nil, fmt.Errorf("generation %d of leaf %d was already used for another message of the epoch", o.SD.Gen, o.SD.Leaf)
	}
	w.spent[string(o.Key)] = string(raw)
	w.count("message keys used once")
	return o, nil
}

var suiteIDs = []uint16{1, 3, 2, 7}

// supported returns the suites that the library reports as supported and that
// the reference implements.
func supported() (out []uint16) {
	for _, id := range suiteIDs {
		if mls.CipherSuite(id).Supported() {
			out = append(out, id)
		}
	}
	return out
}

func (c *Case) suite() *ref.Suite {
	id := suiteIDs[c.weighted("suite", 4, 3, 3, 2)]
	if !mls.CipherSuite(id).Supported() {
		c.Fatalf("cipher suite %d is not supported any more", id)
	}
	c.op("suite %d", id)
	c.class("suite %d", id)
	return ref.GetSuite(id)
}

func (c *Case) world() *World {
	w := &World{Case: c, S: c.suite(), Go: map[uint32]*GoMember{}}
	w.CS = mls.CipherSuite(w.S.ID)
	w.GID = c.Bytes("group id", 300)
	return w
}

// many is a number from lo to hi; rarely it is larger.
func (c *Case) many(label string, lo, hi, most int) int {
	if most > hi && c.Chance("many "+label, 16) {
		c.class("many %s", label)
		return c.Int(label, hi+1, most)
	}
	return c.Int(label, lo, hi)
}

// parseGoKP decodes a key package of the implementation under test.
func (c *Case) parseGoKP(kp *mls.KeyPackage) *ref.KeyPackage {
	r, err := ref.ParseKeyPackageMsg(kp.Bytes())
	c.must(err, "reference cannot decode a generated key package")
	return r
}

// newGo generates a key pair package of the implementation under test.
func (w *World) newGo() *GoMember {
	if w.Certs {
		// made elsewhere and imported
		p := w.newRef()
		return &GoMember{KP: p.KP, KPP: &mls.KeyPairPackage{Public: *w.goKP(p.KP), Private: mls.PrivateKeyPackage{
			InitKey:       bytes.Clone(p.Init),
			EncryptionKey: bytes.Clone(p.Encr),
			SignatureKey:  bytes.Clone(p.Sig),
		}}}
	}
	kpp, err := mls.GenerateKeyPairPackage(w.CS, mls.NewBasicCredential(w.Bytes("identity", 200)))
	w.must(err, "GenerateKeyPairPackage")
	return &GoMember{KPP: kpp, KP: w.parseGoKP(&kpp.Public)}
}

// goKP converts a key package made by the reference.
func (c *Case) goKP(kp *ref.KeyPackage) *mls.KeyPackage {
	k, err := mls.UnmarshalKeyPackage(ref.Message(ref.WireKeyPackage, ref.Bytes(kp)))
	c.must(err, "UnmarshalKeyPackage of a valid key package")
	return k
}

// newRef generates a key package of a reference client. Unless the world is
// plain, it may list unknown capabilities and carry unknown extensions.
func (w *World) newRef() *RefPkg {
	s := w.S
	p := &RefPkg{KP: &ref.KeyPackage{Version: ref.MLS10, Suite: s.ID}}
	kp := p.KP
	kp.InitKey, p.Init = s.GenKEM()
	l := &kp.Leaf
	l.EncKey, p.Encr = s.GenKEM()
	l.SigKey, p.Sig = s.GenSig()
	l.Cred = ref.Credential{Type: ref.CredBasic, Identity: w.Bytes("identity", 200)}
	l.Versions, l.Suites, l.Creds = []uint16{1}, []uint16{s.ID}, []uint16{1}
	l.Source = ref.SourceKeyPackage
	now := uint64(time.Now().Unix())
	l.NotBefore, l.NotAfter = now-3600, now+3600*24*20
	if !w.Plain {
		switch w.weighted("leaf extras", 4, 1, 1, 1, 1) {
		case 1: // unknown capabilities
			l.Versions = append(l.Versions, 0x0a0a, 99)
			l.Suites = append(l.Suites, 0x1a1a, 2)
			l.Exts = append(l.Exts, 0x2a2a)
			l.Props = append(l.Props, 0x3a3a)
			l.Creds = append(l.Creds, 0x4a4a, 2)
		case 2: // an extension of its own
			l.Exts = append(l.Exts, 0xf001)
			l.Extensions = append(l.Extensions, ref.Ext{Type: 0xf001, Data: w.Bytes("leaf extension", 100)})
			kp.Extensions = append(kp.Extensions, ref.Ext{Type: 0xf002, Data: w.Bytes("kp extension", 100)})
			l.Exts = append(l.Exts, 0xf002)
		case 3: // a different order of capabilities
			l.Creds = []uint16{0x5a5a, 1}
			l.Suites = []uint16{7, 3, 2, 1}
			l.Exts = []uint16{2}
			l.Props = []uint16{1, 2, 3}
		case 4: // application_id, which everybody supports without saying so
			l.Extensions = append(l.Extensions, ref.Ext{Type: 1, Data: w.Bytes("application id", 60)})
		}
	}
	if w.Certs {
		l.Creds = append(slices.DeleteFunc(l.Creds, func(t uint16) bool { return t == ref.CredX509 }), ref.CredX509)
		l.Exts = append(l.Exts, demandExt)
		l.Props = append(l.Props, demandProp)
		w.certify(l)
	}
	p.sign(s)
	return p
}

// certify lets a leaf have an X.509 credential or not.
func (w *World) certify(l *ref.Leaf) {
	n := 2
	if w.CertsRare {
		n = 12
	}
	if !w.Chance("certificate", n) {
		return
	}
	w.class("X.509 credentials")
	l.Cred = ref.Credential{Type: ref.CredX509}
	for n := w.Int("chain", 0, 3); n > 0; n-- {
		l.Cred.Certs = append(l.Cred.Certs, w.payload(w.Int("certificate size", 0, 300)))
	}
}

// rename changes the credential of a leaf.
func rename(l *ref.Leaf) {
	if l.Cred.Type == ref.CredX509 {
		l.Cred.Certs = append(slices.Clone(l.Cred.Certs), []byte{1})
	} else {
		l.Cred.Identity = append(slices.Clone(l.Cred.Identity), 'x')
	}
}

func (p *RefPkg) sign(s *ref.Suite) {
	p.KP.Leaf.SignWith(s, p.Sig, nil, 0)
	p.KP.SignWith(s, p.Sig)
}

func sortedKeys[V any](m map[uint32]V) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (w *World) goLeaves() []uint32 { return sortedKeys(w.Go) }

// refLeaves are the members played by the reference.
func (w *World) refLeaves() []uint32 {
	var out []uint32
	for _, l := range sortedKeys(w.G.Sig) {
		if w.Go[l] == nil {
			out = append(out, l)
		}
	}
	return out
}

func (w *World) members() []uint32 { return w.G.Tree.Members() }

// startRef creates the group with a reference member at leaf 0.
func (w *World) startRef() {
	p := w.newRef()
	var exts []ref.Ext
	if !w.Plain {
		exts = w.groupExts()
	}
	w.G = ref.NewGroup(w.S, w.GID, &p.KP.Leaf, p.Sig, exts)
	if !w.Plain && w.Chance("late epoch", 5) {
		// what is left of a group that has been around for long
		w.G.Ctx.Epoch = pick[uint64](w.Case, "epoch", 1<<8-1, 1<<16-2, 1<<31-1, 1<<32-1, 1<<32, 1<<40+7, 1<<63-2, 1<<63)
	}
	w.op("reference creates group %s in epoch %d with %d extensions", short(w.GID), w.G.Ctx.Epoch, len(exts))
}

// required is the extension that makes capabilities mandatory in a group.
func required(exts, props, creds []uint16) ref.Ext {
	var b ref.W
	for _, l := range [][]uint16{exts, props, creds} {
		var v ref.W
		for _, x := range l {
			v.U16(x)
		}
		b.Vec(v.B)
	}
	return ref.Ext{Type: ref.ExtRequiredCapabilities, Data: b.B}
}

// Capabilities beyond the usual that all clients have in worlds with Certs, in
// addition to X.509 credentials.
const (
	demandExt  = 0xf0d1
	demandProp = 0xf0d2
)

// demands are the capabilities for which the group asks in worlds with Certs.
func (w *World) demands() (out []uint16) {
	if !w.Certs {
		return nil
	}
	exts := w.G.Ctx.Exts
	if w.Next != nil {
		exts = *w.Next
	}
	for _, e := range exts {
		if e.Type != ref.ExtRequiredCapabilities {
			continue
		}
		b := e.Data
		for _, d := range []uint16{demandExt, demandProp, ref.CredX509} {
			// short lists only
			l := b[1 : 1+b[0]]
			b = b[1+b[0]:]
			for ; len(l) > 0; l = l[2:] {
				if uint16(l[0])<<8|uint16(l[1]) == d {
					out = append(out, d)
				}
			}
		}
	}
	return out
}

// groupExts are extensions of the group context which every client supports.
func (w *World) groupExts() (exts []ref.Ext) {
	if w.Chance("required capabilities", 5) {
		exts = append(exts, required(nil, nil, []uint16{ref.CredBasic}))
	} else if w.Certs && w.Bool("demands") {
		var l [3][]uint16
		for i, d := range []uint16{demandExt, demandProp, ref.CredX509} {
			if w.Bool("demand") {
				l[i] = append(l[i], d)
			}
		}
		exts = append(exts, required(l[0], l[1], l[2]))
		w.class("demanding group")
	}
	if w.Chance("external senders", 5) {
		var l, b ref.W
		for n := w.Int("senders", 0, 2); n > 0; n-- {
			pub, _ := w.S.GenSig()
			l.Vec(pub)
			(&ref.Credential{Type: ref.CredBasic, Identity: w.Bytes("sender", 60)}).Enc(&l)
		}
		b.Vec(l.B)
		exts = append(exts, ref.Ext{Type: ref.ExtExternalSenders, Data: b.B})
	}
	if len(exts) == 2 && w.Bool("swap") {
		exts[0], exts[1] = exts[1], exts[0]
	}
	return exts
}

// startGo creates the group with a member of the implementation under test,
// which invites one reference client.
func (w *World) startGo() *GoMember {
	gm := w.newGo()
	g, err := mls.CreateGroup(mls.GroupID(bytes.Clone(w.GID)), gm.KPP)
	w.must(err, "CreateGroup")
	gm.G, gm.Leaf = g, 0
	p := w.newRef()
	w.op("go creates group %s and invites a reference client", short(w.GID))
	wel, raw, err := g.CreateWelcome([]mls.KeyPackage{*w.goKP(p.KP)})
	w.must(err, "CreateWelcome")
	rg, me, _, err := ref.Join(wel.Bytes(), p.KP, p.Init)
	w.must(err, "reference cannot join through the library's Welcome")
	if me != 1 || !bytes.Equal(rg.Ctx.GroupID, w.GID) || rg.Ctx.Epoch != 1 {
		w.Fatalf("first invitee is at leaf %d, group %x epoch %d", me, rg.Ctx.GroupID, rg.Ctx.Epoch)
	}
	_, err = g.UnmarshalAndProcessMessage(raw)
	w.must(err, "creator cannot process its own commit")
	rg.Sig[0] = gm.sigPriv()
	rg.Sig[1] = p.Sig
	w.G = rg
	w.Go[0] = gm
	w.commits++
	w.widest = max(w.widest, w.G.Tree.NumLeaves())
	return gm
}

func (gm *GoMember) sigPriv() []byte { return bytes.Clone(gm.KPP.Private.SignatureKey) }

// send lets a go member produce a message and checks it against the reference
// state: this proves that the member is in the same epoch (context, secrets).
func (w *World) checkSend(gm *GoMember) {
	data := w.payload(w.rnd.IntN(50))
	raw, err := gm.G.CreateApplicationMessage(data)
	w.must(err, "CreateApplicationMessage by leaf %d", gm.Leaf)
	o, err := w.open(raw)
	w.must(err, "message of go member at leaf %d is not valid in epoch %d", gm.Leaf, w.G.Ctx.Epoch)
	if o.SD.Leaf != gm.Leaf || o.AC.Content.Type != ref.ContentApp || !bytes.Equal(o.AC.Content.App, data) {
		w.Fatalf("message of go member at leaf %d decrypts to sender %d type %d data %x, want data %x", gm.Leaf, o.SD.Leaf, o.AC.Content.Type, o.AC.Content.App, data)
	}
}

// checkRecv delivers a fresh message of a member to a go member.
func (w *World) checkRecv(gm *GoMember, by uint32) {
	data := w.payload(w.rnd.IntN(50))
	raw := w.G.AppMessage(by, data, nil, nil)
	got, err := gm.G.UnmarshalAndProcessMessage(raw)
	w.must(err, "go member at leaf %d rejects a message of leaf %d in epoch %d", gm.Leaf, by, w.G.Ctx.Epoch)
	if !bytes.Equal(got, data) {
		w.Fatalf("go member at leaf %d reads %x instead of %x", gm.Leaf, got, data)
	}
}

// inSync verifies that a go member is in the reference's epoch.
func (w *World) inSync(gm *GoMember) {
	w.checkSend(gm)
	ms := w.members()
	w.checkRecv(gm, ms[w.rnd.IntN(len(ms))])
}

func (w *World) allInSync() {
	for _, l := range w.goLeaves() {
		w.inSync(w.Go[l])
	}
}

// deliver hands a handshake message to every go member; all must accept it.
func (w *World) deliver(what string, raw []byte, except ...uint32) {
	for _, l := range w.goLeaves() {
		if slices.Contains(except, l) {
			continue
		}
		in := bytes.Clone(raw)
		got, err := w.Go[l].G.UnmarshalAndProcessMessage(in)
		w.must(err, "go member at leaf %d rejects %s", l, what)
		if w.Wipe != nil {
			w.Wipe(in)
		}
		if got != nil {
			w.Fatalf("processing %s returned application data %x", what, got)
		}
	}
}

// propose sends a standalone proposal by a reference member to everyone.
func (w *World) propose(by uint32, p *ref.Proposal, sigPriv []byte) ref.Item {
	it, raw := w.makeProposal(by, p, sigPriv)
	w.op("proposal by %d: %s", by, propName(p))
	w.deliver("proposal", raw)
	w.Pend = append(w.Pend, it)
	return it
}

func (w *World) makeProposal(by uint32, p *ref.Proposal, sigPriv []byte) (ref.Item, []byte) {
	raw, r := w.G.ProposalMessage(by, p, w.wire(), w.aad(), w.frame())
	return ref.Item{Prop: p, Sender: by, Ref: r, SigPriv: sigPriv}, raw
}

func propName(p *ref.Proposal) string {
	switch p.Type {
	case ref.PropAdd:
		return "add"
	case ref.PropUpdate:
		return "update"
	case ref.PropRemove:
		return fmt.Sprintf("remove %d", p.Removed)
	case ref.PropGCE:
		return fmt.Sprintf("%d group context extensions", len(p.Exts))
	}
	return fmt.Sprintf("type %d", p.Type)
}

func (w *World) wire() uint16 { return pick(w.Case, "wire", uint16(ref.WirePrivate), ref.WirePublic) }

func (w *World) aad() []byte {
	if w.Chance("aad", 4) {
		if w.Chance("long aad", 8) {
			return w.payload(pick(w.Case, "long aad size", 63, 64, 16383, 16384, 20000))
		}
		return w.payload(w.Int("aad size", 1, 80))
	}
	return nil
}

// frame draws valid framing parameters for a handshake message.
func (w *World) frame() *ref.Frame {
	f := &ref.Frame{}
	if w.Chance("framing", 3) {
		f.Gen = uint32(w.Int("generation", 0, 5))
		f.Pad = w.Int("padding", 0, 70)
		if w.Chance("far", 6) {
			f.Gen = uint32(pick(w.Case, "far generation", 31, 32, 63, 64, 65, 127, 128, 255, 256, 300))
			f.Pad = pick(w.Case, "long padding", 255, 256, 1024, 17000)
		}
	}
	return f
}

// updateLeaf makes a valid new leaf for an Update proposal.
func (w *World) updateLeaf(by uint32) (*ref.Leaf, []byte) {
	l := w.G.Tree.Leaf(by).Clone()
	sig := w.G.Sig[by]
	if w.Chance("rotate signature key", 3) {
		l.SigKey, sig = w.S.GenSig()
	}
	l.EncKey, _ = w.S.GenKEM()
	l.Source = ref.SourceUpdate
	l.NotBefore, l.NotAfter, l.ParentHash = 0, 0, nil
	w.renew(l)
	l.SignWith(w.S, sig, w.GID, by)
	return l, sig
}

// renew changes what a member may change about itself.
func (w *World) renew(l *ref.Leaf) {
	if w.Chance("change identity", 3) {
		l.Cred = ref.Credential{Type: ref.CredBasic, Identity: w.payload(w.Int("identity size", 0, 70))}
		if w.Certs {
			w.certify(l)
		}
	}
	if w.Plain || !w.Chance("change capabilities", 4) {
		return
	}
	switch w.Int("change", 0, 4) {
	case 0:
		l.Exts = append([]uint16{0xf003}, l.Exts...)
		l.Extensions = append([]ref.Ext{{Type: 0xf003, Data: w.payload(w.Int("extension size", 0, 200))}}, l.Extensions...)
	case 1:
		l.Extensions = nil
	case 2:
		l.Extensions, l.Exts, l.Props = nil, nil, nil
		l.Versions, l.Suites, l.Creds = []uint16{1}, []uint16{w.S.ID}, []uint16{1}
		if w.Certs {
			l.Exts, l.Props, l.Creds = []uint16{demandExt}, []uint16{demandProp}, []uint16{1, 2}
		}
	case 3:
		l.Creds = append([]uint16{2, 0xf0c2}, l.Creds...)
		l.Props = append(l.Props, 0xf0b2)
	case 4:
		l.Extensions = append(l.Extensions, ref.Ext{Type: 1, Data: w.payload(w.Int("id size", 0, 70))})
	}
	// no extension type twice
	seen := map[uint16]bool{}
	l.Extensions = slices.DeleteFunc(l.Extensions, func(e ref.Ext) bool {
		dup := seen[e.Type]
		seen[e.Type] = true
		return dup
	})
}

// Invitee is a client to be added.
type Invitee struct {
	Go  *GoMember
	Ref *RefPkg
}

func (w *World) invitee(goBias int) Invitee {
	if w.Int("invitee kind", 0, 99) < goBias {
		return Invitee{Go: w.newGo()}
	}
	return Invitee{Ref: w.newRef()}
}

func (i Invitee) kp() *ref.KeyPackage {
	if i.Go != nil {
		return i.Go.KP
	}
	return i.Ref.KP
}

func (i Invitee) sig() []byte {
	if i.Go != nil {
		return i.Go.sigPriv()
	}
	return i.Ref.Sig
}

func (i Invitee) item(by uint32) ref.Item {
	return ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: i.kp()}, Sender: by, SigPriv: i.sig()}
}

// Plan is a valid commit to be made by a reference member.
type Plan struct {
	By       uint32
	Items    []ref.Item
	Path     bool
	Invitees []Invitee // in the order of their Add proposals in Items
}

// GenOpts steers genCommit.
type GenOpts struct {
	MaxAdd, MaxRemove int
	GoBias            int // percentage of invitees played by the library
	MaxLeaves         int
	KeepGo            int // keep at least so many go members
	KeepRef           int // at least so many reference members (1 at least)
	ForcePath         bool
	NoRef             bool // no proposals by reference
}

// genCommit draws a valid commit by a reference member. Standalone proposals
// it needs are sent (and must be accepted).
func (w *World) genCommit(o GenOpts) *Plan {
	refs := w.refLeaves()
	by := refs[w.Int("committer", 0, len(refs)-1)]
	pl := &Plan{By: by}
	touched := map[uint32]bool{by: true}
	invs := map[*ref.KeyPackage]Invitee{}
	nGo, nRef := len(w.Go), len(refs)
	proposer := func() uint32 {
		ms := w.members()
		return ms[w.Int("proposer", 0, len(ms)-1)]
	}
	push := func(it ref.Item) {
		byRef := !o.NoRef && w.Bool("by reference")
		if it.Prop.Type == ref.PropUpdate {
			byRef = true
		} else {
			it.Sender = by
			if byRef {
				it.Sender = proposer()
			}
		}
		if byRef {
			it = w.propose(it.Sender, it.Prop, it.SigPriv)
		}
		pl.Items = append(pl.Items, it)
	}

	room := o.MaxLeaves - len(w.members())
	// only additions, so that the path may be left out
	only := o.MaxAdd > 0 && room > 0 && w.Chance("additions only", 4)
	maxRemove, maxUpdate, minAdd := o.MaxRemove, 2, 0
	if only {
		maxRemove, maxUpdate, minAdd = 0, 0, 1
	}

	// removals
	for n := w.Int("removals", 0, maxRemove); n > 0; n-- {
		var cand []uint32
		for _, l := range w.members() {
			if touched[l] || (w.Go[l] != nil && nGo <= o.KeepGo) || (w.Go[l] == nil && nRef <= max(o.KeepRef, 1)) {
				continue
			}
			cand = append(cand, l)
		}
		if len(cand) == 0 {
			break
		}
		l := cand[w.Int("removed", 0, len(cand)-1)]
		touched[l] = true
		if w.Go[l] != nil {
			nGo--
		} else {
			nRef--
		}
		push(ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}})
	}
	// updates
	if !o.NoRef {
		for n := w.Int("updates", 0, maxUpdate); n > 0; n-- {
			var cand []uint32
			for _, l := range refs {
				if !touched[l] {
					cand = append(cand, l)
				}
			}
			if len(cand) == 0 {
				break
			}
			l := cand[w.Int("updater", 0, len(cand)-1)]
			touched[l] = true
			leaf, sig := w.updateLeaf(l)
			push(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, Sender: l, SigPriv: sig})
		}
	}
	// additions
	adds := w.Int("additions", minAdd, max(0, min(o.MaxAdd, room)))
	if o.MaxAdd > 2 && w.Chance("many additions", 30) {
		adds = w.Int("additions", 6, 20)
		w.class("many additions")
	}
	for n := adds; n > 0; n-- {
		inv := w.invitee(o.GoBias)
		invs[inv.kp()] = inv
		push(inv.item(by))
	}
	if !only && !w.Plain && w.Chance("group context extensions", 8) {
		push(ref.Item{Prop: &ref.Proposal{Type: ref.PropGCE, Exts: w.groupExts()}})
		w.class("group context extensions")
	}
	// order in the list is free
	if len(pl.Items) > 1 && w.Bool("shuffle") {
		for i := len(pl.Items) - 1; i > 0; i-- {
			j := w.Int("swap", 0, i)
			pl.Items[i], pl.Items[j] = pl.Items[j], pl.Items[i]
		}
	}
	for _, it := range pl.Items {
		if it.Prop.Type == ref.PropAdd {
			pl.Invitees = append(pl.Invitees, invs[it.Prop.Add])
		}
	}
	pl.Path = needsPath(pl.Items) || o.ForcePath || w.Bool("path") && !(only && w.Bool("no path"))
	return pl
}

func needsPath(items []ref.Item) bool {
	for _, it := range items {
		if it.Prop.Type != ref.PropAdd {
			return true
		}
	}
	return len(items) == 0
}

func (pl *Plan) String() string {
	s := fmt.Sprintf("commit by %d path=%v:", pl.By, pl.Path)
	for _, it := range pl.Items {
		s += " " + propName(it.Prop)
		if it.Ref != nil {
			s += fmt.Sprintf("(ref by %d)", it.Sender)
		}
	}
	return s
}

// opts turns a plan into commit options with drawn framing.
func (w *World) opts(pl *Plan) *ref.CommitOpts {
	o := &ref.CommitOpts{By: pl.By, Items: pl.Items, Path: pl.Path, Wire: w.wire(), AAD: w.aad(), Frame: w.frame()}
	if pl.Path {
		if w.Chance("rotate committer key", 5) {
			_, o.NewSigPriv = w.S.GenSig()
		}
		if w.Chance("new committer leaf", 4) {
			o.Leaf = w.renew
		}
	}
	return o
}

// execute makes the planned commit, delivers it, checks that removed members
// do not follow, and lets the invitees join.
func (w *World) execute(pl *Plan) *ref.Result {
	o := w.opts(pl)
	w.op("%s wire=%d", pl, o.Wire)
	res := w.G.Commit(o)
	w.follow(res, pl)
	w.welcome(res, pl, nil)
	return res
}

// removedBy returns the go members that a plan removes.
func (w *World) removedBy(pl *Plan) []uint32 {
	var out []uint32
	for _, it := range pl.Items {
		if it.Prop.Type == ref.PropRemove && w.Go[it.Prop.Removed] != nil {
			out = append(out, it.Prop.Removed)
		}
	}
	return out
}

// follow delivers a commit and moves the world to the next epoch.
func (w *World) follow(res *ref.Result, pl *Plan) {
	gone := w.removedBy(pl)
	w.deliver(pl.String(), res.Raw, gone...)
	for _, l := range gone {
		gm := w.Go[l]
		if got, err := gm.G.UnmarshalAndProcessMessage(res.Raw); err == nil {
			w.Fatalf("removed member at leaf %d accepts the commit that removes it (data %x)", l, got)
		}
		w.Ex = append(w.Ex, gm)
		delete(w.Go, l)
	}
	w.G = res.G
	w.Pend = nil
	w.commits++
	w.widest = max(w.widest, w.G.Tree.NumLeaves())
	if pl.Path {
		w.paths++
		w.class("path commit")
	}
	for _, l := range w.goLeaves() {
		w.inSync(w.Go[l])
	}
}

// welcome makes the Welcome for the invitees of a commit; go clients join.
func (w *World) welcome(res *ref.Result, pl *Plan, wo *ref.WelcomeOpts) {
	if len(pl.Invitees) == 0 {
		return
	}
	if wo == nil {
		wo = &ref.WelcomeOpts{Signer: pl.By}
		if w.Chance("group info extensions", 4) {
			wo.Exts = []ref.Ext{{Type: 0xf0f0, Data: w.payload(w.Int("ext size", 0, 70))}}
			wo.ExtsFirst = w.Bool("ext first")
		}
	}
	raw := res.Welcome(wo)
	for i, inv := range pl.Invitees {
		if inv.Go == nil {
			continue
		}
		w.join(inv.Go, raw, res.Added[i])
	}
}

func (w *World) join(gm *GoMember, raw []byte, leaf uint32) {
	wel, err := mls.UnmarshalWelcome(raw)
	w.must(err, "UnmarshalWelcome of a valid Welcome")
	g, err := mls.GroupFromWelcome(wel, gm.KPP)
	w.must(err, "go client for leaf %d cannot join", leaf)
	gm.G, gm.Leaf = g, leaf
	w.Go[leaf] = gm
	w.inSync(gm)
}

// goInvite lets a go member invite clients; every member processes the commit.
func (w *World) goInvite(by uint32, invs []Invitee) {
	w.op("go member %d invites %d", by, len(invs))
	var kps []mls.KeyPackage
	for _, inv := range invs {
		if inv.Go != nil {
			kps = append(kps, inv.Go.KPP.Public)
		} else {
			kps = append(kps, *w.goKP(inv.Ref.KP))
		}
	}
	wel, raw, err := w.Go[by].G.CreateWelcome(kps)
	w.must(err, "CreateWelcome by leaf %d", by)
	w.followGo(by, invs, wel, raw)
}

// followGo processes an invitation issued by a go member.
func (w *World) followGo(by uint32, invs []Invitee, wel *mls.Welcome, raw []byte) {
	o, err := w.open(raw)
	w.must(err, "commit of go member %d is not valid in its epoch", by)
	if o.AC.Content.Sender.Index != by {
		w.Fatalf("commit of go member %d claims sender %d", by, o.AC.Content.Sender.Index)
	}
	pending := map[string]ref.Item{}
	for _, it := range w.Pend {
		pending[string(it.Ref)] = it
	}
	res, err := w.G.Follow(o, pending)
	w.must(err, "reference cannot follow the commit of go member %d", by)
	if len(res.Added) != len(invs) {
		w.Fatalf("commit adds %d members instead of %d", len(res.Added), len(invs))
	}
	for i, inv := range invs {
		if !bytes.Equal(ref.Bytes(res.AddedPkgs[i]), ref.Bytes(inv.kp())) {
			w.Fatalf("commit adds another key package than the one invited")
		}
		res.G.Sig[res.Added[i]] = inv.sig()
	}
	w.deliver("commit of go member", raw)
	w.G = res.G
	w.Pend = nil
	w.commits++
	w.widest = max(w.widest, w.G.Tree.NumLeaves())
	for _, l := range w.goLeaves() {
		w.inSync(w.Go[l])
	}
	for i, inv := range invs {
		if inv.Go != nil {
			w.join(inv.Go, wel.Bytes(), res.Added[i])
			continue
		}
		if w.Sparse > 0 && i%w.Sparse != 0 {
			continue
		}
		rg, me, gi, err := ref.Join(wel.Bytes(), inv.Ref.KP, inv.Ref.Init)
		w.must(err, "reference client cannot join through the Welcome of go member %d", by)
		if me != res.Added[i] || gi.Signer != by {
			w.Fatalf("Welcome: joiner at leaf %d, want %d; signer %d, want %d", me, res.Added[i], gi.Signer, by)
		}
		w.must(rg.Same(res.G), "Welcome of go member %d leads to another epoch than its commit", by)
	}
}

// traffic sends a few messages in both directions.
func (w *World) traffic() {
	gos := w.goLeaves()
	if len(gos) == 0 {
		return
	}
	for n := w.Int("messages", 1, 3); n > 0; n-- {
		gm := w.Go[gos[w.Int("speaker", 0, len(gos)-1)]]
		data := w.Bytes("payload", 70000)
		w.op("go member %d sends %d bytes", gm.Leaf, len(data))
		raw, err := gm.G.CreateApplicationMessage(bytes.Clone(data))
		w.must(err, "CreateApplicationMessage")
		o, err := w.open(raw)
		w.must(err, "message of go member")
		if !bytes.Equal(o.AC.Content.App, data) || o.SD.Leaf != gm.Leaf {
			w.Fatalf("message of go member decrypts to something else")
		}
		for _, l := range gos {
			if l == gm.Leaf {
				continue
			}
			got, err := w.Go[l].G.UnmarshalAndProcessMessage(raw)
			w.must(err, "go member %d rejects message of go member %d", l, gm.Leaf)
			if !bytes.Equal(got, data) {
				w.Fatalf("go member %d reads something else", l)
			}
		}
	}
}

// closing verifies at the end of a history that everybody can still follow: a
// path commit by a reference member and an invitation by a go member.
func (w *World) closing() {
	if refs := w.refLeaves(); len(refs) > 0 {
		pl := &Plan{By: refs[w.rnd.IntN(len(refs))], Path: true}
		w.follow(w.G.Commit(&ref.CommitOpts{By: pl.By, Path: true, Wire: ref.WirePublic}), pl)
	}
	if gos := w.goLeaves(); len(gos) > 0 {
		w.goInvite(gos[w.rnd.IntN(len(gos))], []Invitee{{Ref: w.plainRef()}})
	}
}

func (w *World) plainRef() *RefPkg {
	p := w.Plain
	w.Plain = true
	defer func() { w.Plain = p }()
	return w.newRef()
}

// crowded lets many clients join at once, now and then.
func (w *World) crowded(o GenOpts) {
	if !w.Chance("crowd", 20) || len(w.refLeaves()) == 0 {
		return
	}
	w.class("crowd")
	w.large(w.Int("extra", 10, 75), o.GoBias > 0)
}

// filled leads, now and then, to nodes with many unmerged leaves: most members
// of the right half are removed, one of the others there sends a path, and then
// many are added.
func (w *World) filled(o GenOpts) {
	if !w.Chance("filled", 25) || len(w.refLeaves()) == 0 {
		return
	}
	w.class("filled")
	half := 8 << w.Int("half", 0, 1)
	if n := 2*half - w.Int("short", 0, 2) - len(w.members()); n > 0 {
		w.large(n, o.GoBias > 0)
	}
	refs := w.refLeaves()
	pl := &Plan{By: refs[len(refs)-1], Path: true}
	gone := 0
	for _, l := range refs[:len(refs)-1] {
		if int(l) > half && int(l) < 2*half && w.rnd.IntN(8) > 0 {
			pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: pl.By})
			gone++
		}
	}
	w.execute(pl)
	refs = w.refLeaves()
	low := func() uint32 { return refs[w.Int("committer", 0, min(len(refs)-1, half/2))] }
	before, after := w.Bool("path before"), w.Bool("path after")
	if before {
		w.execute(&Plan{By: low(), Path: true})
	}
	pl = &Plan{By: refs[w.Int("committer", 0, len(refs)-1)]}
	for n := w.Int("more", max(1, gone/2), max(1, gone)); n > 0; n-- {
		inv := Invitee{Ref: w.plainRef()}
		if o.GoBias > 0 && (n == 1 || w.Chance("by the library", 15)) {
			inv = Invitee{Go: w.newGo()}
		}
		pl.Items = append(pl.Items, inv.item(pl.By))
		pl.Invitees = append(pl.Invitees, inv)
	}
	w.execute(pl)
	if after {
		w.execute(&Plan{By: low(), Path: true})
	}
}

// shapes drives the group into a random reachable state.
func (w *World) shapes(steps int, o GenOpts) {
	w.crowded(o)
	w.filled(o)
	for i := 0; i < steps; i++ {
		gos := w.goLeaves()
		switch k := w.weighted("step", 6, 2, 1); {
		case k == 1 && len(gos) > 0 && len(w.members()) < o.MaxLeaves:
			by := gos[w.Int("inviter", 0, len(gos)-1)]
			var invs []Invitee
			for n := w.Int("batch", 1, min(3, o.MaxLeaves-len(w.members()))); n > 0; n-- {
				invs = append(invs, w.invitee(o.GoBias))
			}
			w.goInvite(by, invs)
		case k == 2 && len(gos) > 0:
			w.traffic()
		default:
			w.execute(w.genCommit(o))
		}
	}
}

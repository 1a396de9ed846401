package mlsref

import (
	"bytes"
	"errors"
	"fmt"
	"time"
)

// Group is the complete (omniscient) state of one epoch: everything the
// members share plus the signing keys of all members whose keys are known.
// It is never modified after creation; commits produce a new Group.
type Group struct {
	S       *Suite
	Ctx     Context
	Tree    *Tree
	Interim []byte
	Epoch   []byte // epoch secret
	Init    []byte
	Joiner  []byte // joiner secret this epoch was entered with (nil at creation)
	ConfTag []byte
	Sig     map[uint32][]byte // leaf index -> signing key
	NodePrv map[string][]byte // hex-free: public HPKE key -> private key, for nodes made by reference commits
}

func (s *Suite) Zero() []byte { return make([]byte, s.Nh) }

// Secret derives one of the epoch's named secrets.
func (g *Group) Secret(label string) []byte { return g.S.DeriveSecret(g.Epoch, label) }

// NewGroup creates a group whose only member has the given leaf.
func NewGroup(s *Suite, groupID []byte, leaf *Leaf, sigPriv []byte, exts []Ext) *Group {
	t := NewTree()
	t.Add(leaf)
	g := &Group{S: s, Tree: t, Sig: map[uint32][]byte{0: sigPriv}, NodePrv: map[string][]byte{}}
	g.Ctx = Context{Version: MLS10, Suite: s.ID, GroupID: groupID, TreeHash: t.RootHash(s), CTH: s.Zero(), Exts: exts}
	g.Ctx.CTH = []byte{}
	g.Epoch = Rand(s.Nh)
	g.Init = g.Secret("init")
	g.ConfTag = s.MAC(g.Secret("confirm"), g.Ctx.CTH)
	g.Interim = s.Interim(g.Ctx.CTH, g.ConfTag)
	return g
}

// Interim computes the interim transcript hash.
func (s *Suite) Interim(cth, tag []byte) []byte {
	var w W
	w.Vec(tag)
	return s.H(cth, w.B)
}

// ConfirmedHash computes the confirmed transcript hash for a commit.
func (s *Suite) ConfirmedHash(interim []byte, ac *AuthContent) []byte {
	var w W
	w.U16(ac.Wire)
	ac.Content.Enc(&w)
	w.Vec(ac.Auth.Sig)
	return s.H(interim, w.B)
}

// JoinerSecret, EpochSecret and WelcomeSecret implement section 8.
func (s *Suite) JoinerSecret(init, commit []byte, ctx *Context) []byte {
	return s.ExpandWithLabel(s.Extract(init, commit), "joiner", Bytes(ctx), s.Nh)
}

func (s *Suite) member(joiner, psk []byte) []byte {
	if psk == nil {
		psk = s.Zero()
	}
	return s.Extract(joiner, psk)
}

func (s *Suite) EpochSecret(joiner, psk []byte, ctx *Context) []byte {
	return s.ExpandWithLabel(s.member(joiner, psk), "epoch", Bytes(ctx), s.Nh)
}

func (s *Suite) WelcomeSecret(joiner, psk []byte) []byte {
	return s.DeriveSecret(s.member(joiner, psk), "welcome")
}

// PSKSecret combines PSKs (section 8.4).
func (s *Suite) PSKSecret(ids []PSKID, psks [][]byte) []byte {
	out := s.Zero()
	for i := range ids {
		ext := s.Extract(s.Zero(), psks[i])
		var w W
		ids[i].Enc(&w)
		w.U16(uint16(i))
		w.U16(uint16(len(ids)))
		in := s.ExpandWithLabel(ext, "derived psk", w.B, s.Nh)
		out = s.Extract(in, out)
	}
	return out
}

// Exporter is MLS-Exporter.
func (s *Suite) Exporter(exporter []byte, label string, context []byte, n int) []byte {
	return s.ExpandWithLabel(s.DeriveSecret(exporter, label), "exported", s.H(context), n)
}

// LeafSecret derives the secret-tree leaf secret.
func (s *Suite) LeafSecret(enc []byte, depth int, leaf uint32) []byte {
	x := enc
	for l := depth - 1; l >= 0; l-- {
		side := "left"
		if leaf>>l&1 == 1 {
			side = "right"
		}
		x = s.ExpandWithLabel(x, "tree", []byte(side), s.Nh)
	}
	return x
}

// RatchetKey derives key and nonce of one generation.
func (s *Suite) RatchetKey(leafSecret []byte, label string, gen uint32) (key, nonce []byte) {
	x := s.ExpandWithLabel(leafSecret, label, nil, s.Nh)
	for i := uint32(0); i < gen; i++ {
		x = s.DeriveTreeSecret(x, "secret", i, s.Nh)
	}
	return s.DeriveTreeSecret(x, "key", gen, s.Nk), s.DeriveTreeSecret(x, "nonce", gen, s.Nn)
}

func ratchetLabel(ct uint8) string {
	if ct == ContentApp {
		return "application"
	}
	return "handshake"
}

// SenderData is the plaintext sender data of a private message.
type SenderData struct {
	Leaf, Gen uint32
	Guard     [4]byte
}

func (d *SenderData) Enc(w *W) { w.U32(d.Leaf); w.U32(d.Gen); w.Raw(d.Guard[:]) }

func (s *Suite) SenderDataKey(secret, ct []byte) (key, nonce []byte) {
	sample := ct[:min(s.Nh, len(ct))]
	return s.ExpandWithLabel(secret, "key", sample, s.Nk), s.ExpandWithLabel(secret, "nonce", sample, s.Nn)
}

// Frame says how an authenticated content is put on the wire, and how it is
// corrupted on the way (for forgeries by insiders).
type Frame struct {
	Gen   uint32
	Guard []byte // 4 bytes, random when nil
	Pad   int

	// Corruptions.
	PadByte    byte                     // a non-zero byte somewhere in the padding
	PadAt      int                      // its position
	SD         func(d *SenderData)      // change sender data before its encryption
	SDRaw      []byte                   // replace encoded sender data
	Key        func(leaf uint32) uint32 // use the ratchet of another leaf
	PrivHead   func(m *PrivMsg)         // change headers before encryption (they are the AAD)
	PrivPost   func(m *PrivMsg)         // change the finished message
	Plain      func(p []byte) []byte    // change the plaintext
	MemKey     []byte
	MemTag     func(tag []byte) []byte
	PubPost    func(m *PubMsg)
	SDSecret   []byte
	EncSecret  []byte
	RatchetLbl string
}

// Protect encodes a signed content as MLSMessage.
func (g *Group) Protect(ac *AuthContent, f *Frame) []byte {
	if f == nil {
		f = &Frame{}
	}
	s := g.S
	if ac.Wire == WirePublic {
		m := &PubMsg{Content: ac.Content, Auth: ac.Auth}
		var w W
		w.Raw(ac.TBS(&g.Ctx))
		ac.Auth.enc(&w, ac.Content.Type)
		key := g.Secret("membership")
		if f.MemKey != nil {
			key = f.MemKey
		}
		m.MemTag = s.MAC(key, w.B)
		if f.MemTag != nil {
			m.MemTag = f.MemTag(m.MemTag)
		}
		if f.PubPost != nil {
			f.PubPost(m)
		}
		return Message(WirePublic, Bytes(m))
	}

	m := &PrivMsg{GroupID: ac.Content.GroupID, Epoch: ac.Content.Epoch, Type: ac.Content.Type, AAD: ac.Content.AAD}
	if f.PrivHead != nil {
		f.PrivHead(m)
	}
	var w W
	ac.Content.encBody(&w)
	ac.Auth.enc(&w, ac.Content.Type)
	plain := append(w.B, make([]byte, f.Pad)...)
	if f.PadByte != 0 && f.Pad > 0 {
		plain[len(w.B)+f.PadAt%f.Pad] = f.PadByte
	}
	if f.Plain != nil {
		plain = f.Plain(plain)
	}
	sd := SenderData{Leaf: ac.Content.Sender.Index, Gen: f.Gen}
	if f.Guard != nil {
		copy(sd.Guard[:], f.Guard)
	} else {
		copy(sd.Guard[:], Rand(4))
	}
	keyLeaf := sd.Leaf
	if f.Key != nil {
		keyLeaf = f.Key(keyLeaf)
	}
	encSecret, sdSecret := g.Secret("encryption"), g.Secret("sender data")
	if f.EncSecret != nil {
		encSecret = f.EncSecret
	}
	if f.SDSecret != nil {
		sdSecret = f.SDSecret
	}
	lbl := ratchetLabel(ac.Content.Type)
	if f.RatchetLbl != "" {
		lbl = f.RatchetLbl
	}
	key, nonce := s.RatchetKey(s.LeafSecret(encSecret, g.Tree.D, keyLeaf), lbl, sd.Gen)
	for i := range sd.Guard {
		nonce[i] ^= sd.Guard[i]
	}
	m.Ct = s.Seal(key, nonce, plain, m.aad())
	if f.SD != nil {
		f.SD(&sd)
	}
	sdk, sdn := s.SenderDataKey(sdSecret, m.Ct)
	raw := Bytes(&sd)
	if f.SDRaw != nil {
		raw = f.SDRaw
	}
	m.EncSD = s.Seal(sdk, sdn, raw, m.sdAAD())
	if f.PrivPost != nil {
		f.PrivPost(m)
	}
	return Message(WirePrivate, Bytes(m))
}

func (m *PrivMsg) aad() []byte {
	var w W
	w.Vec(m.GroupID)
	w.U64(m.Epoch)
	w.U8(m.Type)
	w.Vec(m.AAD)
	return w.B
}

func (m *PrivMsg) sdAAD() []byte {
	var w W
	w.Vec(m.GroupID)
	w.U64(m.Epoch)
	w.U8(m.Type)
	return w.B
}

// Opened is the result of Unprotect.
type Opened struct {
	AC  AuthContent
	SD  SenderData
	Pad int
	Key []byte // of the content of a private message
}

// Unprotect decrypts and authenticates a message of this epoch. Padding must be zero.
func (g *Group) Unprotect(raw []byte) (*Opened, error) {
	s := g.S
	wire, body, err := OpenMessage(raw)
	if err != nil {
		return nil, err
	}
	var o Opened
	o.AC.Wire = wire
	r := R{B: body}
	switch wire {
	case WirePublic:
		var m PubMsg
		m.Dec(&r)
		if err := r.Done(); err != nil {
			return nil, err
		}
		o.AC.Content, o.AC.Auth = m.Content, m.Auth
		if m.Content.Sender.Type != SenderMember {
			return nil, errors.New("mlsref: sender type")
		}
		if m.Content.Type == ContentApp {
			return nil, errors.New("mlsref: public application data")
		}
		var w W
		w.Raw(o.AC.TBS(&g.Ctx))
		m.Auth.enc(&w, m.Content.Type)
		if !bytes.Equal(m.MemTag, s.MAC(g.Secret("membership"), w.B)) {
			return nil, errors.New("mlsref: membership tag")
		}
	case WirePrivate:
		var m PrivMsg
		m.Dec(&r)
		if err := r.Done(); err != nil {
			return nil, err
		}
		k, n := s.SenderDataKey(g.Secret("sender data"), m.Ct)
		raw, err := s.Open(k, n, m.EncSD, m.sdAAD())
		if err != nil {
			return nil, fmt.Errorf("mlsref: sender data: %w", err)
		}
		sr := R{B: raw}
		o.SD = SenderData{Leaf: sr.U32(), Gen: sr.U32()}
		copy(o.SD.Guard[:], sr.take(4))
		if err := sr.Done(); err != nil {
			return nil, err
		}
		if g.Tree.Leaf(o.SD.Leaf) == nil {
			return nil, errors.New("mlsref: blank sender")
		}
		key, nonce := s.RatchetKey(s.LeafSecret(g.Secret("encryption"), g.Tree.D, o.SD.Leaf), ratchetLabel(m.Type), o.SD.Gen)
		o.Key = key
		for i := range o.SD.Guard {
			nonce[i] ^= o.SD.Guard[i]
		}
		pt, err := s.Open(key, nonce, m.Ct, m.aad())
		if err != nil {
			return nil, fmt.Errorf("mlsref: content: %w", err)
		}
		o.AC.Content = Content{GroupID: m.GroupID, Epoch: m.Epoch, Sender: Sender{SenderMember, o.SD.Leaf}, AAD: m.AAD, Type: m.Type}
		pr := R{B: pt}
		o.AC.Content.decBody(&pr)
		o.AC.Auth.dec(&pr, m.Type)
		if pr.Err != nil {
			return nil, pr.Err
		}
		o.Pad = len(pr.B)
		for _, b := range pr.B {
			if b != 0 {
				return nil, errors.New("mlsref: padding")
			}
		}
	default:
		return nil, errors.New("mlsref: wire format")
	}
	c := &o.AC.Content
	if !bytes.Equal(c.GroupID, g.Ctx.GroupID) || c.Epoch != g.Ctx.Epoch {
		return nil, errors.New("mlsref: group id or epoch")
	}
	l := g.Tree.Leaf(c.Sender.Index)
	if l == nil {
		return nil, errors.New("mlsref: blank sender")
	}
	if !s.Verify(l.SigKey, "FramedContentTBS", o.AC.TBS(&g.Ctx), o.AC.Auth.Sig) {
		return nil, errors.New("mlsref: signature")
	}
	return &o, nil
}

// NewContent prepares a content of this epoch sent by a member.
func (g *Group) NewContent(by uint32, ct uint8) Content {
	return Content{GroupID: g.Ctx.GroupID, Epoch: g.Ctx.Epoch, Sender: Sender{SenderMember, by}, Type: ct}
}

// SignContent signs a content; key nil means the sender's own key.
func (g *Group) SignContent(wire uint16, c Content, key []byte) *AuthContent {
	ac := &AuthContent{Wire: wire, Content: c}
	if key == nil {
		key = g.Sig[c.Sender.Index]
	}
	if key == nil {
		panic("mlsref: no signing key for sender")
	}
	ac.Auth.Sig = g.S.Sign(key, "FramedContentTBS", ac.TBS(&g.Ctx))
	return ac
}

// AppMessage creates an application message.
func (g *Group) AppMessage(by uint32, data, aad []byte, f *Frame) []byte {
	c := g.NewContent(by, ContentApp)
	c.App, c.AAD = data, aad
	return g.Protect(g.SignContent(WirePrivate, c, nil), f)
}

// ProposalMessage creates a standalone proposal and its reference.
func (g *Group) ProposalMessage(by uint32, p *Proposal, wire uint16, aad []byte, f *Frame) (raw, ref []byte) {
	c := g.NewContent(by, ContentProposal)
	c.Prop, c.AAD = p, aad
	ac := g.SignContent(wire, c, nil)
	return g.Protect(ac, f), ac.ProposalRef(g.S)
}

// Item is one entry of a commit's proposal list, resolved.
type Item struct {
	Prop   *Proposal
	Sender uint32
	Ref    []byte // nil: inline
	// SigPriv is the signing key that goes with the leaf of an Add or Update.
	SigPriv []byte
}

// CommitOpts describes a commit to be made.
type CommitOpts struct {
	By    uint32
	Items []Item
	Path  bool
	Wire  uint16
	AAD   []byte
	Frame *Frame

	NewSigPriv []byte      // rotate the committer's signing key (path only)
	Leaf       func(*Leaf) // change the committer's new leaf before it is signed

	Evil Evil
}

// Evil are corruptions of a commit that are otherwise computed consistently.
type Evil struct {
	Tree         func(t *Tree)                     // after proposals, before the path
	LeafSigner   []byte                            // sign the path leaf with this key
	LeafGroup    []byte                            // sign the path leaf for this group id
	LeafIdx      *uint32                           // ... for this index
	LeafPost     func(*Leaf)                       // change the leaf after signing
	LeafParent   func([]byte) []byte               // change the leaf's parent hash before signing
	Secrets      func(i int, secret []byte) []byte // change path secret i when it is encrypted
	PubKey       func(i int, pub []byte) []byte    // publish another key for path node i
	Path         func(*UpdatePath)                 // change the finished path
	EncryptNew   bool                              // also encrypt to newly added leaves
	DropNodes    int                               // leave out that many path nodes (from the top)
	ExtraNodes   int                               // add path nodes
	Content      func(*Content)                    // change the content before signing
	SignKey      []byte                            // sign with this key
	Sig          func([]byte) []byte               // change signature
	Auth         func(*AuthContent)                // change the signed content before the transcript hash
	Sent         func(*Content)                    // change the content when it is sent, after everything else
	ConfTag      func([]byte) []byte               // change confirmation tag
	Ctx          func(*Context)                    // change the new context (before key schedule)
	CommitSecret func([]byte) []byte
	Init         []byte
	PSKSecret    []byte
	KeepExts     bool // ignore group context extensions proposals
}

// Result is the outcome of making a commit.
type Result struct {
	Raw         []byte
	AC          *AuthContent
	G           *Group // next epoch
	Added       []uint32
	AddedPkgs   []*KeyPackage
	PathSecrets map[Pos][]byte // secrets of the filtered path nodes
	CommitSec   []byte
}

// Apply applies resolved proposals in the order of section 12.3 and returns
// the indices of added leaves.
func (t *Tree) Apply(items []Item) (added []uint32) {
	for _, it := range items {
		if it.Prop.Type == PropUpdate {
			t.Update(it.Sender, it.Prop.Update)
		}
	}
	// Removals first blank, then truncate at the end: equivalent to one by
	// one removal, but robust against indices beyond a truncated tree.
	for _, it := range items {
		if it.Prop.Type == PropRemove && int64(it.Prop.Removed) < int64(len(t.Lf)) {
			i := it.Prop.Removed
			t.Lf[i] = nil
			for _, p := range t.DirectPath(int(i)) {
				delete(t.Par, p)
			}
		}
	}
	for _, it := range items {
		if it.Prop.Type == PropRemove {
			t.Truncate()
			break
		}
	}
	for _, it := range items {
		if it.Prop.Type == PropAdd {
			l := it.Prop.Add.Leaf
			added = append(added, t.Add(&l))
		}
	}
	return added
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Commit makes a commit. The options may violate the RFC in any way.
func (g *Group) Commit(o *CommitOpts) *Result {
	s := g.S
	ev := &o.Evil
	res := &Result{PathSecrets: map[Pos][]byte{}}
	n := &Group{S: s, Tree: g.Tree.Clone(), Sig: cloneMap(g.Sig), NodePrv: cloneMap(g.NodePrv)}
	t := n.Tree

	res.Added = t.Apply(o.Items)
	k := 0
	for _, it := range o.Items {
		switch it.Prop.Type {
		case PropUpdate:
			if it.SigPriv != nil {
				n.Sig[it.Sender] = it.SigPriv
			}
		case PropRemove:
			delete(n.Sig, it.Prop.Removed)
		}
	}
	for _, it := range o.Items {
		if it.Prop.Type == PropAdd {
			delete(n.Sig, res.Added[k])
			if it.SigPriv != nil {
				n.Sig[res.Added[k]] = it.SigPriv
			}
			res.AddedPkgs = append(res.AddedPkgs, it.Prop.Add)
			k++
		}
	}
	if ev.Tree != nil {
		ev.Tree(t)
	}

	n.Ctx = g.Ctx
	n.Ctx.Epoch++
	for _, it := range o.Items {
		if it.Prop.Type == PropGCE && !ev.KeepExts {
			n.Ctx.Exts = it.Prop.Exts
		}
	}

	c := &Commit{}
	for _, it := range o.Items {
		if it.Ref != nil {
			c.Props = append(c.Props, PropOrRef{Ref: it.Ref})
		} else {
			c.Props = append(c.Props, PropOrRef{Prop: it.Prop})
		}
	}

	commitSecret := s.Zero()
	if o.Path {
		commitSecret = n.makePath(g, o, c, res)
	} else {
		n.Ctx.TreeHash = t.RootHash(s)
	}
	if ev.CommitSecret != nil {
		commitSecret = ev.CommitSecret(commitSecret)
	}
	res.CommitSec = commitSecret

	content := g.NewContent(o.By, ContentCommit)
	content.Commit, content.AAD = c, o.AAD
	if ev.Content != nil {
		ev.Content(&content)
	}
	ac := g.SignContent(o.Wire, content, ev.SignKey)
	if ev.Sig != nil {
		ac.Auth.Sig = ev.Sig(ac.Auth.Sig)
	}
	if ev.Auth != nil {
		ev.Auth(ac)
	}
	n.Ctx.CTH = s.ConfirmedHash(g.Interim, ac)
	if ev.Ctx != nil {
		ev.Ctx(&n.Ctx)
	}
	init := g.Init
	if ev.Init != nil {
		init = ev.Init
	}
	n.Joiner = s.JoinerSecret(init, commitSecret, &n.Ctx)
	n.Epoch = s.EpochSecret(n.Joiner, ev.PSKSecret, &n.Ctx)
	n.Init = n.Secret("init")
	n.ConfTag = s.MAC(n.Secret("confirm"), n.Ctx.CTH)
	ac.Auth.ConfTag = n.ConfTag
	if ev.ConfTag != nil {
		ac.Auth.ConfTag = ev.ConfTag(n.ConfTag)
	}
	n.Interim = s.Interim(n.Ctx.CTH, ac.Auth.ConfTag)
	res.AC = ac
	res.G = n
	if ev.Sent != nil {
		sent := *ac
		ev.Sent(&sent.Content)
		// whoever changes it also makes the confirmation tag fit
		if ev.ConfTag == nil {
			ctx := n.Ctx
			ctx.CTH = s.ConfirmedHash(g.Interim, &sent)
			es := s.EpochSecret(s.JoinerSecret(init, commitSecret, &ctx), ev.PSKSecret, &ctx)
			sent.Auth.ConfTag = s.MAC(s.DeriveSecret(es, "confirm"), ctx.CTH)
		}
		res.Raw = g.Protect(&sent, o.Frame)
		return res
	}
	res.Raw = g.Protect(ac, o.Frame)
	return res
}

// makePath creates an update path for the committer, merges it into n.Tree and
// returns the commit secret.
func (n *Group) makePath(g *Group, o *CommitOpts, c *Commit, res *Result) []byte {
	s, t, ev := n.S, n.Tree, &o.Evil
	by := int(o.By)
	old := t.Leaf(o.By)
	if old == nil {
		old = g.Tree.Leaf(o.By) // committer removed itself: an invalid commit
		for len(t.Lf) <= by {
			t.D++
			t.Lf = append(t.Lf, make([]*Leaf, len(t.Lf))...)
		}
	}
	leaf := old.Clone()
	sigPriv := g.Sig[o.By]
	if o.NewSigPriv != nil {
		sigPriv = o.NewSigPriv
		leaf.SigKey = must(s.SigPub(sigPriv))
		n.Sig[o.By] = sigPriv
	}
	encPub, encPriv := s.GenKEM()
	leaf.EncKey = encPub
	n.NodePrv[string(encPub)] = encPriv
	leaf.Source = SourceCommit
	leaf.NotBefore, leaf.NotAfter = 0, 0

	fp := t.FilteredPath(by)
	// resolutions of the copath, before the path is replaced (the copath is
	// not affected by it)
	res0 := make([][]Pos, len(fp))
	for i, p := range fp {
		res0[i] = t.Resolve(copathChild(p, by))
	}
	for _, p := range t.DirectPath(by) {
		delete(t.Par, p)
	}
	secrets := make([][]byte, len(fp))
	cur := Rand(s.Nh)
	pubs := make([][]byte, len(fp))
	for i, p := range fp {
		if i > 0 {
			cur = s.DeriveSecret(cur, "path")
		}
		secrets[i] = cur
		pub, priv := s.DeriveKEM(s.DeriveSecret(cur, "node"))
		if ev.PubKey != nil {
			pub = ev.PubKey(i, pub)
		}
		pubs[i] = pub
		n.NodePrv[string(pub)] = priv
		t.Par[p] = &Parent{EncKey: pub}
		res.PathSecrets[p] = cur
	}
	var commitSecret []byte
	if len(fp) == 0 {
		commitSecret = cur
	} else {
		commitSecret = s.DeriveSecret(cur, "path")
	}
	nodes := len(fp)
	if ev.DropNodes > 0 {
		nodes -= min(nodes, ev.DropNodes)
	}
	ph := []byte{}
	for i := len(fp) - 1; i >= 0; i-- {
		t.Par[fp[i]].ParentHash = ph
		ph = t.ParentHashOf(s, fp[i], copathChild(fp[i], by))
	}
	leaf.ParentHash = ph
	if ev.LeafParent != nil {
		leaf.ParentHash = ev.LeafParent(ph)
	}
	if o.Leaf != nil {
		o.Leaf(leaf)
	}
	group, idx := g.Ctx.GroupID, o.By
	if ev.LeafGroup != nil {
		group = ev.LeafGroup
	}
	if ev.LeafIdx != nil {
		idx = *ev.LeafIdx
	}
	signer := sigPriv
	if ev.LeafSigner != nil {
		signer = ev.LeafSigner
	}
	leaf.SignWith(s, signer, group, idx)
	if ev.LeafPost != nil {
		ev.LeafPost(leaf)
	}
	t.Lf[by] = leaf
	n.Ctx.TreeHash = t.RootHash(s)

	isNew := map[Pos]bool{}
	for _, a := range res.Added {
		isNew[Pos{0, int(a)}] = true
	}
	path := &UpdatePath{Leaf: *leaf}
	ctx := Bytes(&n.Ctx)
	for i := range fp[:nodes] {
		pn := PathNode{EncKey: pubs[i]}
		secret := secrets[i]
		if ev.Secrets != nil {
			secret = ev.Secrets(i, secret)
		}
		for _, r := range res0[i] {
			if isNew[r] && !ev.EncryptNew {
				continue
			}
			var pub []byte
			if r.L == 0 {
				pub = t.Lf[r.P].EncKey
			} else {
				pub = t.Par[r].EncKey
			}
			ct, err := s.Encrypt(pub, "UpdatePathNode", ctx, secret)
			if err != nil {
				// a key that an evil member published; nobody can use it
				ct = HPKECt{Rand(len(encPub)), Rand(s.Nh + 16)}
			}
			pn.Cts = append(pn.Cts, ct)
		}
		path.Nodes = append(path.Nodes, pn)
	}
	for i := 0; i < ev.ExtraNodes; i++ {
		pub, _ := s.GenKEM()
		path.Nodes = append(path.Nodes, PathNode{EncKey: pub})
	}
	if ev.Path != nil {
		ev.Path(path)
	}
	c.Path = path
	return commitSecret
}

// Follow processes a commit without path (as made by the implementation under
// test) and returns the next epoch. pending resolves references.
func (g *Group) Follow(o *Opened, pending map[string]Item) (*Result, error) {
	s := g.S
	c := o.AC.Content.Commit
	if c == nil {
		return nil, errors.New("mlsref: not a commit")
	}
	if c.Path != nil {
		return nil, errors.New("mlsref: following a path is not supported")
	}
	by := o.AC.Content.Sender.Index
	var items []Item
	for _, p := range c.Props {
		if p.Prop != nil {
			items = append(items, Item{Prop: p.Prop, Sender: by})
			continue
		}
		it, ok := pending[string(p.Ref)]
		if !ok {
			return nil, errors.New("mlsref: unknown reference")
		}
		items = append(items, it)
	}
	if len(items) == 0 {
		return nil, errors.New("mlsref: path required")
	}
	for _, it := range items {
		if it.Prop.Type != PropAdd {
			return nil, errors.New("mlsref: path required")
		}
	}
	res := &Result{}
	n := &Group{S: s, Tree: g.Tree.Clone(), Sig: cloneMap(g.Sig), NodePrv: cloneMap(g.NodePrv)}
	res.Added = n.Tree.Apply(items)
	for i, it := range items {
		delete(n.Sig, res.Added[i])
		res.AddedPkgs = append(res.AddedPkgs, it.Prop.Add)
	}
	n.Ctx = g.Ctx
	n.Ctx.Epoch++
	n.Ctx.TreeHash = n.Tree.RootHash(s)
	n.Ctx.CTH = s.ConfirmedHash(g.Interim, &o.AC)
	n.Joiner = s.JoinerSecret(g.Init, s.Zero(), &n.Ctx)
	n.Epoch = s.EpochSecret(n.Joiner, nil, &n.Ctx)
	n.Init = n.Secret("init")
	n.ConfTag = s.MAC(n.Secret("confirm"), n.Ctx.CTH)
	if !bytes.Equal(n.ConfTag, o.AC.Auth.ConfTag) {
		return nil, errors.New("mlsref: confirmation tag")
	}
	n.Interim = s.Interim(n.Ctx.CTH, n.ConfTag)
	res.G = n
	res.AC = &o.AC
	return res, nil
}

// WelcomeOpts describes a Welcome; the functions corrupt it.
type WelcomeOpts struct {
	Signer    uint32
	NoPath    bool // leave out path secrets
	Exts      []Ext
	ExtsFirst bool // put Exts before the tree extension

	Tree      func(t *Tree)           // change the tree that is sent (tree hash is recomputed unless KeepHash)
	RawTree   func(raw []byte) []byte // change the encoded tree (tree hash is not recomputed)
	KeepHash  bool
	Info      func(gi *GroupInfo)            // before confirmation tag and signature
	InfoTag   func(gi *GroupInfo)            // before signature
	SignKey   []byte                         //
	InfoPost  func(gi *GroupInfo)            // after signature
	InfoRaw   func(raw []byte) []byte        // encoded GroupInfo
	Secrets   func(i int, gs *GroupSecrets)  // per recipient
	SecretRaw func(i int, raw []byte) []byte // encoded secrets
	Post      func(w *Welcome)               // finished Welcome
	Refs      func(i int, ref []byte) []byte //
	InitKeys  func(i int, key []byte) []byte //
	EncCtx    func(b []byte) []byte          // context of the HPKE encryption
	Suite     *Suite                         // make the Welcome for another suite
	NoTree    bool
}

// Welcome creates the Welcome for the members added by a commit.
func (res *Result) Welcome(o *WelcomeOpts) []byte {
	n := res.G
	s := n.S
	if o.Suite != nil {
		s = o.Suite
	}
	joiner := n.Joiner
	tree := n.Tree
	ctx := n.Ctx
	tag := n.ConfTag
	if o.Tree != nil {
		tree = tree.Clone()
		o.Tree(tree)
		if !o.KeepHash {
			ctx.TreeHash = tree.RootHash(s)
		}
	}
	gi := &GroupInfo{Ctx: ctx, ConfTag: tag, Signer: o.Signer}
	raw := Bytes(tree)
	if o.RawTree != nil {
		raw = o.RawTree(raw)
	}
	te := []Ext{{ExtRatchetTree, raw}}
	if o.NoTree {
		te = nil
	}
	if o.ExtsFirst {
		gi.Exts = append(append([]Ext{}, o.Exts...), te...)
	} else {
		gi.Exts = append(te, o.Exts...)
	}
	if o.Info != nil {
		o.Info(gi)
	}
	if o.Tree != nil || o.Info != nil || o.Suite != nil {
		// an inviter who controls everything also makes the tag fit
		es := s.EpochSecret(joiner, nil, &gi.Ctx)
		gi.ConfTag = s.MAC(s.DeriveSecret(es, "confirm"), gi.Ctx.CTH)
	}
	if o.InfoTag != nil {
		o.InfoTag(gi)
	}
	key := n.Sig[gi.Signer]
	if key == nil {
		key = n.Sig[o.Signer]
	}
	if o.SignKey != nil {
		key = o.SignKey
	}
	gi.Sig = s.Sign(key, "GroupInfoTBS", gi.TBS())
	if o.InfoPost != nil {
		o.InfoPost(gi)
	}
	rawInfo := Bytes(gi)
	if o.InfoRaw != nil {
		rawInfo = o.InfoRaw(rawInfo)
	}
	ws := s.WelcomeSecret(joiner, nil)
	w := &Welcome{Suite: s.ID}
	w.EncInfo = s.Seal(s.ExpandWithLabel(ws, "key", nil, s.Nk), s.ExpandWithLabel(ws, "nonce", nil, s.Nn), rawInfo, nil)
	for i, kp := range res.AddedPkgs {
		gs := &GroupSecrets{Joiner: joiner}
		if len(res.PathSecrets) > 0 && !o.NoPath {
			for _, p := range n.Tree.DirectPath(int(res.Added[i])) {
				if p.Above(int(o.Signer)) {
					if sec, ok := res.PathSecrets[p]; ok {
						gs.HasPath, gs.Path = true, sec
					}
					break
				}
			}
		}
		if o.Secrets != nil {
			o.Secrets(i, gs)
		}
		rawSec := Bytes(gs)
		if o.SecretRaw != nil {
			rawSec = o.SecretRaw(i, rawSec)
		}
		init := kp.InitKey
		if o.InitKeys != nil {
			init = o.InitKeys(i, init)
		}
		ectx := w.EncInfo
		if o.EncCtx != nil {
			ectx = o.EncCtx(ectx)
		}
		ct, err := s.Encrypt(init, "Welcome", ectx, rawSec)
		if err != nil {
			ct = HPKECt{Rand(32), Rand(64)}
		}
		ref := kp.Ref(s)
		if o.Refs != nil {
			ref = o.Refs(i, ref)
		}
		w.Secrets = append(w.Secrets, WelcomeSecret{ref, ct})
	}
	if o.Post != nil {
		o.Post(w)
	}
	return Message(WireWelcome, Bytes(w))
}

// Join processes a Welcome with full verification and returns the epoch's
// state (without any signing keys) and the joiner's leaf index.
func Join(raw []byte, kp *KeyPackage, initPriv []byte) (*Group, uint32, *GroupInfo, error) {
	w, err := ParseWelcomeMsg(raw)
	if err != nil {
		return nil, 0, nil, err
	}
	fail := func(f string, a ...any) (*Group, uint32, *GroupInfo, error) {
		return nil, 0, nil, fmt.Errorf("mlsref: join: "+f, a...)
	}
	s := GetSuite(w.Suite)
	if s == nil || w.Suite != kp.Suite {
		return fail("suite")
	}
	ref := kp.Ref(s)
	var sec *WelcomeSecret
	for i := range w.Secrets {
		if bytes.Equal(w.Secrets[i].Ref, ref) {
			sec = &w.Secrets[i]
			break
		}
	}
	if sec == nil {
		return fail("not addressed")
	}
	pt, err := s.Decrypt(initPriv, "Welcome", w.EncInfo, sec.Ct)
	if err != nil {
		return fail("secrets: %v", err)
	}
	var gs GroupSecrets
	r := R{B: pt}
	gs.Dec(&r)
	if err := r.Done(); err != nil {
		return fail("secrets: %v", err)
	}
	if len(gs.PSKs) > 0 {
		return fail("psks")
	}
	if len(gs.Joiner) != s.Nh {
		return fail("joiner secret size")
	}
	ws := s.WelcomeSecret(gs.Joiner, nil)
	gpt, err := s.Open(s.ExpandWithLabel(ws, "key", nil, s.Nk), s.ExpandWithLabel(ws, "nonce", nil, s.Nn), w.EncInfo, nil)
	if err != nil {
		return fail("group info: %v", err)
	}
	var gi GroupInfo
	r = R{B: gpt}
	gi.Dec(&r)
	if err := r.Done(); err != nil {
		return fail("group info: %v", err)
	}
	var rawTree []byte
	for _, e := range gi.Exts {
		if e.Type == ExtRatchetTree {
			rawTree = e.Data
		}
	}
	if rawTree == nil {
		return fail("no tree")
	}
	t, err := ParseTree(rawTree)
	if err != nil {
		return fail("tree: %v", err)
	}
	if gi.Ctx.Suite != s.ID || gi.Ctx.Version != MLS10 {
		return fail("context")
	}
	if !bytes.Equal(t.RootHash(s), gi.Ctx.TreeHash) {
		return fail("tree hash")
	}
	if err := t.Validate(s, gi.Ctx.GroupID); err != nil {
		return fail("tree: %v", err)
	}
	if err := checkRequired(gi.Ctx.Exts, t); err != nil {
		return fail("%v", err)
	}
	for i, l := range t.Lf {
		if now := uint64(time.Now().Unix()); l != nil && l.Source == SourceKeyPackage && (l.NotBefore > now || l.NotAfter < now) {
			return fail("lifetime of leaf %d", i)
		}
	}
	sl := t.Leaf(gi.Signer)
	if sl == nil || !s.Verify(sl.SigKey, "GroupInfoTBS", gi.TBS(), gi.Sig) {
		return fail("group info signature")
	}
	g := &Group{S: s, Ctx: gi.Ctx, Tree: t, Joiner: gs.Joiner, Sig: map[uint32][]byte{}, NodePrv: map[string][]byte{}}
	g.Epoch = s.EpochSecret(gs.Joiner, nil, &gi.Ctx)
	g.Init = g.Secret("init")
	g.ConfTag = s.MAC(g.Secret("confirm"), gi.Ctx.CTH)
	if !bytes.Equal(g.ConfTag, gi.ConfTag) {
		return fail("confirmation tag")
	}
	g.Interim = s.Interim(gi.Ctx.CTH, gi.ConfTag)
	me := -1
	for i, l := range t.Lf {
		if l != nil && bytes.Equal(Bytes(l), Bytes(&kp.Leaf)) {
			me = i
		}
	}
	if me < 0 {
		return fail("own leaf missing")
	}
	if gs.HasPath {
		if me == int(gi.Signer) {
			return fail("path secret from myself")
		}
		if len(gs.Path) != s.Nh {
			return fail("path secret size")
		}
		cur, started := gs.Path, false
		for _, p := range t.DirectPath(me) {
			if !started && !p.Above(int(gi.Signer)) {
				continue
			}
			n := t.Par[p]
			if n == nil {
				if !started {
					return fail("path secret for a blank node")
				}
				continue
			}
			if started {
				cur = s.DeriveSecret(cur, "path")
			}
			started = true
			pub, priv := s.DeriveKEM(s.DeriveSecret(cur, "node"))
			if !bytes.Equal(pub, n.EncKey) {
				return fail("path secret does not match the tree")
			}
			g.NodePrv[string(pub)] = priv
		}
	}
	return g, uint32(me), &gi, nil
}

// checkRequired checks all leaves against the required_capabilities extension of
// the group context.
func checkRequired(exts []Ext, t *Tree) error {
	for _, e := range exts {
		if e.Type != ExtRequiredCapabilities {
			continue
		}
		r := R{B: e.Data}
		es, ps, cs := r.U16s(), r.U16s(), r.U16s()
		if err := r.Done(); err != nil {
			return fmt.Errorf("required capabilities: %v", err)
		}
		for i, l := range t.Lf {
			if l == nil {
				continue
			}
			for _, x := range es {
				if x > 5 && !has(l.Exts, x) {
					return fmt.Errorf("leaf %d lacks extension %d", i, x)
				}
			}
			for _, x := range ps {
				if x > 7 && !has(l.Props, x) {
					return fmt.Errorf("leaf %d lacks proposal %d", i, x)
				}
			}
			for _, x := range cs {
				if !has(l.Creds, x) {
					return fmt.Errorf("leaf %d lacks credential %d", i, x)
				}
			}
		}
	}
	return nil
}

// Same reports whether two states are the same epoch.
func (g *Group) Same(h *Group) error {
	switch {
	case !bytes.Equal(Bytes(&g.Ctx), Bytes(&h.Ctx)):
		return fmt.Errorf("group context differs: %+v vs %+v", g.Ctx, h.Ctx)
	case !bytes.Equal(Bytes(g.Tree), Bytes(h.Tree)):
		return errors.New("tree differs")
	case !bytes.Equal(g.Epoch, h.Epoch):
		return errors.New("epoch secret differs")
	case !bytes.Equal(g.Interim, h.Interim):
		return errors.New("interim transcript hash differs")
	}
	return nil
}

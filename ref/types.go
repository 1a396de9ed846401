package mlsref

import (
	"errors"
	"fmt"
)

// Registry values.
const (
	MLS10 = 1

	WirePublic, WirePrivate, WireWelcome, WireGroupInfo, WireKeyPackage = 1, 2, 3, 4, 5

	ContentApp, ContentProposal, ContentCommit = 1, 2, 3

	SenderMember, SenderExternal, SenderNewProposal, SenderNewCommit = 1, 2, 3, 4

	PropAdd, PropUpdate, PropRemove, PropPSK, PropReInit, PropExternalInit, PropGCE = 1, 2, 3, 4, 5, 6, 7

	SourceKeyPackage, SourceUpdate, SourceCommit = 1, 2, 3

	CredBasic, CredX509 = 1, 2

	ExtRatchetTree          = 2
	ExtRequiredCapabilities = 3
	ExtExternalSenders      = 5
)

type Credential struct {
	Type     uint16
	Identity []byte
	Certs    [][]byte
}

func (c *Credential) Enc(w *W) {
	w.U16(c.Type)
	if c.Type == CredX509 {
		w.Sub(func(w *W) {
			for _, x := range c.Certs {
				w.Vec(x)
			}
		})
	} else {
		w.Vec(c.Identity)
	}
}

func (c *Credential) Dec(r *R) {
	*c = Credential{Type: r.U16()}
	switch c.Type {
	case CredBasic:
		c.Identity = r.Vec()
	case CredX509:
		r.Sub(func(r *R) { c.Certs = append(c.Certs, r.Vec()) })
	default:
		r.fail(fmt.Errorf("mlsref: credential type %d", c.Type))
	}
}

type Ext struct {
	Type uint16
	Data []byte
}

func EncExts(w *W, exts []Ext) {
	w.Sub(func(w *W) {
		for _, e := range exts {
			w.U16(e.Type)
			w.Vec(e.Data)
		}
	})
}

func DecExts(r *R) (out []Ext) {
	r.Sub(func(r *R) { out = append(out, Ext{r.U16(), r.Vec()}) })
	return out
}

type Leaf struct {
	EncKey, SigKey                       []byte
	Cred                                 Credential
	Versions, Suites, Exts, Props, Creds []uint16
	Source                               uint8
	NotBefore, NotAfter                  uint64
	ParentHash                           []byte
	Extensions                           []Ext
	Sig                                  []byte
}

func (l *Leaf) encBase(w *W) {
	w.Vec(l.EncKey)
	w.Vec(l.SigKey)
	l.Cred.Enc(w)
	w.U16s(l.Versions)
	w.U16s(l.Suites)
	w.U16s(l.Exts)
	w.U16s(l.Props)
	w.U16s(l.Creds)
	w.U8(l.Source)
	switch l.Source {
	case SourceKeyPackage:
		w.U64(l.NotBefore)
		w.U64(l.NotAfter)
	case SourceCommit:
		w.Vec(l.ParentHash)
	}
	EncExts(w, l.Extensions)
}

func (l *Leaf) Enc(w *W) { l.encBase(w); w.Vec(l.Sig) }

func (l *Leaf) Dec(r *R) {
	*l = Leaf{}
	l.EncKey = r.Vec()
	l.SigKey = r.Vec()
	l.Cred.Dec(r)
	l.Versions = r.U16s()
	l.Suites = r.U16s()
	l.Exts = r.U16s()
	l.Props = r.U16s()
	l.Creds = r.U16s()
	l.Source = r.U8()
	switch l.Source {
	case SourceKeyPackage:
		l.NotBefore = r.U64()
		l.NotAfter = r.U64()
	case SourceUpdate:
	case SourceCommit:
		l.ParentHash = r.Vec()
	default:
		r.fail(errors.New("mlsref: leaf source"))
	}
	l.Extensions = DecExts(r)
	l.Sig = r.Vec()
}

func (l *Leaf) TBS(groupID []byte, idx uint32) []byte {
	var w W
	l.encBase(&w)
	if l.Source == SourceUpdate || l.Source == SourceCommit {
		w.Vec(groupID)
		w.U32(idx)
	}
	return w.B
}

func (l *Leaf) SignWith(s *Suite, priv, groupID []byte, idx uint32) {
	l.Sig = s.Sign(priv, "LeafNodeTBS", l.TBS(groupID, idx))
}

func (l *Leaf) Clone() *Leaf {
	var w W
	l.Enc(&w)
	var c Leaf
	r := R{B: w.B}
	c.Dec(&r)
	if r.Done() != nil {
		// unusual values chosen by a test: shallow copy is good enough
		c = *l
	}
	return &c
}

func Bytes(v interface{ Enc(*W) }) []byte {
	var w W
	v.Enc(&w)
	return w.B
}

type KeyPackage struct {
	Version, Suite uint16
	InitKey        []byte
	Leaf           Leaf
	Extensions     []Ext
	Sig            []byte
}

func (k *KeyPackage) TBS() []byte {
	var w W
	k.encTBS(&w)
	return w.B
}

func (k *KeyPackage) encTBS(w *W) {
	w.U16(k.Version)
	w.U16(k.Suite)
	w.Vec(k.InitKey)
	k.Leaf.Enc(w)
	EncExts(w, k.Extensions)
}

func (k *KeyPackage) Enc(w *W) { k.encTBS(w); w.Vec(k.Sig) }
func (k *KeyPackage) Dec(r *R) {
	*k = KeyPackage{Version: r.U16(), Suite: r.U16(), InitKey: r.Vec()}
	if r.Err == nil && k.Version != MLS10 {
		r.fail(errors.New("mlsref: version"))
	}
	k.Leaf.Dec(r)
	k.Extensions = DecExts(r)
	k.Sig = r.Vec()
}

func (k *KeyPackage) SignWith(s *Suite, priv []byte) {
	k.Sig = s.Sign(priv, "KeyPackageTBS", k.TBS())
}

func (k *KeyPackage) Ref(s *Suite) []byte {
	return s.RefHash("MLS 1.0 KeyPackage Reference", Bytes(k))
}

func (k *KeyPackage) Clone() *KeyPackage {
	c := *k
	c.Leaf = *k.Leaf.Clone()
	return &c
}

// Message wraps the encoding of a body into an MLSMessage.
func Message(wire uint16, body []byte) []byte {
	var w W
	w.U16(MLS10)
	w.U16(wire)
	w.Raw(body)
	return w.B
}

// OpenMessage splits an MLSMessage into wire format and body.
func OpenMessage(raw []byte) (uint16, []byte, error) {
	r := R{B: raw}
	v, wire := r.U16(), r.U16()
	if r.Err != nil {
		return 0, nil, r.Err
	}
	if v != MLS10 {
		return 0, nil, errors.New("mlsref: version")
	}
	return wire, r.B, nil
}

func ParseKeyPackageMsg(raw []byte) (*KeyPackage, error) {
	wire, body, err := OpenMessage(raw)
	if err != nil {
		return nil, err
	}
	if wire != WireKeyPackage {
		return nil, errors.New("mlsref: not a key package")
	}
	var k KeyPackage
	r := R{B: body}
	k.Dec(&r)
	return &k, r.Done()
}

// PSKID is a PreSharedKeyID.
type PSKID struct {
	Type    uint8
	ID      []byte
	Usage   uint8
	GroupID []byte
	Epoch   uint64
	Nonce   []byte
}

func (p *PSKID) Enc(w *W) {
	w.U8(p.Type)
	if p.Type == 2 {
		w.U8(p.Usage)
		w.Vec(p.GroupID)
		w.U64(p.Epoch)
	} else {
		w.Vec(p.ID)
	}
	w.Vec(p.Nonce)
}

func (p *PSKID) Dec(r *R) {
	*p = PSKID{Type: r.U8()}
	switch p.Type {
	case 1:
		p.ID = r.Vec()
	case 2:
		p.Usage = r.U8()
		if r.Err == nil && (p.Usage < 1 || p.Usage > 3) {
			r.fail(errors.New("mlsref: psk usage"))
		}
		p.GroupID = r.Vec()
		p.Epoch = r.U64()
	default:
		r.fail(errors.New("mlsref: psk type"))
	}
	p.Nonce = r.Vec()
}

// Proposal is any proposal; the fields used depend on Type.
type Proposal struct {
	Type    uint16
	Add     *KeyPackage
	Update  *Leaf
	Removed uint32
	PSK     *PSKID
	// ReInit
	GroupID        []byte
	Version, Suite uint16
	Exts           []Ext // ReInit and GroupContextExtensions
	KemOutput      []byte
}

func (p *Proposal) Enc(w *W) {
	w.U16(p.Type)
	switch p.Type {
	case PropAdd:
		p.Add.Enc(w)
	case PropUpdate:
		p.Update.Enc(w)
	case PropRemove:
		w.U32(p.Removed)
	case PropPSK:
		p.PSK.Enc(w)
	case PropReInit:
		w.Vec(p.GroupID)
		w.U16(p.Version)
		w.U16(p.Suite)
		EncExts(w, p.Exts)
	case PropExternalInit:
		w.Vec(p.KemOutput)
	case PropGCE:
		EncExts(w, p.Exts)
	}
}

func (p *Proposal) Dec(r *R) {
	*p = Proposal{Type: r.U16()}
	if r.Err != nil {
		return
	}
	switch p.Type {
	case PropAdd:
		p.Add = new(KeyPackage)
		p.Add.Dec(r)
	case PropUpdate:
		p.Update = new(Leaf)
		p.Update.Dec(r)
	case PropRemove:
		p.Removed = r.U32()
	case PropPSK:
		p.PSK = new(PSKID)
		p.PSK.Dec(r)
	case PropReInit:
		p.GroupID = r.Vec()
		p.Version = r.U16()
		p.Suite = r.U16()
		p.Exts = DecExts(r)
	case PropExternalInit:
		p.KemOutput = r.Vec()
	case PropGCE:
		p.Exts = DecExts(r)
	default:
		r.fail(fmt.Errorf("mlsref: proposal type %d", p.Type))
	}
}

// PropOrRef is an inline proposal (Prop != nil) or a reference.
type PropOrRef struct {
	Prop *Proposal
	Ref  []byte
}

type PathNode struct {
	EncKey []byte
	Cts    []HPKECt
}

func (n *PathNode) Enc(w *W) {
	w.Vec(n.EncKey)
	w.Sub(func(w *W) {
		for i := range n.Cts {
			n.Cts[i].Enc(w)
		}
	})
}

func (n *PathNode) Dec(r *R) {
	*n = PathNode{EncKey: r.Vec()}
	r.Sub(func(r *R) {
		var c HPKECt
		c.Dec(r)
		n.Cts = append(n.Cts, c)
	})
}

type UpdatePath struct {
	Leaf  Leaf
	Nodes []PathNode
}

func (p *UpdatePath) Enc(w *W) {
	p.Leaf.Enc(w)
	w.Sub(func(w *W) {
		for i := range p.Nodes {
			p.Nodes[i].Enc(w)
		}
	})
}

func (p *UpdatePath) Dec(r *R) {
	*p = UpdatePath{}
	p.Leaf.Dec(r)
	r.Sub(func(r *R) {
		var n PathNode
		n.Dec(r)
		p.Nodes = append(p.Nodes, n)
	})
}

type Commit struct {
	Props []PropOrRef
	Path  *UpdatePath
}

func (c *Commit) Enc(w *W) {
	w.Sub(func(w *W) {
		for _, p := range c.Props {
			if p.Prop != nil {
				w.U8(1)
				p.Prop.Enc(w)
			} else {
				w.U8(2)
				w.Vec(p.Ref)
			}
		}
	})
	w.Opt(c.Path != nil)
	if c.Path != nil {
		c.Path.Enc(w)
	}
}

func (c *Commit) Dec(r *R) {
	*c = Commit{}
	r.Sub(func(r *R) {
		switch r.U8() {
		case 1:
			p := new(Proposal)
			p.Dec(r)
			c.Props = append(c.Props, PropOrRef{Prop: p})
		case 2:
			c.Props = append(c.Props, PropOrRef{Ref: r.Vec()})
		default:
			r.fail(errors.New("mlsref: proposal or ref type"))
		}
	})
	if r.Opt() {
		c.Path = new(UpdatePath)
		c.Path.Dec(r)
	}
}

type Sender struct {
	Type  uint8
	Index uint32
}

func (s *Sender) Enc(w *W) {
	w.U8(s.Type)
	if s.Type == SenderMember || s.Type == SenderExternal {
		w.U32(s.Index)
	}
}

func (s *Sender) Dec(r *R) {
	*s = Sender{Type: r.U8()}
	switch s.Type {
	case SenderMember, SenderExternal:
		s.Index = r.U32()
	case SenderNewProposal, SenderNewCommit:
	default:
		r.fail(errors.New("mlsref: sender type"))
	}
}

// Content is a FramedContent. Body is the encoding of the content itself.
type Content struct {
	GroupID []byte
	Epoch   uint64
	Sender  Sender
	AAD     []byte
	Type    uint8
	App     []byte
	Prop    *Proposal
	Commit  *Commit
	Raw     []byte // replaces the encoding of the content itself
}

func (c *Content) encBody(w *W) {
	if c.Raw != nil {
		w.Raw(c.Raw)
		return
	}
	switch c.Type {
	case ContentApp:
		w.Vec(c.App)
	case ContentProposal:
		c.Prop.Enc(w)
	case ContentCommit:
		c.Commit.Enc(w)
	}
}

func (c *Content) decBody(r *R) {
	switch c.Type {
	case ContentApp:
		c.App = r.Vec()
	case ContentProposal:
		c.Prop = new(Proposal)
		c.Prop.Dec(r)
	case ContentCommit:
		c.Commit = new(Commit)
		c.Commit.Dec(r)
	default:
		r.fail(errors.New("mlsref: content type"))
	}
}

func (c *Content) Enc(w *W) {
	w.Vec(c.GroupID)
	w.U64(c.Epoch)
	c.Sender.Enc(w)
	w.Vec(c.AAD)
	w.U8(c.Type)
	c.encBody(w)
}

func (c *Content) Dec(r *R) {
	*c = Content{GroupID: r.Vec(), Epoch: r.U64()}
	c.Sender.Dec(r)
	c.AAD = r.Vec()
	c.Type = r.U8()
	if r.Err == nil {
		c.decBody(r)
	}
}

// Auth is FramedContentAuthData.
type Auth struct{ Sig, ConfTag []byte }

func (a *Auth) enc(w *W, ct uint8) {
	w.Vec(a.Sig)
	if ct == ContentCommit {
		w.Vec(a.ConfTag)
	}
}

func (a *Auth) dec(r *R, ct uint8) {
	a.Sig = r.Vec()
	if ct == ContentCommit {
		a.ConfTag = r.Vec()
	}
}

// AuthContent is AuthenticatedContent.
type AuthContent struct {
	Wire    uint16
	Content Content
	Auth    Auth
}

func (a *AuthContent) Enc(w *W) {
	w.U16(a.Wire)
	a.Content.Enc(w)
	a.Auth.enc(w, a.Content.Type)
}

func (a *AuthContent) Dec(r *R) {
	*a = AuthContent{Wire: r.U16()}
	if r.Err == nil && (a.Wire < WirePublic || a.Wire > WireKeyPackage) {
		r.fail(errors.New("mlsref: wire format"))
	}
	a.Content.Dec(r)
	if r.Err == nil {
		a.Auth.dec(r, a.Content.Type)
	}
}

// EncInner encodes what a PrivateMessage encrypts, without padding.
func (a *AuthContent) EncInner(w *W) {
	a.Content.encBody(w)
	a.Auth.enc(w, a.Content.Type)
}

func (a *AuthContent) ProposalRef(s *Suite) []byte {
	return s.RefHash("MLS 1.0 Proposal Reference", Bytes(a))
}

// TBS is FramedContentTBS for a member sender.
func (a *AuthContent) TBS(ctx *Context) []byte {
	var w W
	w.U16(MLS10)
	w.U16(a.Wire)
	a.Content.Enc(&w)
	if a.Content.Sender.Type == SenderMember || a.Content.Sender.Type == SenderNewCommit {
		ctx.Enc(&w)
	}
	return w.B
}

// TBM is what the membership tag covers.
func (a *AuthContent) TBM(ctx *Context) []byte {
	w := W{B: a.TBS(ctx)}
	a.Auth.enc(&w, a.Content.Type)
	return w.B
}

// Context is GroupContext.
type Context struct {
	Version, Suite uint16
	GroupID        []byte
	Epoch          uint64
	TreeHash, CTH  []byte
	Exts           []Ext
}

func (c *Context) Enc(w *W) {
	w.U16(c.Version)
	w.U16(c.Suite)
	w.Vec(c.GroupID)
	w.U64(c.Epoch)
	w.Vec(c.TreeHash)
	w.Vec(c.CTH)
	EncExts(w, c.Exts)
}

func (c *Context) Dec(r *R) {
	*c = Context{Version: r.U16(), Suite: r.U16(), GroupID: r.Vec(), Epoch: r.U64(), TreeHash: r.Vec(), CTH: r.Vec()}
	if r.Err == nil && c.Version != MLS10 {
		r.fail(errors.New("mlsref: version"))
	}
	c.Exts = DecExts(r)
}

// GroupInfo.
type GroupInfo struct {
	Ctx     Context
	Exts    []Ext
	ConfTag []byte
	Signer  uint32
	Sig     []byte
}

func (g *GroupInfo) TBS() []byte {
	var w W
	g.encTBS(&w)
	return w.B
}

func (g *GroupInfo) encTBS(w *W) {
	g.Ctx.Enc(w)
	EncExts(w, g.Exts)
	w.Vec(g.ConfTag)
	w.U32(g.Signer)
}
func (g *GroupInfo) Enc(w *W) { g.encTBS(w); w.Vec(g.Sig) }
func (g *GroupInfo) Dec(r *R) {
	*g = GroupInfo{}
	g.Ctx.Dec(r)
	g.Exts = DecExts(r)
	g.ConfTag = r.Vec()
	g.Signer = r.U32()
	g.Sig = r.Vec()
}

// GroupSecrets.
type GroupSecrets struct {
	Joiner  []byte
	HasPath bool
	Path    []byte
	PSKs    []PSKID
}

func (g *GroupSecrets) Enc(w *W) {
	w.Vec(g.Joiner)
	w.Opt(g.HasPath)
	if g.HasPath {
		w.Vec(g.Path)
	}
	w.Sub(func(w *W) {
		for i := range g.PSKs {
			g.PSKs[i].Enc(w)
		}
	})
}

func (g *GroupSecrets) Dec(r *R) {
	*g = GroupSecrets{Joiner: r.Vec()}
	if r.Opt() {
		g.HasPath = true
		g.Path = r.Vec()
	}
	r.Sub(func(r *R) {
		var p PSKID
		p.Dec(r)
		g.PSKs = append(g.PSKs, p)
	})
}

type WelcomeSecret struct {
	Ref []byte
	Ct  HPKECt
}

type Welcome struct {
	Suite   uint16
	Secrets []WelcomeSecret
	EncInfo []byte
}

func (x *Welcome) Enc(w *W) {
	w.U16(x.Suite)
	w.Sub(func(w *W) {
		for i := range x.Secrets {
			w.Vec(x.Secrets[i].Ref)
			x.Secrets[i].Ct.Enc(w)
		}
	})
	w.Vec(x.EncInfo)
}

func (x *Welcome) Dec(r *R) {
	*x = Welcome{Suite: r.U16()}
	r.Sub(func(r *R) {
		var s WelcomeSecret
		s.Ref = r.Vec()
		s.Ct.Dec(r)
		x.Secrets = append(x.Secrets, s)
	})
	x.EncInfo = r.Vec()
}

func ParseWelcomeMsg(raw []byte) (*Welcome, error) {
	wire, body, err := OpenMessage(raw)
	if err != nil {
		return nil, err
	}
	if wire != WireWelcome {
		return nil, errors.New("mlsref: not a welcome")
	}
	var x Welcome
	r := R{B: body}
	x.Dec(&r)
	return &x, r.Done()
}

// PrivMsg is PrivateMessage.
type PrivMsg struct {
	GroupID []byte
	Epoch   uint64
	Type    uint8
	AAD     []byte
	EncSD   []byte
	Ct      []byte
}

func (m *PrivMsg) Enc(w *W) {
	w.Vec(m.GroupID)
	w.U64(m.Epoch)
	w.U8(m.Type)
	w.Vec(m.AAD)
	w.Vec(m.EncSD)
	w.Vec(m.Ct)
}

func (m *PrivMsg) Dec(r *R) {
	*m = PrivMsg{GroupID: r.Vec(), Epoch: r.U64(), Type: r.U8()}
	if r.Err == nil && (m.Type < 1 || m.Type > 3) {
		r.fail(errors.New("mlsref: content type"))
	}
	m.AAD = r.Vec()
	m.EncSD = r.Vec()
	m.Ct = r.Vec()
}

// PubMsg is PublicMessage.
type PubMsg struct {
	Content Content
	Auth    Auth
	MemTag  []byte
}

func (m *PubMsg) Enc(w *W) {
	m.Content.Enc(w)
	m.Auth.enc(w, m.Content.Type)
	if m.Content.Sender.Type == SenderMember {
		w.Vec(m.MemTag)
	}
}

func (m *PubMsg) Dec(r *R) {
	*m = PubMsg{}
	m.Content.Dec(r)
	m.Auth.dec(r, m.Content.Type)
	if m.Content.Sender.Type == SenderMember {
		m.MemTag = r.Vec()
	}
}

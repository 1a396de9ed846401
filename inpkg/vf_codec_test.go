package mls

import (
	"bytes"
	"fmt"
	"testing"

	ref "mlsref"
)

// Every structure: decode, encode again, refuse other spellings.

type vfWire interface {
	unmarshaler
	marshaler
}

type vfType struct {
	name  string
	value func(c *vfCase) vfCoder
	fresh func() vfWire
	// parse decodes with the reference
	parse func(raw []byte) error
}

func vfParse[T any, P interface {
	*T
	Enc(*ref.W)
	Dec(*ref.R)
}](raw []byte) error {
	_, err := vfStrict[T, P](raw)
	return err
}

func (c *vfCase) anyPSK() *ref.PSKID {
	p := &ref.PSKID{Type: uint8(c.Int("psk type", 1, 2)), Nonce: c.Bytes("nonce", 100)}
	if p.Type == 1 {
		p.ID = c.Bytes("psk id", 200)
	} else {
		p.Usage, p.GroupID, p.Epoch = uint8(c.Int("usage", 1, 3)), c.Bytes("psk group", 100), c.rnd.Uint64()
	}
	return p
}

func (c *vfCase) anyProposal(typ uint16) *ref.Proposal {
	p := &ref.Proposal{Type: typ}
	switch typ {
	case ref.PropAdd:
		p.Add = c.anyKeyPackage()
	case ref.PropUpdate:
		p.Update = c.anyLeaf()
	case ref.PropRemove:
		p.Removed = c.rnd.Uint32()
	case ref.PropPSK:
		p.PSK = c.anyPSK()
	case ref.PropReInit:
		p.GroupID, p.Version, p.Suite, p.Exts = c.Bytes("new group", 100), 1, uint16(c.Int("suite", 0, 9)), c.anyExts()
	case ref.PropExternalInit:
		p.KemOutput = c.Bytes("kem output", 200)
	case ref.PropGCE:
		p.Exts = c.anyExts()
	}
	return p
}

func (c *vfCase) anyPath() *ref.UpdatePath {
	p := &ref.UpdatePath{Leaf: *c.anyLeaf()}
	for n := c.Int("path nodes", 0, 4); n > 0; n-- {
		x := ref.PathNode{EncKey: c.Bytes("node key", 100)}
		for k := c.Int("ciphertexts", 0, 3); k > 0; k-- {
			x.Cts = append(x.Cts, ref.HPKECt{Kem: c.Bytes("kem", 100), Ct: c.Bytes("ct", 100)})
		}
		p.Nodes = append(p.Nodes, x)
	}
	return p
}

func (c *vfCase) anyCommit() *ref.Commit {
	m := &ref.Commit{}
	for n := c.Int("proposals", 0, 4); n > 0; n-- {
		if c.Bool("reference") {
			m.Props = append(m.Props, ref.PropOrRef{Ref: c.Bytes("reference", 100)})
		} else {
			m.Props = append(m.Props, ref.PropOrRef{Prop: c.anyProposal(uint16(c.Int("proposal type", 1, 7)))})
		}
	}
	if c.Bool("path") {
		m.Path = c.anyPath()
	}
	return m
}

func (c *vfCase) anyContent(private bool) (ref.Content, ref.Auth) {
	x := ref.Content{GroupID: c.Bytes("group id", 100), Epoch: c.rnd.Uint64(), AAD: c.Bytes("aad", 100)}
	x.Sender = ref.Sender{Type: uint8(c.Int("sender type", 1, 4))}
	if private {
		x.Sender.Type = ref.SenderMember
	}
	if x.Sender.Type == ref.SenderMember || x.Sender.Type == ref.SenderExternal {
		x.Sender.Index = c.rnd.Uint32()
	}
	a := ref.Auth{Sig: c.Bytes("signature", 100)}
	x.Type = uint8(c.Int("content type", 2, 3))
	if private && c.Bool("application") {
		x.Type = ref.ContentApp
	}
	switch x.Type {
	case ref.ContentApp:
		x.App = c.Bytes("data", 20000)
	case ref.ContentProposal:
		x.Prop = c.anyProposal(uint16(c.Int("proposal type", 1, 7)))
	case ref.ContentCommit:
		x.Commit = c.anyCommit()
		a.ConfTag = c.Bytes("confirmation tag", 100)
	}
	return x, a
}

func (c *vfCase) anyContext() ref.Context {
	return ref.Context{Version: 1, Suite: uint16(c.Int("suite", 0, 9)), GroupID: c.Bytes("group id", 100), Epoch: c.rnd.Uint64(),
		TreeHash: c.Bytes("tree hash", 100), CTH: c.Bytes("transcript hash", 100), Exts: c.anyExts()}
}

func (c *vfCase) anyGroupInfo() *ref.GroupInfo {
	return &ref.GroupInfo{Ctx: c.anyContext(), Exts: c.anyExts(), ConfTag: c.Bytes("confirmation tag", 100), Signer: c.rnd.Uint32(), Sig: c.Bytes("signature", 100)}
}

func (c *vfCase) anyTree() *ref.Tree {
	t := &ref.Tree{D: c.Int("depth", 0, 4), Par: map[ref.Pos]*ref.Parent{}}
	t.Lf = make([]*ref.Leaf, 1<<t.D)
	for i := range t.Lf {
		if c.Bool("leaf") || i == len(t.Lf)/2 {
			t.Lf[i] = c.anyLeaf()
		}
	}
	for l := 1; l <= t.D; l++ {
		for p := 0; p < 1<<(t.D-l); p++ {
			if c.Bool("parent") {
				n := &ref.Parent{EncKey: c.Bytes("parent key", 100), ParentHash: c.Bytes("parent hash", 100)}
				for k := c.Int("unmerged", 0, 3); k > 0; k-- {
					n.Unmerged = append(n.Unmerged, c.rnd.Uint32())
				}
				t.Par[ref.Pos{L: l, P: p}] = n
			}
		}
	}
	// the encoding ends with a leaf
	for i := len(t.Lf) - 1; t.Lf[i] == nil; i-- {
		for p := (ref.Pos{P: i}); p.L < t.D; {
			p = p.Up()
			if p.Index() > 2*(i-1) {
				delete(t.Par, p)
			}
		}
	}
	return t
}

// vfMessage is an MLSMessage.
type vfMessage struct {
	wire uint16
	body vfCoder
}

func (m *vfMessage) Enc(w *ref.W) {
	w.U16(ref.MLS10)
	w.U16(m.wire)
	m.body.Enc(w)
}

func vfParseMessage(raw []byte) error {
	wire, body, err := ref.OpenMessage(raw)
	if err != nil {
		return err
	}
	switch wire {
	case ref.WirePublic:
		return vfParse[ref.PubMsg](body)
	case ref.WirePrivate:
		return vfParse[ref.PrivMsg](body)
	case ref.WireWelcome:
		return vfParse[ref.Welcome](body)
	case ref.WireGroupInfo:
		return vfParse[ref.GroupInfo](body)
	case ref.WireKeyPackage:
		return vfParse[ref.KeyPackage](body)
	}
	return fmt.Errorf("wire format %d", wire)
}

// vfBare drops the type in front of a proposal.
type vfBare struct{ p *ref.Proposal }

func (b vfBare) Enc(w *ref.W) {
	switch b.p.Type {
	case ref.PropAdd:
		b.p.Add.Enc(w)
	case ref.PropUpdate:
		b.p.Update.Enc(w)
	case ref.PropRemove:
		w.U32(b.p.Removed)
	case ref.PropPSK:
		b.p.PSK.Enc(w)
	case ref.PropReInit:
		w.Vec(b.p.GroupID)
		w.U16(b.p.Version)
		w.U16(b.p.Suite)
		ref.EncExts(w, b.p.Exts)
	case ref.PropExternalInit:
		w.Vec(b.p.KemOutput)
	case ref.PropGCE:
		ref.EncExts(w, b.p.Exts)
	}
}

func vfBareType(name string, typ uint16, fresh func() vfWire) vfType {
	return vfType{name, func(c *vfCase) vfCoder { return vfBare{c.anyProposal(typ)} }, fresh,
		func(raw []byte) error { return vfParse[ref.Proposal](append([]byte{0, byte(typ)}, raw...)) }}
}

var vfTypes = []vfType{
	{"KeyPackage", func(c *vfCase) vfCoder { return c.anyKeyPackage() }, func() vfWire { return new(KeyPackage) }, vfParse[ref.KeyPackage]},
	{"LeafNode", func(c *vfCase) vfCoder { return c.anyLeaf() }, func() vfWire { return new(leafNode) }, vfParse[ref.Leaf]},
	{"Welcome", func(c *vfCase) vfCoder { return c.anyWelcome() }, func() vfWire { return new(Welcome) }, vfParse[ref.Welcome]},
	{"GroupInfo", func(c *vfCase) vfCoder { return c.anyGroupInfo() }, func() vfWire { return new(groupInfo) }, vfParse[ref.GroupInfo]},
	{"GroupSecrets", func(c *vfCase) vfCoder {
		g := &ref.GroupSecrets{Joiner: c.Bytes("joiner", 100)}
		if c.Bool("path secret") {
			g.HasPath, g.Path = true, c.Bytes("path secret", 100)
		}
		for k := c.Int("psks", 0, 3); k > 0; k-- {
			g.PSKs = append(g.PSKs, *c.anyPSK())
		}
		return g
	}, func() vfWire { return new(groupSecrets) }, vfParse[ref.GroupSecrets]},
	{"Commit", func(c *vfCase) vfCoder { return c.anyCommit() }, func() vfWire { return new(commit) }, vfParse[ref.Commit]},
	{"UpdatePath", func(c *vfCase) vfCoder { return c.anyPath() }, func() vfWire { return new(updatePath) }, vfParse[ref.UpdatePath]},
	{"Proposal", func(c *vfCase) vfCoder { return c.anyProposal(uint16(c.Int("proposal type", 1, 7))) }, func() vfWire { return new(proposal) }, vfParse[ref.Proposal]},
	vfBareType("Add", ref.PropAdd, func() vfWire { return new(add) }),
	vfBareType("Update", ref.PropUpdate, func() vfWire { return new(update) }),
	vfBareType("Remove", ref.PropRemove, func() vfWire { return new(remove) }),
	vfBareType("PreSharedKey", ref.PropPSK, func() vfWire { return new(preSharedKey) }),
	vfBareType("ReInit", ref.PropReInit, func() vfWire { return new(reInit) }),
	vfBareType("ExternalInit", ref.PropExternalInit, func() vfWire { return new(externalInit) }),
	vfBareType("GroupContextExtensions", ref.PropGCE, func() vfWire { return new(groupContextExtensions) }),
	{"ratchet tree", func(c *vfCase) vfCoder { return c.anyTree() }, func() vfWire { return new(ratchetTree) },
		func(raw []byte) error { _, err := ref.ParseTree(raw); return err }},
	{"MLSMessage", func(c *vfCase) vfCoder {
		switch wire := uint16(c.Int("wire format", 1, 5)); wire {
		case ref.WirePublic:
			x, a := c.anyContent(false)
			m := &ref.PubMsg{Content: x, Auth: a}
			if x.Sender.Type == ref.SenderMember {
				m.MemTag = c.Bytes("membership tag", 100)
			}
			return &vfMessage{wire, m}
		case ref.WirePrivate:
			return &vfMessage{wire, &ref.PrivMsg{GroupID: c.Bytes("group id", 100), Epoch: c.rnd.Uint64(), Type: uint8(c.Int("content type", 1, 3)),
				AAD: c.Bytes("aad", 100), EncSD: c.Bytes("sender data", 100), Ct: c.Bytes("ciphertext", 20000)}}
		case ref.WireWelcome:
			return &vfMessage{wire, c.anyWelcome()}
		case ref.WireGroupInfo:
			return &vfMessage{wire, c.anyGroupInfo()}
		default:
			return &vfMessage{wire, c.anyKeyPackage()}
		}
	}, func() vfWire { return new(mlsMessage) }, vfParseMessage},
}

func TestVfCodec(t *testing.T) {
	vfRun(t, 1, "a well-formed structure was decoded and encoded again, and a badly encoded one refused", func(c *vfCase) {
		ty := vfTypes[c.Int("structure", 0, len(vfTypes)-1)]
		v := ty.value(c)
		raw := ref.Bytes(v)
		c.op("%s of %d bytes", ty.name, len(raw))
		c.class("structure %s", ty.name)
		if err := ty.parse(raw); err != nil {
			panic("generated structure is not well-formed: " + err.Error())
		}
		check := func(raw []byte, good bool) {
			c.count("decoded")
			x := ty.fresh()
			err := unmarshal(bytes.Clone(raw), x)
			if good != (err == nil) {
				c.Fatalf("%s %x: well-formed %v, but decoding says %v", ty.name, raw, good, err)
			}
			if err != nil {
				return
			}
			got, err := marshal(x)
			c.must(err, "%s cannot be encoded again", ty.name)
			if !bytes.Equal(got, raw) {
				c.Fatalf("%s %x is encoded again as %x", ty.name, raw, got)
			}
		}
		check(raw, true)
		for n := c.Int("spellings", 1, 20); n > 0; n-- {
			name, b := vfSpelling(c, v)
			err := ty.parse(b)
			c.verdict(name, err)
			check(b, err == nil)
		}
		for i := range raw {
			if len(raw) < 1500 || c.rnd.IntN(20) == 0 {
				check(raw[:i], false)
			}
		}
		check(append(bytes.Clone(raw), 0), ty.parse(append(bytes.Clone(raw), 0)) == nil)
	})
}

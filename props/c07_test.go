package props

import (
	"bytes"
	"fmt"
	"runtime/metrics"
	"slices"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// C07: nothing that comes from outside crashes the library, and no call
// allocates memory out of proportion to its input.

const (
	allocBase = 48 << 20
	allocPer  = 2048 // per byte of input
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// calm calls f and bounds what it allocates. A panic ends the case.
func (c *Case) calm(what string, size int, f func()) {
	a := allocated()
	f()
	c.count("calls")
	if n := allocated() - a; n > uint64(allocBase+allocPer*size) {
		c.Fatalf("%s of %d bytes allocates %d bytes of memory", what, size, n)
	}
}

// feed hands raw to every entry point that takes bytes.
func (w *World) feed(raw []byte) (accepted int) {
	c := w.Case
	c.calm("UnmarshalKeyPackage", len(raw), func() {
		kp, err := mls.UnmarshalKeyPackage(bytes.Clone(raw))
		if err == nil {
			accepted++
			w.useKeyPackage(kp, len(raw))
		}
	})
	c.calm("UnmarshalWelcome", len(raw), func() {
		wel, err := mls.UnmarshalWelcome(bytes.Clone(raw))
		if err == nil {
			accepted++
			w.useWelcome(wel, nil, len(raw))
		}
	})
	for _, l := range w.goLeaves() {
		if w.process(w.Go[l].G, raw) {
			accepted++
		}
	}
	return accepted
}

func (w *World) process(g *mls.Group, raw []byte) (ok bool) {
	w.calm("processing a message", len(raw)+2000*len(w.G.Tree.Lf), func() {
		_, err := g.UnmarshalAndProcessMessage(bytes.Clone(raw))
		ok = err == nil
	})
	return ok
}

func (w *World) useKeyPackage(kp *mls.KeyPackage, size int) {
	w.count("key packages decoded")
	kp.Bytes()
	if r, err := kp.GenerateRef(); err == nil {
		r.Equal(r)
		r.Equal(nil)
	}
	for _, l := range w.goLeaves() {
		w.calm("CreateWelcome", size+2000*len(w.G.Tree.Lf), func() {
			wel, _, err := w.Go[l].G.CreateWelcome([]mls.KeyPackage{*kp})
			if err == nil {
				w.count("invited")
				wel.Bytes()
			}
		})
		break
	}
}

func (w *World) useWelcome(wel *mls.Welcome, gm *GoMember, size int) {
	wel.Bytes()
	wel.NewMembers()
	if gm == nil {
		for _, l := range w.goLeaves() {
			gm = w.Go[l]
			break
		}
	}
	if gm == nil {
		gm = w.newGo()
	}
	w.calm("GroupFromWelcome", size+2000*len(w.G.Tree.Lf), func() {
		g, err := mls.GroupFromWelcome(wel, gm.KPP)
		if err == nil {
			w.count("joined")
			w.useGroup(g)
		}
	})
}

// useGroup works with a group whatever happened to it before.
func (w *World) useGroup(g *mls.Group) {
	g.CreateApplicationMessage([]byte("hello"))
	g.CreateWelcome([]mls.KeyPackage{*w.goKP(w.plainRef().KP)})
	ms := w.members()
	w.process(g, w.G.AppMessage(ms[w.rnd.IntN(len(ms))], []byte("hello"), nil, nil))
}

// mutate changes some fields of a structure while it is encoded.
func mutate(c *Case, v interface{ Enc(*ref.W) }) []byte {
	m := &ref.Mutator{}
	ref.BytesMut(v, m)
	if m.N == 0 {
		return ref.Bytes(v)
	}
	at := map[int]bool{}
	for n := c.Int("changes", 1, 3); n > 0; n-- {
		at[c.Int("field", 0, m.N-1)] = true
	}
	return ref.BytesMut(v, &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if !at[n] {
			return b
		}
		switch kind {
		case 'i':
			return oddInt(c, b)
		case 'p':
			return oddLength(c)
		default:
			return oddBytes(c, b)
		}
	}})
}

// oddInt replaces an integer by another of the same size.
func oddInt(c *Case, b []byte) []byte {
	out := make([]byte, len(b))
	switch c.Int("integer", 0, 5) {
	case 0: // zero
	case 1:
		for i := range out {
			out[i] = 0xff
		}
	case 2:
		out[0] = 0x80
		copy(out[1:], b[1:])
	case 3:
		copy(out, b)
		out[len(out)-1] += byte(c.Int("delta", 1, 255))
	case 4:
		out[len(out)-1] = byte(c.Int("small", 0, 20))
	case 5:
		for i := range out {
			out[i] = byte(c.rnd.Uint32())
		}
	}
	return out
}

// oddLength makes a length prefix.
func oddLength(c *Case) []byte {
	switch c.Int("length", 0, 6) {
	case 0:
		return []byte{byte(c.Int("n", 0, 63))}
	case 1:
		return []byte{0x40 | byte(c.Int("hi", 0, 63)), byte(c.Int("lo", 0, 255))}
	case 2:
		return []byte{0xbf, 0xff, 0xff, 0xff}
	case 3:
		return []byte{0x80 | byte(c.Int("top", 8, 63)), 0, 0, 0}
	case 4:
		return []byte{0x80, 0, 0, byte(c.Int("lo", 0, 255))}
	case 5:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	default:
		return []byte{0xc0 | byte(c.Int("n", 0, 63))}
	}
}

func oddBytes(c *Case, b []byte) []byte {
	switch c.Int("bytes", 0, 6) {
	case 0:
		return nil
	case 1:
		return flip(c, b)
	case 2:
		return bytes.Clone(b[:c.Int("keep", 0, len(b))])
	case 3:
		return append(bytes.Clone(b), b...)
	case 4:
		return make([]byte, len(b))
	case 5:
		return ref.Rand(pick(c, "size", 1, 2, 31, 32, 33, 64, 65, 66, 133, 1000))
	default:
		return slices.Repeat([]byte{byte(c.Int("fill", 0, 255))}, pick(c, "size", 1, 4, 16, 32, 65, 300, 5000))
	}
}

// oddKey replaces a public key.
func (w *World) oddKey(b []byte) []byte {
	if len(b) < 32 {
		b, _ = w.S.GenKEM()
	}
	switch w.Int("key", 0, 9) {
	case 0:
		return nil
	case 1:
		return make([]byte, len(b))
	case 2:
		x := slices.Repeat([]byte{0xff}, len(b))
		x[0] = 4
		return x
	case 3:
		return bytes.Clone(b[:len(b)-1])
	case 4:
		return append(bytes.Clone(b), 0)
	case 5: // compressed point, point at infinity
		return append([]byte{pick(w.Case, "format", byte(0), 2, 3, 5, 6, 7)}, b[1:min(len(b), 33)]...)
	case 6:
		return flip(w.Case, b)
	case 7: // points of small order
		return append([]byte{byte(w.Int("u", 0, 2))}, make([]byte, len(b)-1)...)
	case 8:
		k, _ := w.S.GenKEM()
		return k
	default:
		k, _ := w.S.GenSig()
		return k
	}
}

// oddLeaf puts absurd values into a leaf; afterwards it is signed.
func (w *World) oddLeaf(l *ref.Leaf, sig, gid []byte, idx uint32) string {
	name := ""
	for n := w.Int("leaf changes", 1, 2); n > 0; n-- {
		switch w.Int("leaf change", 0, 9) {
		case 0:
			l.EncKey = w.oddKey(l.EncKey)
			name += " encryption key"
		case 1:
			l.SigKey = w.oddKey(l.SigKey)
			name += " signature key"
		case 2:
			l.Cred = ref.Credential{Type: ref.CredX509}
			for k := w.Int("certificates", 0, 3); k > 0; k-- {
				l.Cred.Certs = append(l.Cred.Certs, w.Bytes("certificate", 500))
			}
			name += " certificates"
		case 3:
			l.Cred.Type = pick(w.Case, "credential type", uint16(0), 3, 0xf000, 0xffff)
			name += " credential type"
		case 4:
			l.Versions, l.Suites, l.Creds = nil, nil, nil
			name += " no capabilities"
		case 5:
			for k := w.Int("capabilities", 1, 3000); k > 0; k-- {
				l.Exts = append(l.Exts, uint16(k))
				l.Creds = append(l.Creds, uint16(k))
			}
			name += " many capabilities"
		case 6:
			l.NotBefore, l.NotAfter = pick(w.Case, "from", uint64(0), 1<<63, 1<<64-1, 1<<62), pick(w.Case, "to", uint64(0), 1<<63, 1<<64-1, 1<<63-1)
			name += " lifetime"
		case 7:
			for k := w.Int("extensions", 1, 30); k > 0; k-- {
				l.Extensions = append(l.Extensions, ref.Ext{Type: uint16(w.Int("extension", 0, 6)), Data: w.Bytes("extension", 40)})
			}
			name += " extensions"
		case 8:
			l.Source = uint8(w.Int("source", 0, 5))
			name += " source"
		case 9:
			l.ParentHash = w.Bytes("parent hash", 100)
			l.Source = ref.SourceCommit
			name += " parent hash"
		}
	}
	if !w.Chance("unsigned", 4) {
		l.SignWith(w.S, sig, gid, idx)
	} else {
		l.Sig = w.Bytes("signature", 100)
	}
	return name
}

func (w *World) oddKeyPackage() *ref.KeyPackage {
	p := w.newRef()
	kp := p.KP
	name := ""
	for n := w.Int("package changes", 1, 2); n > 0; n-- {
		switch w.Int("package change", 0, 6) {
		case 0, 1, 2:
			name += w.oddLeaf(&kp.Leaf, p.Sig, nil, 0)
		case 3:
			kp.InitKey = w.oddKey(kp.InitKey)
			name += " init key"
		case 4:
			kp.Suite = pick(w.Case, "suite", uint16(0), 1, 2, 3, 4, 5, 6, 7, 8, 0xf000, 0xffff)
			name += " suite"
		case 5:
			for k := w.Int("extensions", 1, 30); k > 0; k-- {
				kp.Extensions = append(kp.Extensions, ref.Ext{Type: uint16(w.Int("extension", 0, 6)), Data: w.Bytes("extension", 40)})
			}
			name += " extensions"
		case 6:
			kp.InitKey = kp.Leaf.EncKey
			name += " equal keys"
		}
	}
	if !w.Chance("unsigned package", 4) {
		kp.SignWith(w.S, p.Sig)
	} else {
		kp.Sig = w.Bytes("signature", 100)
	}
	w.op("odd key package:%s", name)
	return kp
}

func (w *World) oddIndex() uint32 {
	n := uint32(len(w.G.Tree.Lf))
	return pick(w.Case, "index", uint32(w.Int("leaf", 0, 2*int(n))), n-1, n, 2*n-1, 2*n, 1<<30, 1<<31-1, 1<<31, 1<<31+1, 1<<32-2, 1<<32-1)
}

func (w *World) oddProposal(by uint32) *ref.Proposal {
	p := &ref.Proposal{Type: uint16(w.Int("proposal type", 1, 8))}
	switch p.Type {
	case ref.PropAdd:
		p.Add = w.oddKeyPackage()
	case ref.PropUpdate:
		l, sig := w.updateLeaf(by)
		w.oddLeaf(l, sig, w.GID, by)
		p.Update = l
	case ref.PropRemove:
		p.Removed = w.oddIndex()
	case ref.PropPSK:
		p.PSK = &ref.PSKID{Type: uint8(w.Int("psk type", 0, 3)), ID: w.Bytes("psk id", 40), Usage: uint8(w.Int("usage", 0, 4)), GroupID: w.Bytes("psk group", 40), Epoch: 1<<64 - 1, Nonce: w.Bytes("nonce", 70)}
	case ref.PropReInit:
		p.GroupID, p.Version, p.Suite = w.Bytes("new id", 40), uint16(w.Int("version", 0, 2)), uint16(w.Int("new suite", 0, 9))
	case ref.PropExternalInit:
		p.KemOutput = w.Bytes("kem output", 100)
	case ref.PropGCE:
		for k := w.Int("extensions", 0, 5); k > 0; k-- {
			p.Exts = append(p.Exts, ref.Ext{Type: uint16(w.Int("extension", 0, 6)), Data: w.Bytes("extension", 40)})
		}
	default:
		p.Type = pick(w.Case, "unknown type", uint16(0), 8, 9, 0xf001, 0xffff)
	}
	w.class("proposal %d", p.Type)
	return p
}

func (w *World) oddPath(by uint32) *ref.UpdatePath {
	l, sig := w.updateLeaf(by)
	l.Source = ref.SourceCommit
	p := &ref.UpdatePath{}
	if w.Chance("odd path leaf", 2) {
		w.oddLeaf(l, sig, w.GID, by)
	} else {
		l.ParentHash = w.Bytes("parent hash", 64)
		l.SignWith(w.S, sig, w.GID, by)
	}
	p.Leaf = *l
	n := len(w.G.Tree.FilteredPath(int(by)))
	if w.Chance("path length", 3) {
		n = pick(w.Case, "nodes", 0, n+1, n+2, 40, 200)
	}
	for i := 0; i < n; i++ {
		k, _ := w.S.GenKEM()
		if w.Chance("odd node key", 3) {
			k = w.oddKey(k)
		}
		x := ref.PathNode{EncKey: k}
		m := 1
		if fp := w.G.Tree.FilteredPath(int(by)); i < len(fp) {
			cp := fp[i].Left()
			if cp.Above(int(by)) {
				cp = fp[i].Right()
			}
			m = len(w.G.Tree.Resolve(cp))
		}
		if w.Chance("ciphertexts", 4) {
			m = pick(w.Case, "number", 0, m+1, 100)
		}
		for j := 0; j < m; j++ {
			ct := ref.HPKECt{Kem: k, Ct: ref.Rand(w.S.Nh + 16)}
			if w.Chance("odd ciphertext", 3) {
				ct = ref.HPKECt{Kem: w.oddKey(k), Ct: w.Bytes("ciphertext", 100)}
			}
			x.Cts = append(x.Cts, ct)
		}
		p.Nodes = append(p.Nodes, x)
	}
	return p
}

// oddCommit makes a commit that is computed consistently as far as possible
// but contains absurd path secrets or keys.
func (w *World) oddCommit(by uint32) []byte {
	o := &ref.CommitOpts{By: by, Path: true, Wire: w.wire(), Frame: w.frame()}
	switch w.Int("consistent", 0, 5) {
	case 0:
		k := w.Int("secret size", 0, 100)
		o.Evil.Secrets = func(i int, s []byte) []byte { return ref.Rand(k) }
		w.op("path secrets of %d bytes", k)
	case 1:
		o.Evil.PubKey = func(i int, p []byte) []byte { return w.oddKey(p) }
		w.op("odd path keys")
	case 2:
		o.Evil.LeafParent = func(b []byte) []byte { return w.Bytes("parent hash", 100) }
		w.op("odd parent hash")
	case 3:
		o.Evil.Path = func(p *ref.UpdatePath) {
			for i := range p.Nodes {
				for j := range p.Nodes[i].Cts {
					if w.Bool("odd ciphertext") {
						p.Nodes[i].Cts[j].Kem = w.oddKey(p.Nodes[i].Cts[j].Kem)
					}
					if w.Chance("odd ciphertext", 4) {
						p.Nodes[i].Cts[j].Ct = w.Bytes("ciphertext", 100)
					}
				}
			}
		}
		w.op("odd path ciphertexts")
	case 4:
		o.Leaf = func(l *ref.Leaf) { w.oddLeaf(l, w.G.Sig[by], w.GID, by) }
		w.op("odd leaf in the path")
	case 5:
		o.Evil.DropNodes, o.Evil.ExtraNodes = w.Int("drop", 0, 3), w.Int("extra", 0, 3)
		w.op("odd path length")
	}
	return w.G.Commit(o).Raw
}

// oddContent makes an authenticated message with an absurd content.
func (w *World) oddContent(refs [][]byte) (raw, propRef []byte) {
	c := w.Case
	ls := w.refLeaves()
	by := ls[c.Int("sender", 0, len(ls)-1)]
	typ := uint8(c.weighted("content", 1, 4, 5) + 1)
	x := w.G.NewContent(by, typ)
	var body interface{ Enc(*ref.W) }
	switch typ {
	case ref.ContentApp:
		x.App = c.Bytes("data", 300)
	case ref.ContentProposal:
		x.Prop = w.oddProposal(by)
		body = x.Prop
	case ref.ContentCommit:
		if c.Chance("consistent commit", 3) {
			return w.oddCommit(by), nil
		}
		cm := &ref.Commit{}
		for n := c.Int("proposals", 0, 4); n > 0; n-- {
			switch k := c.Int("kind", 0, 5); {
			case k < 3:
				cm.Props = append(cm.Props, ref.PropOrRef{Prop: w.oddProposal(by)})
			case k < 5 && len(refs) > 0:
				cm.Props = append(cm.Props, ref.PropOrRef{Ref: refs[c.Int("which", 0, len(refs)-1)]})
			default:
				cm.Props = append(cm.Props, ref.PropOrRef{Ref: c.Bytes("reference", 100)})
			}
		}
		if c.Chance("valid proposals", 3) {
			cm.Props = nil
		}
		if !c.Chance("no path", 4) {
			cm.Path = w.oddPath(by)
		}
		x.Commit = cm
		body = cm
	}
	if body != nil && c.Chance("mutated body", 3) {
		x.Raw = mutate(c, body)
	}
	if c.Chance("odd sender", 8) {
		x.Sender = ref.Sender{Type: uint8(c.Int("sender type", 0, 5)), Index: w.oddIndex()}
	}
	x.AAD = w.aad()
	wire := uint16(ref.WirePublic)
	if typ == ref.ContentApp && !c.Chance("public data", 3) || c.Bool("private") {
		wire = ref.WirePrivate
	}
	ac := w.G.SignContent(wire, x, w.G.Sig[by])
	if typ == ref.ContentCommit {
		ac.Auth.ConfTag = ref.Rand(w.S.Nh)
		if c.Chance("tag size", 4) {
			ac.Auth.ConfTag = c.Bytes("confirmation tag", 70)
		}
	}
	f := w.frame()
	odd := ""
	switch c.Int("frame", 0, 9) {
	case 0:
		i := w.oddIndex()
		f.SD = func(d *ref.SenderData) { d.Leaf = i }
		odd = fmt.Sprint(" sender data leaf ", i)
	case 1:
		g := pick(c, "generation", uint32(1<<21), 1<<30, 1<<31-1, 1<<31, 1<<32-1)
		f.SD = func(d *ref.SenderData) { d.Gen = g }
		odd = fmt.Sprint(" generation ", g)
	case 2:
		f.SDRaw = c.Bytes("sender data", 40)
		odd = " sender data size"
	case 3:
		f.Plain = func(p []byte) []byte { return oddBytes(c, p) }
		odd = " plaintext"
	case 4:
		f.PrivPost = func(m *ref.PrivMsg) {
			switch c.Int("part", 0, 3) {
			case 0:
				m.Ct = oddBytes(c, m.Ct)
			case 1:
				m.EncSD = oddBytes(c, m.EncSD)
			case 2:
				m.Type = uint8(c.Int("type", 0, 255))
			case 3:
				m.Ct = m.Ct[:c.Int("size", 0, min(40, len(m.Ct)))]
			}
		}
		odd = " parts"
	case 5:
		f.PrivHead = func(m *ref.PrivMsg) { m.Type = uint8(c.Int("type", 0, 255)) }
		odd = " type"
	}
	if x.Sender.Index >= uint32(len(w.G.Tree.Lf)) || x.Sender.Type != ref.SenderMember {
		f.Key = func(uint32) uint32 { return by }
	}
	raw = w.G.Protect(ac, f)
	w.op("message by %d: type %d wire %d mutated=%v%s", by, typ, wire, x.Raw != nil, odd)
	if typ == ref.ContentProposal {
		propRef = ac.ProposalRef(w.S)
	}
	return raw, propRef
}

// prepare makes a group with some library members.
func (w *World) prepare(steps, maxLeaves int) {
	w.startRef()
	w.shapes(w.Int("steps", 0, steps), GenOpts{MaxAdd: 3, MaxRemove: 2, MaxLeaves: maxLeaves, KeepRef: 2, GoBias: 30})
	if len(w.Go) == 0 {
		pl := &Plan{By: w.refLeaves()[0]}
		for i := 0; i < 2; i++ {
			inv := w.invitee(100)
			pl.Invitees = append(pl.Invitees, inv)
			pl.Items = append(pl.Items, inv.item(pl.By))
		}
		w.execute(pl)
	}
}

// TestC07Bytes: what anybody can send.
func TestC07Bytes(t *testing.T) {
	run(t, 1, "a damaged valid message was handed to all entry points", func(c *Case) {
		w := c.world()
		w.prepare(2, 8)
		for n := c.Int("inputs", 3, 12); n > 0; n-- {
			var raw []byte
			kind := ""
			if c.Chance("garbage", 5) {
				raw = c.Bytes("garbage", 3000)
				if c.Bool("header") {
					raw = ref.Message(uint16(c.Int("wire format", 0, 6)), raw)
				}
				kind = "garbage"
			} else {
				var body interface{ Enc(*ref.W) }
				var valid []byte
				var wire uint16
				kind, wire, body, valid = w.anyMessage()
				switch c.Int("damage", 0, 5) {
				case 0, 1, 2:
					raw = ref.Message(wire, mutate(c, body))
					kind += " mutated"
				case 3:
					raw = valid[:c.Int("length", 0, len(valid))]
					kind += " cut off"
				case 4:
					_, raw = mangle(c, valid)
					kind += " mangled"
				case 5:
					raw = bytes.Clone(valid)
					i := c.Int("at", 0, len(raw)-1)
					raw = append(raw[:i:i], oddLength(c)...)
					if c.Bool("rest") {
						raw = append(raw, valid[min(i+4, len(valid)):]...)
					}
					kind += " with an odd length"
				}
				c.nontrivial()
			}
			c.op("%s, %d bytes", kind, len(raw))
			c.class("%s", kind)
			if w.feed(raw) > 0 {
				c.class("accepted: %s", kind)
			}
		}
	})
}

// anyMessage makes a valid message of any kind.
func (w *World) anyMessage() (kind string, wire uint16, body interface{ Enc(*ref.W) }, raw []byte) {
	c := w.Case
	open := func(raw []byte) {
		wf, b, err := ref.OpenMessage(raw)
		if err != nil {
			panic(err)
		}
		wire = wf
		r := ref.R{B: b}
		switch wf {
		case ref.WirePublic:
			m := new(ref.PubMsg)
			m.Dec(&r)
			body = m
		case ref.WirePrivate:
			m := new(ref.PrivMsg)
			m.Dec(&r)
			body = m
		case ref.WireWelcome:
			m := new(ref.Welcome)
			m.Dec(&r)
			body = m
		case ref.WireKeyPackage:
			m := new(ref.KeyPackage)
			m.Dec(&r)
			body = m
		}
		if err := r.Done(); err != nil {
			panic(err)
		}
	}
	ls := w.refLeaves()
	by := ls[c.Int("sender", 0, len(ls)-1)]
	switch c.Int("message", 0, 4) {
	case 0:
		kind, raw = "key package", ref.Message(ref.WireKeyPackage, ref.Bytes(w.newRef().KP))
	case 1:
		kind = "Welcome"
		inv := w.invitee(50)
		pl := &Plan{By: by, Items: []ref.Item{inv.item(by)}, Path: c.Bool("path")}
		raw = w.G.Commit(w.opts(pl)).Welcome(&ref.WelcomeOpts{Signer: by})
	case 2:
		kind = "commit"
		inv := w.invitee(0)
		pl := &Plan{By: by, Items: []ref.Item{inv.item(by)}, Path: c.Bool("path")}
		raw = w.G.Commit(w.opts(pl)).Raw
	case 3:
		kind = "proposal"
		l, _ := w.updateLeaf(by)
		raw, _ = w.G.ProposalMessage(by, &ref.Proposal{Type: ref.PropUpdate, Update: l}, w.wire(), w.aad(), w.frame())
	case 4:
		kind = "application message"
		raw = w.G.AppMessage(by, c.Bytes("data", 300), w.aad(), w.frame())
	}
	open(raw)
	return kind, wire, body, raw
}

// TestC07Insider: what a member can send.
func TestC07Insider(t *testing.T) {
	run(t, 1, "an authenticated message with absurd content was processed by a member", func(c *Case) {
		w := c.world()
		w.prepare(4, 14)
		var refs [][]byte
		changed := false
		for n := c.Int("messages", 2, 14); n > 0; n-- {
			raw, r := w.oddContent(refs)
			for _, l := range w.goLeaves() {
				ok := w.process(w.Go[l].G, raw)
				c.nontrivial()
				if ok {
					c.count("accepted")
					if r != nil {
						refs = append(refs, r)
					} else {
						changed = true
					}
				}
			}
			if c.Chance("use", 4) {
				ls := w.goLeaves()
				w.useGroup(w.Go[ls[c.Int("user", 0, len(ls)-1)]].G)
			}
		}
		if !changed {
			w.allInSync()
		}
	})
}

// TestC07Inviter: what an inviter can send.
func TestC07Inviter(t *testing.T) {
	run(t, 1, "an invitee processed an absurd Welcome that it could decrypt", func(c *Case) {
		w := c.world()
		w.startRef()
		w.shapes(c.Int("steps", 0, 4), GenOpts{MaxAdd: 4, MaxRemove: 2, MaxLeaves: 12, KeepRef: 2})
		by := w.refLeaves()[c.Int("inviter", 0, len(w.refLeaves())-1)]
		gm := w.newGo()
		inv := Invitee{Go: gm}
		pl := &Plan{By: by, Path: c.Bool("path"), Items: []ref.Item{inv.item(by)}, Invitees: []Invitee{inv}}
		if c.Chance("wide", 6) {
			n := pick(c, "leaves", 20, 60)
			for i := 0; i < n; i++ {
				r := Invitee{Ref: w.plainRef()}
				pl.Items = append(pl.Items, r.item(by))
				pl.Invitees = append(pl.Invitees, r)
			}
		}
		res := w.G.Commit(w.opts(pl))
		res.G.Sig = w.allSigs(res, pl)
		me := res.Added[0]
		for n := c.Int("attempts", 2, 12); n > 0; n-- {
			o := &ref.WelcomeOpts{Signer: by}
			name := w.oddWelcome(o, res, me)
			raw := res.Welcome(o)
			c.op("Welcome with %s (%d bytes)", name, len(raw))
			c.class("%s", name)
			c.calm("UnmarshalWelcome", len(raw), func() {
				wel, err := mls.UnmarshalWelcome(raw)
				if err == nil {
					c.nontrivial()
					w.useWelcome(wel, gm, len(raw))
				}
			})
		}
	})
}

func (w *World) oddWelcome(o *ref.WelcomeOpts, res *ref.Result, me uint32) string {
	c := w.Case
	t := res.G.Tree
	switch c.Int("odd welcome", 0, 10) {
	case 0:
		return w.evilTree(o, res, me)
	case 1:
		return w.evilInfo(o, res, me)
	case 2:
		return w.evilShape(o)
	case 3: // encoded tree mutated, hash fits where it can be computed
		raw := mutate(c, t)
		o.RawTree = func([]byte) []byte { return raw }
		o.Info = func(gi *ref.GroupInfo) {
			if x, err := ref.ParseTree(raw); err == nil {
				gi.Ctx.TreeHash = x.RootHash(w.S)
			}
		}
		return "mutated tree"
	case 4: // group info mutated and signed
		o.InfoRaw = func(raw []byte) []byte {
			var gi ref.GroupInfo
			r := ref.R{B: raw}
			gi.Dec(&r)
			gi.Sig = nil
			x := mutate(c, &gi)
			tbs := x[:max(0, len(x)-1)]
			var v ref.W
			v.Raw(tbs)
			v.Vec(w.S.Sign(res.G.Sig[o.Signer], "GroupInfoTBS", tbs))
			return v.B
		}
		return "mutated group info"
	case 5:
		o.SecretRaw = func(i int, raw []byte) []byte {
			var gs ref.GroupSecrets
			r := ref.R{B: raw}
			gs.Dec(&r)
			return mutate(c, &gs)
		}
		return "mutated group secrets"
	case 6: // absurd leaf
		ms := t.Members()
		l := ms[c.Int("leaf", 0, len(ms)-1)]
		o.Tree = func(t *ref.Tree) {
			x := t.Lf[l].Clone()
			w.oddLeaf(x, res.G.Sig[l], w.GID, l)
			t.Lf[l] = x
		}
		return "odd leaf"
	case 7: // absurd parent nodes
		o.Tree = func(t *ref.Tree) {
			for n := c.Int("parents", 1, 3); n > 0; n-- {
				lvl := c.Int("level", 1, max(1, t.D))
				p := ref.Pos{L: lvl, P: c.Int("at", 0, max(0, t.NumLeaves()>>lvl-1))}
				if p.L > t.D {
					continue
				}
				k, _ := w.S.GenKEM()
				x := &ref.Parent{EncKey: k, ParentHash: c.Bytes("parent hash", 64)}
				if c.Bool("odd key") {
					x.EncKey = w.oddKey(k)
				}
				for u := c.Int("unmerged", 0, 4); u > 0; u-- {
					x.Unmerged = append(x.Unmerged, pick(c, "unmerged leaf", uint32(c.Int("leaf", 0, 2*t.NumLeaves())), 1<<31-1, 1<<31, 1<<32-1))
				}
				t.Par[p] = x
			}
		}
		return "odd parent nodes"
	case 8: // a sparse wide tree
		d := c.Int("depth", t.D, max(t.D, pick(c, "max depth", 6, 9, 12)))
		o.Tree = func(t *ref.Tree) {
			t.D = d
			lf := make([]*ref.Leaf, 1<<d)
			copy(lf, t.Lf)
			last := 1<<d - 1
			if lf[last] == nil {
				l := w.plainRef().KP.Leaf
				lf[last] = &l
			}
			t.Lf = lf
			if c.Bool("root") {
				k, _ := w.S.GenKEM()
				t.Par[t.Root()] = &ref.Parent{EncKey: k}
			}
		}
		return "sparse tree"
	case 9: // many entries
		o.Post = func(x *ref.Welcome) {
			for n := c.Int("entries", 1, 400); n > 0; n-- {
				s := x.Secrets[0]
				if c.Bool("front") {
					x.Secrets = append([]ref.WelcomeSecret{{Ref: s.Ref, Ct: ref.HPKECt{}}}, x.Secrets...)
				} else {
					x.Secrets = append(x.Secrets, s)
				}
			}
		}
		return "many entries"
	default: // unusual trees without joiner or members
		o.Tree = func(t *ref.Tree) {
			for i := range t.Lf {
				if c.Bool("blank") && !(uint32(i) == o.Signer) {
					t.Lf[i] = nil
				}
			}
		}
		return "blank leaves"
	}
}

// TestC07KeyPackages: what anybody can publish.
func TestC07KeyPackages(t *testing.T) {
	run(t, 1, "an absurd but signed key package was decoded and used", func(c *Case) {
		w := c.world()
		w.prepare(1, 6)
		for n := c.Int("packages", 2, 10); n > 0; n-- {
			kp := w.oddKeyPackage()
			raw := ref.Message(ref.WireKeyPackage, ref.Bytes(kp))
			c.calm("UnmarshalKeyPackage", len(raw), func() {
				x, err := mls.UnmarshalKeyPackage(bytes.Clone(raw))
				if err != nil {
					c.count("refused")
					return
				}
				c.nontrivial()
				w.useKeyPackage(x, len(raw))
				// as the key package to join with
				gm := w.newGo()
				inv := Invitee{Go: gm}
				pl := &Plan{By: w.refLeaves()[0], Items: []ref.Item{inv.item(0)}}
				pl.Items[0].Prop = &ref.Proposal{Type: ref.PropAdd, Add: kp}
				wraw := w.G.Commit(&ref.CommitOpts{By: pl.By, Items: pl.Items, Wire: ref.WirePublic}).Welcome(&ref.WelcomeOpts{Signer: pl.By})
				wel, err := mls.UnmarshalWelcome(wraw)
				if err == nil {
					kpp := *gm.KPP
					kpp.Public = *x
					w.useWelcome(wel, &GoMember{KPP: &kpp}, len(wraw))
				}
			})
		}
		w.allInSync()
	})
}

package props

import (
	"bytes"
	"fmt"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// C08: encodings are canonical.

// lax encodes a structure in a way that a strict decoder refuses although the
// meaning is clear: a longer length prefix, or a vector that is cut or padded.
func lax(c *Case, v interface{ Enc(*ref.W) }) (string, []byte) {
	var prefixes []int
	m := &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if kind == 'p' {
			prefixes = append(prefixes, n)
		}
		return b
	}}
	ref.BytesMut(v, m)
	if len(prefixes) == 0 {
		return "", nil
	}
	at := prefixes[c.Int("prefix", 0, len(prefixes)-1)]
	name := ""
	out := ref.BytesMut(v, &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if n != at {
			return b
		}
		size := 0
		for i, x := range b {
			if i == 0 {
				x &= 0x3f
			}
			size = size<<8 | int(x)
		}
		long := c.Bool("longer")
		switch {
		case len(b) == 1 && !long:
			name = "length in 2 octets"
			return []byte{0x40, byte(size)}
		case len(b) <= 2:
			name = "length in 4 octets"
			return []byte{0x80, 0, byte(size >> 8), byte(size)}
		default:
			name = "length in 8 octets"
			return []byte{0xc0, 0, 0, 0, byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}
		}
	}})
	return name, out
}

type coder interface{ Enc(*ref.W) }

// strict decodes with the reference.
func strict[T any, P interface {
	*T
	Enc(*ref.W)
	Dec(*ref.R)
}](raw []byte) (P, error) {
	v := P(new(T))
	r := ref.R{B: raw}
	v.Dec(&r)
	return v, r.Done()
}

// spelling draws another spelling of a structure.
func spelling(c *Case, v coder) (string, []byte) {
	switch c.Int("spelling", 0, 5) {
	case 0, 1:
		n, b := lax(c, v)
		if b != nil {
			return n, b
		}
		fallthrough
	case 2:
		return "fields changed", mutate(c, v)
	case 3:
		b := ref.Bytes(v)
		return "cut off", b[:c.Int("length", 0, max(0, len(b)-1))]
	case 4:
		return "trailing bytes", append(ref.Bytes(v), c.payload(c.Int("more", 1, 5))...)
	default:
		_, b := mangle(c, ref.Bytes(v))
		return "mangled", b
	}
}

func (c *Case) payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.rnd.Uint32())
	}
	return b
}

// anyLeaf makes a well-formed leaf with arbitrary contents.
func (c *Case) anyLeaf() *ref.Leaf {
	l := &ref.Leaf{EncKey: c.Bytes("encryption key", 200), SigKey: c.Bytes("signature key", 200), Sig: c.Bytes("leaf signature", 300)}
	if c.Chance("x509", 3) {
		l.Cred.Type = ref.CredX509
		for k := c.Int("certificates", 0, 4); k > 0; k-- {
			l.Cred.Certs = append(l.Cred.Certs, c.Bytes("certificate", 400))
		}
	} else {
		l.Cred = ref.Credential{Type: ref.CredBasic, Identity: c.Bytes("identity", 70000)}
	}
	list := func(label string) (out []uint16) {
		for k := c.many(label, 0, 40, 10000); k > 0; k-- {
			out = append(out, uint16(c.rnd.Uint32()))
		}
		return out
	}
	l.Versions, l.Suites, l.Exts, l.Props, l.Creds = list("versions"), list("suites"), list("extension types"), list("proposal types"), list("credential types")
	l.Source = uint8(c.Int("source", 1, 3))
	switch l.Source {
	case ref.SourceKeyPackage:
		l.NotBefore, l.NotAfter = c.rnd.Uint64(), c.rnd.Uint64()
	case ref.SourceCommit:
		l.ParentHash = c.Bytes("parent hash", 200)
	}
	l.Extensions = c.anyExts()
	return l
}

func (c *Case) anyExts() (out []ref.Ext) {
	for k := c.weighted("extensions", 3, 2, 1, 1); k > 0; k-- {
		out = append(out, ref.Ext{Type: pick(c, "extension type", uint16(0xf000), 1, 2, 3, 4, 5, 0x0a0a, 0xffff), Data: c.Bytes("extension", 300)})
	}
	return out
}

func (c *Case) anyKeyPackage() *ref.KeyPackage {
	return &ref.KeyPackage{Version: ref.MLS10, Suite: pick(c, "suite", uint16(1), 2, 3, 4, 5, 6, 7, 0, 99, 0xffff),
		InitKey: c.Bytes("init key", 200), Leaf: *c.anyLeaf(), Extensions: c.anyExts(), Sig: c.Bytes("signature", 300)}
}

func (c *Case) anyWelcome() *ref.Welcome {
	w := &ref.Welcome{Suite: pick(c, "suite", uint16(1), 2, 3, 4, 5, 6, 7), EncInfo: c.Bytes("group info", 70000)}
	for k := c.many("entries", 0, 6, 300); k > 0; k-- {
		w.Secrets = append(w.Secrets, ref.WelcomeSecret{Ref: c.Bytes("ref", 80), Ct: ref.HPKECt{Kem: c.Bytes("kem", 200), Ct: c.Bytes("ciphertext", 300)}})
	}
	return w
}

func TestC08Packages(t *testing.T) {
	run(t, 1, "a well-formed structure was decoded and encoded again, and a badly encoded one refused", func(c *Case) {
		if c.Chance("huge", 300) {
			c.class("huge")
			b := c.payload(c.Int("size", 1<<20-100, 5<<20))
			kp, w := c.anyKeyPackage(), c.anyWelcome()
			switch c.Int("where", 0, 2) {
			case 0:
				kp.Leaf.Cred = ref.Credential{Type: ref.CredBasic, Identity: b}
			case 1:
				kp.Leaf.Extensions = append(kp.Leaf.Extensions, ref.Ext{Type: 0xf000, Data: b})
			case 2:
				kp.Extensions = append(kp.Extensions, ref.Ext{Type: 0xf000, Data: b})
			}
			raw := ref.Message(ref.WireKeyPackage, ref.Bytes(kp))
			c.op("key package and Welcome with %d bytes", len(b))
			checkKP(c, raw, true)
			checkKP(c, raw[:c.Int("cut", 0, len(raw)-1)], false)
			w.EncInfo = b
			raw = ref.Message(ref.WireWelcome, ref.Bytes(w))
			checkWelcome(c, raw, w, true)
			checkWelcome(c, raw[:c.Int("cut", 0, len(raw)-1)], nil, false)
			c.nontrivial()
			return
		}
		if c.Bool("key package") {
			kp := c.anyKeyPackage()
			raw := ref.Message(ref.WireKeyPackage, ref.Bytes(kp))
			c.op("key package of %d bytes", len(raw))
			checkKP(c, raw, true)
			for n := c.Int("spellings", 1, 12); n > 0; n-- {
				name, b := spelling(c, kp)
				_, err := strict[ref.KeyPackage](b)
				checkKP(c, ref.Message(ref.WireKeyPackage, b), err == nil)
				c.verdict(name, err)
			}
			for i := range raw {
				if len(raw) < 2000 || c.rnd.IntN(20) == 0 {
					checkKP(c, raw[:i], false)
				}
			}
			checkKP(c, header(c, ref.WireKeyPackage, raw), false)
			// own key packages
			kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(pick(c, "own suite", uint16(1), 2, 3, 7)), mls.NewBasicCredential(c.Bytes("identity", 70000)))
			c.must(err, "GenerateKeyPairPackage")
			own := kpp.Public.Bytes()
			r, err := ref.ParseKeyPackageMsg(own)
			c.must(err, "own key package is not well-formed")
			if !bytes.Equal(ref.Message(ref.WireKeyPackage, ref.Bytes(r)), own) {
				c.Fatalf("own key package is not canonical")
			}
			checkKP(c, own, true)
			return
		}
		w := c.anyWelcome()
		raw := ref.Message(ref.WireWelcome, ref.Bytes(w))
		c.op("Welcome of %d bytes", len(raw))
		checkWelcome(c, raw, w, true)
		for n := c.Int("spellings", 1, 12); n > 0; n-- {
			name, b := spelling(c, w)
			x, err := strict[ref.Welcome](b)
			checkWelcome(c, ref.Message(ref.WireWelcome, b), x, err == nil)
			c.verdict(name, err)
		}
		for i := range raw {
			if len(raw) < 2000 || c.rnd.IntN(20) == 0 {
				checkWelcome(c, raw[:i], nil, false)
			}
		}
		checkWelcome(c, header(c, ref.WireWelcome, raw), nil, false)
	})
}

// verdict counts what happened to another spelling.
func (c *Case) verdict(name string, err error) {
	if err != nil {
		c.class("refused: %s", name)
		c.nontrivial()
	} else {
		c.class("accepted: %s", name)
	}
	c.op("%s: well-formed=%v", name, err == nil)
}

// header changes the version or wire format of an MLSMessage.
func header(c *Case, wire uint16, raw []byte) []byte {
	raw = bytes.Clone(raw)
	if c.Bool("version") {
		raw[0], raw[1] = byte(c.Int("version hi", 0, 255)), byte(c.Int("version lo", 2, 255))
		return raw
	}
	raw[2] = byte(c.Int("wire hi", 0, 3))
	for {
		raw[3] = byte(c.Int("wire lo", 0, 9))
		if raw[2] != 0 || uint16(raw[3]) != wire {
			return raw
		}
		raw[2]++
	}
}

func dump(b []byte) string {
	if len(b) > 4000 {
		return short(b)
	}
	return fmt.Sprintf("%x", b)
}

func checkKP(c *Case, raw []byte, good bool) {
	kp, err := mls.UnmarshalKeyPackage(bytes.Clone(raw))
	c.count("decoded")
	if good != (err == nil) {
		c.Fatalf("key package %s: well-formed %v, but decoding says %v", dump(raw), good, err)
	}
	if err == nil {
		if got := kp.Bytes(); !bytes.Equal(got, raw) {
			c.Fatalf("key package %s is encoded again as %s", dump(raw), dump(got))
		}
	} else if kp != nil {
		c.Fatalf("UnmarshalKeyPackage returns a key package and an error")
	}
}

func checkWelcome(c *Case, raw []byte, x *ref.Welcome, good bool) {
	wel, err := mls.UnmarshalWelcome(bytes.Clone(raw))
	c.count("decoded")
	if good != (err == nil) {
		c.Fatalf("Welcome %s: well-formed %v, but decoding says %v", dump(raw), good, err)
	}
	if err != nil {
		if wel != nil {
			c.Fatalf("UnmarshalWelcome returns a Welcome and an error")
		}
		return
	}
	if got := wel.Bytes(); !bytes.Equal(got, raw) {
		c.Fatalf("Welcome %s is encoded again as %s", dump(raw), dump(got))
	}
	refs := wel.NewMembers()
	if len(refs) != len(x.Secrets) {
		c.Fatalf("Welcome has %d entries, NewMembers returns %d", len(x.Secrets), len(refs))
	}
	for i, r := range refs {
		if !bytes.Equal(r, x.Secrets[i].Ref) {
			c.Fatalf("reference %d is %x instead of %x", i, r, x.Secrets[i].Ref)
		}
	}
}

// TestC08Messages: messages that are only encoded differently from what was
// signed are refused, whoever changes the encoding.
func TestC08Messages(t *testing.T) {
	run(t, 1, "a message in another encoding than the one signed was refused, the right one accepted", func(c *Case) {
		w := c.world()
		w.prepare(2, 8)
		for n := c.Int("messages", 1, 8); n > 0; n-- {
			ls := w.refLeaves()
			by := ls[c.Int("sender", 0, len(ls)-1)]
			x := w.G.NewContent(by, 0)
			x.AAD = w.aad()
			var ac *ref.AuthContent
			wire := w.wire()
			kind := ""
			switch c.Int("content", 0, 2) {
			case 0:
				wire = ref.WirePrivate
				x.Type, x.App = ref.ContentApp, c.Bytes("data", 300)
				kind = "application"
			case 1:
				x.Type = ref.ContentProposal
				kind = "proposal"
				switch c.Int("proposal", 0, 2) {
				case 0:
					x.Prop = &ref.Proposal{Type: ref.PropAdd, Add: w.newRef().KP}
				case 1:
					l, _ := w.updateLeaf(by)
					x.Prop = &ref.Proposal{Type: ref.PropUpdate, Update: l}
				case 2:
					x.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: by}
				}
			case 2:
				kind = "commit"
				o := &ref.CommitOpts{By: by, Path: c.Bool("path"), Wire: wire, AAD: x.AAD}
				for k := c.Int("adds", 0, 2); k > 0; k-- {
					o.Items = append(o.Items, Invitee{Ref: w.newRef()}.item(by))
				}
				if len(o.Items) == 0 {
					o.Path = true
				}
				ac = w.G.Commit(o).AC
			}
			if ac == nil {
				ac = w.G.SignContent(wire, x, nil)
			}
			good := w.G.Protect(ac, w.frame())
			var bad []byte
			name := ""
			if wire == ref.WirePublic {
				_, body, err := ref.OpenMessage(good)
				if err != nil {
					panic(err)
				}
				m, err := strict[ref.PubMsg](body)
				if err != nil {
					panic(err)
				}
				var b []byte
				name, b = spelling(c, m)
				bad = ref.Message(wire, b)
			} else if c.Bool("inside") {
				f := w.frame()
				f.Plain = func(p []byte) []byte {
					// content and auth data, without padding
					var b []byte
					name, b = spelling(c, inner{ac})
					return append(b, make([]byte, len(p)-min(len(p), len(b)))...)
				}
				bad = w.G.Protect(ac, f)
				name += " inside"
			} else {
				_, body, err := ref.OpenMessage(good)
				if err != nil {
					panic(err)
				}
				m, err := strict[ref.PrivMsg](body)
				if err != nil {
					panic(err)
				}
				var b []byte
				name, b = spelling(c, m)
				bad = ref.Message(wire, b)
			}
			if c.Chance("header", 10) {
				name, bad = "another header", header(c, wire, good)
			}
			_, err := w.G.Unprotect(bad)
			c.op("%s wire %d, %s: reference says %v", kind, wire, name, err)
			if err == nil {
				c.class("no change")
				continue
			}
			for _, l := range w.goLeaves() {
				if got, gerr := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(bad)); gerr == nil {
					c.Fatalf("%s with %s is accepted by leaf %d (data %x); reference: %v", kind, name, l, got, err)
				}
				c.count("refused")
			}
			c.class("refused: %s %s", kind, name)
			c.nontrivial()
			if kind != "commit" {
				for _, l := range w.goLeaves() {
					got, err := w.Go[l].G.UnmarshalAndProcessMessage(bytes.Clone(good))
					c.must(err, "%s refused by leaf %d", kind, l)
					if !bytes.Equal(got, x.App) {
						c.Fatalf("%s yields %x instead of %x", kind, got, x.App)
					}
				}
			}
		}
		w.allInSync()
	})
}

// inner is the plaintext of a PrivateMessage without padding.
type inner struct{ ac *ref.AuthContent }

func (i inner) Enc(w *ref.W) { i.ac.EncInner(w) }

// TestC08Joining: the same for everything that a Welcome contains.
func TestC08Joining(t *testing.T) {
	run(t, 1, "a Welcome with parts in another encoding was refused, the right one accepted", func(c *Case) {
		w := c.world()
		w.startRef()
		w.shapes(c.Int("steps", 0, 3), GenOpts{MaxAdd: 3, MaxRemove: 1, MaxLeaves: 10, KeepRef: 2})
		by := w.refLeaves()[0]
		gm := w.newGo()
		inv := Invitee{Go: gm}
		pl := &Plan{By: by, Path: c.Bool("path"), Items: []ref.Item{inv.item(by)}, Invitees: []Invitee{inv}}
		res := w.G.Commit(w.opts(pl))
		res.G.Sig = w.allSigs(res, pl)
		for n := c.Int("attempts", 1, 8); n > 0; n-- {
			o := &ref.WelcomeOpts{Signer: by}
			name := ""
			var wraw []byte
			switch c.Int("part", 0, 3) {
			case 0:
				o.RawTree = func(raw []byte) []byte {
					x, err := ref.ParseTree(raw)
					if err != nil {
						panic(err)
					}
					name, raw = spelling(c, x)
					return raw
				}
				wraw = res.Welcome(o)
				name = "tree " + name
			case 1:
				o.InfoRaw = func(raw []byte) []byte {
					gi, err := strict[ref.GroupInfo](raw)
					if err != nil {
						panic(err)
					}
					name, raw = spelling(c, gi)
					return raw
				}
				wraw = res.Welcome(o)
				name = "group info " + name
			case 2:
				o.SecretRaw = func(i int, raw []byte) []byte {
					gs, err := strict[ref.GroupSecrets](raw)
					if err != nil {
						panic(err)
					}
					name, raw = spelling(c, gs)
					return raw
				}
				wraw = res.Welcome(o)
				name = "group secrets " + name
			case 3:
				_, body, err := ref.OpenMessage(res.Welcome(o))
				if err != nil {
					panic(err)
				}
				x, err := strict[ref.Welcome](body)
				if err != nil {
					panic(err)
				}
				var b []byte
				name, b = spelling(c, x)
				wraw = ref.Message(ref.WireWelcome, b)
				name = "Welcome " + name
			}
			goErr, refErr := w.tryJoin(wraw, gm)
			c.op("%s: reference says %v", name, refErr)
			if (goErr == nil) != (refErr == nil) {
				c.Fatalf("Welcome with %s: library says %v, reference says %v", name, goErr, refErr)
			}
			if refErr != nil {
				c.nontrivial()
				c.class("refused: %s", name)
				c.count("refused")
			}
		}
		w.follow(res, pl)
		w.welcome(res, pl, nil)
	})
}

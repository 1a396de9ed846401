package mls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	ref "mlsref"
)

// Primitives and key schedule against the reference, and refusals when one
// argument is another.

func (c *vfCase) anySuite(ok func(s *ref.Suite) bool) (*ref.Suite, CipherSuite) {
	var ids []uint16
	for id := uint16(1); id <= 7; id++ {
		if ok == nil || ok(ref.GetSuite(id)) {
			ids = append(ids, id)
		}
	}
	id := vfPick(c, "suite", ids...)
	c.op("suite %d", id)
	c.class("suite %d", id)
	return ref.GetSuite(id), CipherSuite(id)
}

// secret draws a secret of the suite's length.
func (c *vfCase) secret(label string, s *ref.Suite) []byte {
	if c.Chance(label+" is zero", 6) {
		return make([]byte, s.Nh)
	}
	return c.payload(s.Nh)
}

// input draws something that enters an extraction, of any length.
func (c *vfCase) input(label string, s *ref.Suite) []byte {
	if c.Chance(label+" has another length", 6) {
		return c.Bytes(label, 300)
	}
	return c.secret(label, s)
}

var vfLabels = []string{"", "key", "nonce", "secret", "tree", "epoch", "joiner", "MLS 1.0 key", "FramedContentTBS", "LeafNodeTBS", "KeyPackageTBS", "GroupInfoTBS", "UpdatePathNode", "Welcome"}

func (c *vfCase) label() string {
	if c.Chance("odd label", 3) {
		return string(c.Bytes("label", 200))
	}
	return vfPick(c, "label", vfLabels...)
}

// other returns a different byte string.
func (c *vfCase) other(b []byte) []byte {
	var o []byte
	switch c.Int("other", 0, 3) {
	case 0:
		o = vfFlip(c, b)
	case 1:
		o = append(bytes.Clone(b), byte(c.Int("extra", 0, 255)))
	case 2:
		o = b[:c.Int("kept", 0, len(b))]
	case 3:
		o = c.payload(len(b))
	}
	if bytes.Equal(o, b) {
		return vfFlip(c, b)
	}
	return o
}

// same compares a value with the reference's.
func (c *vfCase) same(what string, got []byte, err error, want []byte) {
	c.must(err, "%s", what)
	if !bytes.Equal(got, want) {
		c.Fatalf("%s: got %x, want %x", what, got, want)
	}
	c.op("%s: %d bytes", what, len(got))
}

func (c *vfCase) load(v vfCoder, into vfWire) []byte {
	raw := ref.Bytes(v)
	c.must(unmarshal(raw, into), "unmarshal")
	return raw
}

func vfHash(c *vfCase) {
	s, cs := c.anySuite(nil)
	label, value := c.label(), c.Bytes("value", 70000)
	c.op("label %q, %d bytes", label, len(value))
	got, err := cs.refHash([]byte(label), value)
	c.same("refHash", got, err, s.RefHash(label, value))
}

func vfExpand(c *vfCase) {
	s, cs := c.anySuite(nil)
	secret, label := c.secret("secret", s), c.label()
	c.op("label %q", label)
	switch c.Int("expansion", 0, 2) {
	case 0:
		context := c.Bytes("context", 70000)
		n := c.Int("length", 0, 255)
		if c.Chance("long", 4) {
			n = c.Int("length", 0, 255*s.Nh)
		}
		c.op("length %d", n)
		got, err := cs.expandWithLabel(secret, []byte(label), context, uint16(n))
		c.same("expandWithLabel", got, err, s.ExpandWithLabel(secret, label, context, n))
	case 1:
		got, err := cs.deriveSecret(secret, []byte(label))
		c.same("deriveSecret", got, err, s.DeriveSecret(secret, label))
	case 2:
		gen, n := c.rnd.Uint32(), c.Int("length", 0, 255)
		got, err := deriveTreeSecret(cs, secret, []byte(label), gen, uint16(n))
		c.same("deriveTreeSecret", got, err, s.DeriveTreeSecret(secret, label, gen, n))
	}
}

func (c *vfCase) signer(s *ref.Suite) (pub, priv []byte) {
	if s.Curve != nil && c.Chance("small scalar", 4) {
		n := (s.Curve.Params().BitSize + 7) / 8
		priv = make([]byte, n)
		b := c.payload(c.Int("scalar bytes", 1, n-1))
		b[0] |= 1
		copy(priv[n-len(b):], b)
		pub, err := s.SigPub(priv)
		c.must(err, "public key")
		if c.Bool("without leading zeros") {
			priv = new(big.Int).SetBytes(priv).Bytes()
		}
		c.class("small scalar")
		return pub, priv
	}
	return s.GenSig()
}

func vfSign(c *vfCase) {
	s, cs := c.anySuite(func(s *ref.Suite) bool { return !s.NoSig })
	pub, priv := c.signer(s)
	label, content := c.label(), c.Bytes("content", 70000)
	c.op("label %q, %d bytes", label, len(content))
	var sig []byte
	if c.Bool("signed by the library") {
		var err error
		sig, err = cs.signWithLabel(priv, []byte(label), content)
		c.must(err, "signWithLabel")
		if !s.Verify(pub, label, content, sig) {
			c.Fatalf("signWithLabel: the signature is not valid for the reference")
		}
	} else {
		sig = s.Sign(priv, label, content)
	}
	if !cs.verifyWithLabel(pub, []byte(label), content, sig) {
		c.Fatalf("verifyWithLabel refused a valid signature")
	}
	k := c.Int("altered", 0, 5)
	var ok bool
	switch k {
	case 0:
		ok = cs.verifyWithLabel(pub, c.other([]byte(label)), content, sig)
	case 1:
		ok = cs.verifyWithLabel(pub, []byte(label), c.other(content), sig)
	case 2:
		other, _ := s.GenSig()
		ok = cs.verifyWithLabel(other, []byte(label), content, sig)
	case 3:
		// a change of the key itself may leave it invalid or make it another
		ok = cs.verifyWithLabel(vfFlip(c, pub), []byte(label), content, sig)
	case 4:
		ok = cs.verifyWithLabel(pub, []byte(label), content, c.other(sig))
	case 5:
		// bytes moved between label and content
		if label == "" {
			return
		}
		ok = cs.verifyWithLabel(pub, []byte(label[:len(label)-1]), append([]byte{label[len(label)-1]}, content...), sig)
	}
	c.op("altered %s", []string{"label", "content", "to another key", "key", "signature", "boundary"}[k])
	c.class("altered signature input %d", k)
	if ok {
		c.Fatalf("verifyWithLabel accepted a signature with an altered input")
	}
}

func vfSeal(c *vfCase) {
	s, cs := c.anySuite(func(s *ref.Suite) bool { return s.KEM != nil })
	pub, priv := s.GenKEM()
	label, context, pt := c.label(), c.Bytes("context", 70000), c.Bytes("plaintext", 20000)
	c.op("label %q, context of %d bytes, %d bytes", label, len(context), len(pt))
	var ct ref.HPKECt
	var err error
	if c.Bool("sealed by the library") {
		ct.Kem, ct.Ct, err = cs.encryptWithLabel(pub, []byte(label), context, pt)
		c.must(err, "encryptWithLabel")
		got, err := s.Decrypt(priv, label, context, ct)
		c.same("encryptWithLabel", got, err, pt)
	} else {
		ct, err = s.Encrypt(pub, label, context, pt)
		c.must(err, "reference Encrypt")
	}
	got, err := cs.decryptWithLabel(priv, []byte(label), context, ct.Kem, ct.Ct)
	c.same("decryptWithLabel", got, err, pt)
	k := c.Int("altered", 0, 4)
	switch k {
	case 0:
		_, err = cs.decryptWithLabel(priv, c.other([]byte(label)), context, ct.Kem, ct.Ct)
	case 1:
		_, err = cs.decryptWithLabel(priv, []byte(label), c.other(context), ct.Kem, ct.Ct)
	case 2:
		_, other := s.GenKEM()
		_, err = cs.decryptWithLabel(other, []byte(label), context, ct.Kem, ct.Ct)
	case 3:
		_, err = cs.decryptWithLabel(priv, []byte(label), context, ct.Kem, c.other(ct.Ct))
	case 4:
		// another encapsulation
		o, e := s.Encrypt(pub, label, context, pt)
		c.must(e, "reference Encrypt")
		_, err = cs.decryptWithLabel(priv, []byte(label), context, o.Kem, ct.Ct)
	}
	c.op("altered %s", []string{"label", "context", "key", "ciphertext", "encapsulation"}[k])
	c.class("altered ciphertext input %d", k)
	if err == nil {
		c.Fatalf("decryptWithLabel accepted an altered input")
	}
}

func vfSchedule(c *vfCase) {
	s, cs := c.anySuite(nil)
	rc := c.anyContext()
	rc.Suite = s.ID
	var ctx groupContext
	c.load(&rc, &ctx)
	init, commit := c.input("init secret", s), c.input("commit secret", s)
	var psk []byte
	if c.Bool("with psk") {
		psk = c.input("psk secret", s)
	}
	joiner, err := ctx.extractJoinerSecret(init, commit)
	c.same("joiner secret", joiner, err, s.JoinerSecret(init, commit, &rc))
	got, err := extractWelcomeSecret(cs, joiner, psk)
	c.same("welcome secret", got, err, s.WelcomeSecret(joiner, psk))
	epoch, err := ctx.extractEpochSecret(joiner, psk)
	c.same("epoch secret", epoch, err, s.EpochSecret(joiner, psk, &rc))
	for label, want := range map[string][]byte{
		"init": secretLabelInit, "sender data": secretLabelSenderData, "encryption": secretLabelEncryption,
		"exporter": secretLabelExporter, "external": secretLabelExternal, "confirm": secretLabelConfirm,
		"membership": secretLabelMembership, "resumption": secretLabelResumption, "authentication": secretLabelAuthentication,
	} {
		got, err := cs.deriveSecret(epoch, want)
		c.same(label+" secret", got, err, s.DeriveSecret(epoch, label))
	}
	exp := s.DeriveSecret(epoch, "exporter")
	label, context, n := c.label(), c.Bytes("exporter context", 20000), c.Int("length", 0, 255)
	got, err = deriveExporter(cs, exp, []byte(label), context, uint16(n))
	c.same("exporter", got, err, s.Exporter(exp, label, context, n))
}

func vfTranscript(c *vfCase) {
	s, cs := c.anySuite(nil)
	content, auth := c.anyContent(false)
	if content.Type != ref.ContentCommit {
		content.Prop, content.Type, content.Commit, auth.ConfTag = nil, ref.ContentCommit, c.anyCommit(), c.Bytes("confirmation tag", 100)
	}
	if content.Sender.Type != ref.SenderMember {
		content.Sender = ref.Sender{Type: ref.SenderMember, Index: c.rnd.Uint32()}
	}
	interim, key := c.input("interim hash", s), c.secret("confirmation key", s)
	ac := &ref.AuthContent{Wire: uint16(c.Int("wire format", 1, 2)), Content: content, Auth: auth}
	cth := s.ConfirmedHash(interim, ac)
	ac.Auth.ConfTag = s.MAC(key, cth)
	var got authenticatedContent
	c.load(ac, &got)
	h, err := got.confirmedTranscriptHashInput().hash(cs, interim)
	c.same("confirmed transcript hash", h, err, cth)
	h, err = nextInterimTranscriptHash(cs, cth, ac.Auth.ConfTag)
	c.same("interim transcript hash", h, err, s.Interim(cth, ac.Auth.ConfTag))
	if !got.auth.verifyConfirmationTag(cs, key, cth) {
		c.Fatalf("the confirmation tag was refused")
	}
	altered := *ac
	altered.Auth.ConfTag = c.other(ac.Auth.ConfTag)
	var bad authenticatedContent
	c.load(&altered, &bad)
	// an empty tag is not one
	if bad.auth.verifyConfirmationTag(cs, key, cth) {
		c.Fatalf("an altered confirmation tag was accepted")
	}
	if got.auth.verifyConfirmationTag(cs, key, c.other(cth)) {
		c.Fatalf("the confirmation tag of another transcript was accepted")
	}
	if got.auth.verifyConfirmationTag(cs, s.H(key), cth) {
		c.Fatalf("a confirmation tag under another key was accepted")
	}
}

func vfMembership(c *vfCase) {
	s, cs := c.anySuite(nil)
	content, auth := c.anyContent(false)
	content.Sender = ref.Sender{Type: ref.SenderMember, Index: c.rnd.Uint32()}
	rc := c.anyContext()
	rc.Suite = s.ID
	var ctx groupContext
	c.load(&rc, &ctx)
	key := c.secret("membership key", s)
	m := &ref.PubMsg{Content: content, Auth: auth}
	ac := &ref.AuthContent{Wire: ref.WirePublic, Content: content, Auth: auth}
	tag := s.MAC(key, ac.TBM(&rc))
	m.MemTag = tag
	var msg publicMessage
	c.load(m, &msg)
	if !msg.verifyMembershipTag(key, &ctx) {
		c.Fatalf("the membership tag was refused")
	}
	c.must(msg.signMembershipTag(cs, key, &ctx), "signMembershipTag")
	got, err := marshal(&msg)
	c.same("membership tag", got, err, ref.Bytes(m))
	k := c.Int("altered", 0, 4)
	switch k {
	case 0:
		m.MemTag = c.other(tag)
	case 1:
		key = s.H(key)
	case 2:
		m.Content.AAD = c.other(m.Content.AAD)
	case 3:
		m.Auth.Sig = c.other(m.Auth.Sig)
	case 4:
		rc.CTH = c.other(rc.CTH)
		c.load(&rc, &ctx)
	}
	c.load(m, &msg)
	c.class("altered membership input %d", k)
	c.op("altered %s", []string{"tag", "key", "data", "signature", "context"}[k])
	if msg.verifyMembershipTag(key, &ctx) {
		c.Fatalf("the membership tag was accepted with an altered input")
	}
}

func vfPSKs(c *vfCase) {
	s, cs := c.anySuite(nil)
	n := c.weighted("psks", 1, 3, 3, 2, 1)
	if c.Chance("many", 20) {
		n = c.Int("psks", 200, 300)
	}
	ids, psks, got := make([]ref.PSKID, n), make([][]byte, n), make([]preSharedKeyID, n)
	for i := range ids {
		if n > 10 {
			ids[i] = ref.PSKID{Type: 1, ID: c.payload(3), Nonce: c.payload(s.Nh)}
			psks[i] = c.payload(9)
		} else {
			ids[i] = *c.anyPSK()
			psks[i] = c.input("psk", s)
		}
		c.load(&ids[i], &got[i])
	}
	c.op("%d psks", n)
	c.class("psks: %d", min(n, 10))
	v, err := extractPSKSecret(cs, got, psks)
	c.same("psk secret", v, err, s.PSKSecret(ids, psks))
}

func vfSecrets(c *vfCase) {
	s, cs := c.anySuite(nil)
	depth := c.weighted("depth", 1, 2, 2, 2, 2, 1, 1, 1)
	n := 1 << depth
	enc := c.secret("encryption secret", s)
	tree, err := deriveSecretTree(cs, numLeaves(n), enc)
	c.must(err, "deriveSecretTree")
	c.op("%d leaves", n)
	c.class("secret tree depth %d", depth)
	for k := c.Int("ratchets", 1, 3); k > 0; k-- {
		leaf := uint32(c.Int("leaf", 0, n-1))
		label := vfPick(c, "ratchet", ratchetLabelHandshake, ratchetLabelApplication)
		rs, err := tree.deriveRatchetRoot(cs, leafIndex(leaf).nodeIndex(), label)
		c.must(err, "deriveRatchetRoot")
		ls := s.LeafSecret(enc, depth, leaf)
		gen := uint32(c.weighted("generation", 3, 3, 2))
		if c.Chance("far", 6) {
			gen = uint32(c.Int("generation", 0, 600))
		}
		for rs.generation != gen {
			before := rs.generation
			rs, err = rs.deriveNext(cs)
			c.must(err, "deriveNext")
			if rs.generation != before+1 {
				c.Fatalf("the generation went from %d to %d", before, rs.generation)
			}
		}
		key, nonce := s.RatchetKey(ls, string(label), gen)
		got, err := rs.deriveKey(cs)
		c.same(fmt.Sprintf("%s key of leaf %d, generation %d", label, leaf, gen), got, err, key)
		got, err = rs.deriveNonce(cs)
		c.same(fmt.Sprintf("%s nonce of leaf %d, generation %d", label, leaf, gen), got, err, nonce)
	}
}

func vfSenderData(c *vfCase) {
	s, cs := c.anySuite(nil)
	secret, ct := c.secret("sender data secret", s), c.Bytes("ciphertext", 300)
	key, nonce := s.SenderDataKey(secret, ct)
	got, err := expandSenderDataKey(cs, secret, ct)
	c.same("sender data key", got, err, key)
	got, err = expandSenderDataNonce(cs, secret, ct)
	c.same("sender data nonce", got, err, nonce)
	c.class("sample shorter than Nh: %v", len(ct) < s.Nh)
}

func TestVfCrypto(t *testing.T) {
	kinds := []struct {
		name string
		f    func(c *vfCase)
	}{
		{"reference hash", vfHash}, {"expansion", vfExpand}, {"signature", vfSign}, {"encryption", vfSeal}, {"key schedule", vfSchedule},
		{"transcript", vfTranscript}, {"membership tag", vfMembership}, {"psk", vfPSKs}, {"secret tree", vfSecrets}, {"sender data", vfSenderData},
	}
	vfRun(t, 1, "at least one value was compared with the reference's or one altered input was tried", func(c *vfCase) {
		k := kinds[c.weighted("kind", 1, 3, 3, 3, 3, 2, 2, 2, 3, 1)]
		c.op("%s", k.name)
		c.class("kind: %s", k.name)
		k.f(c)
		c.nontrivial()
	})
}

package mlsref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/hpke"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"hash"
	"math/big"

	"golang.org/x/crypto/chacha20poly1305"
)

// Suite holds the primitives of a cipher suite. KEM is nil where the standard
// library has no implementation (X448), and so is the signature scheme (Ed448).
type Suite struct {
	ID         uint16
	Hash       func() hash.Hash
	Nh, Nk, Nn int
	KEM        hpke.KEM
	KDF        hpke.KDF
	HAEAD      hpke.AEAD
	AEAD       func(key []byte) (cipher.AEAD, error)
	Curve      elliptic.Curve // nil for Ed25519
	NoSig      bool
	// Bend, when set, replaces label and context of labelled operations.
	Bend func(op, label string, context []byte) (string, []byte)
}

func (s *Suite) bend(op, label string, context []byte) (string, []byte) {
	if s.Bend != nil {
		return s.Bend(op, label, context)
	}
	return label, context
}

func aesgcm(key []byte) (cipher.AEAD, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(b)
}

var suites = map[uint16]*Suite{
	1: {ID: 1, Hash: sha256.New, Nh: 32, Nk: 16, Nn: 12, KEM: hpke.DHKEM(ecdh.X25519()), KDF: hpke.HKDFSHA256(), HAEAD: hpke.AES128GCM(), AEAD: aesgcm},
	2: {ID: 2, Hash: sha256.New, Nh: 32, Nk: 16, Nn: 12, KEM: hpke.DHKEM(ecdh.P256()), KDF: hpke.HKDFSHA256(), HAEAD: hpke.AES128GCM(), AEAD: aesgcm, Curve: elliptic.P256()},
	3: {ID: 3, Hash: sha256.New, Nh: 32, Nk: 32, Nn: 12, KEM: hpke.DHKEM(ecdh.X25519()), KDF: hpke.HKDFSHA256(), HAEAD: hpke.ChaCha20Poly1305(), AEAD: chacha20poly1305.New},
	4: {ID: 4, Hash: sha512.New, Nh: 64, Nk: 32, Nn: 12, KDF: hpke.HKDFSHA512(), HAEAD: hpke.AES256GCM(), AEAD: aesgcm, NoSig: true},
	5: {ID: 5, Hash: sha512.New, Nh: 64, Nk: 32, Nn: 12, KEM: hpke.DHKEM(ecdh.P521()), KDF: hpke.HKDFSHA512(), HAEAD: hpke.AES256GCM(), AEAD: aesgcm, Curve: elliptic.P521()},
	6: {ID: 6, Hash: sha512.New, Nh: 64, Nk: 32, Nn: 12, KDF: hpke.HKDFSHA512(), HAEAD: hpke.ChaCha20Poly1305(), AEAD: chacha20poly1305.New, NoSig: true},
	7: {ID: 7, Hash: sha512.New384, Nh: 48, Nk: 32, Nn: 12, KEM: hpke.DHKEM(ecdh.P384()), KDF: hpke.HKDFSHA384(), HAEAD: hpke.AES256GCM(), AEAD: aesgcm, Curve: elliptic.P384()},
}

// GetSuite returns the suite with the given id or nil.
func GetSuite(id uint16) *Suite { return suites[id] }

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Errorf("mlsref: %w", err))
	}
	return v
}

// Rand returns n random bytes.
func Rand(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func (s *Suite) H(parts ...[]byte) []byte {
	h := s.Hash()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s *Suite) MAC(key []byte, msg []byte) []byte {
	m := hmac.New(s.Hash, key)
	m.Write(msg)
	return m.Sum(nil)
}

func (s *Suite) Extract(salt, ikm []byte) []byte { return must(hkdf.Extract(s.Hash, ikm, salt)) }

func (s *Suite) Expand(prk, info []byte, n int) []byte {
	return must(hkdf.Expand(s.Hash, prk, string(info), n))
}

func (s *Suite) ExpandWithLabel(secret []byte, label string, context []byte, n int) []byte {
	label, context = s.bend("kdf", label, context)
	var w W
	w.U16(uint16(n))
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(context)
	return s.Expand(secret, w.B, n)
}

func (s *Suite) DeriveSecret(secret []byte, label string) []byte {
	return s.ExpandWithLabel(secret, label, nil, s.Nh)
}

func (s *Suite) DeriveTreeSecret(secret []byte, label string, gen uint32, n int) []byte {
	var w W
	w.U32(gen)
	return s.ExpandWithLabel(secret, label, w.B, n)
}

func (s *Suite) RefHash(label string, value []byte) []byte {
	label, value = s.bend("ref", label, value)
	var w W
	w.Vec([]byte(label))
	w.Vec(value)
	return s.H(w.B)
}

func labelled(label string, content []byte) []byte {
	var w W
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(content)
	return w.B
}

// SignRaw signs with the suite's signature scheme.
func (s *Suite) SignRaw(priv, msg []byte) []byte {
	if s.Curve == nil {
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg)
	}
	size := (s.Curve.Params().N.BitLen() + 7) / 8
	k := must(ecdsa.ParseRawPrivateKey(s.Curve, new(big.Int).SetBytes(priv).FillBytes(make([]byte, size))))
	return must(ecdsa.SignASN1(rand.Reader, k, s.H(msg)))
}

func (s *Suite) VerifyRaw(pub, msg, sig []byte) bool {
	if s.Curve == nil {
		return len(pub) == ed25519.PublicKeySize && ed25519.Verify(pub, msg, sig)
	}
	k, err := ecdsa.ParseUncompressedPublicKey(s.Curve, pub)
	return err == nil && ecdsa.VerifyASN1(k, s.H(msg), sig)
}

func (s *Suite) Sign(priv []byte, label string, content []byte) []byte {
	label, content = s.bend("sign", label, content)
	return s.SignRaw(priv, labelled(label, content))
}

func (s *Suite) Verify(pub []byte, label string, content, sig []byte) bool {
	return s.VerifyRaw(pub, labelled(label, content), sig)
}

// GenSig generates a signature key pair.
func (s *Suite) GenSig() (pub, priv []byte) {
	if s.Curve == nil {
		p, k, err := ed25519.GenerateKey(rand.Reader)
		must(p, err)
		return p, k.Seed()
	}
	k := must(ecdsa.GenerateKey(s.Curve, rand.Reader))
	return must(k.PublicKey.Bytes()), must(k.Bytes())
}

// SigPub computes the public key of a raw private key.
func (s *Suite) SigPub(priv []byte) ([]byte, error) {
	if s.Curve == nil {
		if len(priv) != ed25519.SeedSize {
			return nil, errors.New("bad seed size")
		}
		return ed25519.NewKeyFromSeed(priv).Public().(ed25519.PublicKey), nil
	}
	size := (s.Curve.Params().N.BitLen() + 7) / 8
	k, err := ecdsa.ParseRawPrivateKey(s.Curve, new(big.Int).SetBytes(priv).FillBytes(make([]byte, size)))
	if err != nil {
		return nil, err
	}
	return k.PublicKey.Bytes()
}

// GenKEM generates an HPKE key pair.
func (s *Suite) GenKEM() (pub, priv []byte) {
	k := must(s.KEM.GenerateKey())
	return k.PublicKey().Bytes(), must(k.Bytes())
}

// KEMPub computes the public key of a raw private key.
func (s *Suite) KEMPub(priv []byte) ([]byte, error) {
	k, err := s.KEM.NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	return k.PublicKey().Bytes(), nil
}

func (s *Suite) DeriveKEM(ikm []byte) (pub, priv []byte) {
	k := must(s.KEM.DeriveKeyPair(ikm))
	return k.PublicKey().Bytes(), must(k.Bytes())
}

// HPKECt is an HPKE ciphertext.
type HPKECt struct{ Kem, Ct []byte }

func (c *HPKECt) Enc(w *W) { w.Vec(c.Kem); w.Vec(c.Ct) }
func (c *HPKECt) Dec(r *R) { c.Kem = r.Vec(); c.Ct = r.Vec() }

func (s *Suite) Encrypt(pub []byte, label string, context, pt []byte) (HPKECt, error) {
	label, context = s.bend("seal", label, context)
	k, err := s.KEM.NewPublicKey(pub)
	if err != nil {
		return HPKECt{}, err
	}
	enc, snd, err := hpke.NewSender(k, s.KDF, s.HAEAD, labelled(label, context))
	if err != nil {
		return HPKECt{}, err
	}
	ct, err := snd.Seal(nil, pt)
	return HPKECt{enc, ct}, err
}

func (s *Suite) Decrypt(priv []byte, label string, context []byte, ct HPKECt) ([]byte, error) {
	k, err := s.KEM.NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	rcp, err := hpke.NewRecipient(ct.Kem, k, s.KDF, s.HAEAD, labelled(label, context))
	if err != nil {
		return nil, err
	}
	return rcp.Open(nil, ct.Ct)
}

func (s *Suite) Seal(key, nonce, pt, aad []byte) []byte {
	return must(s.AEAD(key)).Seal(nil, nonce, pt, aad)
}

func (s *Suite) Open(key, nonce, ct, aad []byte) ([]byte, error) {
	a, err := s.AEAD(key)
	if err != nil {
		return nil, err
	}
	return a.Open(nil, nonce, ct, aad)
}

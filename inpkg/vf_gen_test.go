package mls

import (
	"bytes"
	"slices"

	ref "mlsref"
)

func vfFlip(c *vfCase, b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) == 0 {
		return []byte{1}
	}
	i := c.Int("position", 0, len(b)*8-1)
	b[i/8] ^= 1 << (i % 8)
	return b
}

// vfMangle changes a byte string.
func vfMangle(c *vfCase, b []byte) (string, []byte) {
	switch c.Int("mangle", 0, 5) {
	case 0:
		return "flipped bit", vfFlip(c, b)
	case 1:
		if len(b) > 0 {
			return "truncated", bytes.Clone(b[:len(b)-1])
		}
	case 2:
		if len(b) > 0 {
			return "empty", []byte{}
		}
	case 3:
		return "extended", append(bytes.Clone(b), byte(c.Int("byte", 0, 255)))
	case 4:
		z := make([]byte, len(b))
		if !bytes.Equal(z, b) {
			return "zeroed", z
		}
	case 5:
		if len(b) > 1 {
			n := c.Int("prefix", 1, len(b)-1)
			return "prefix", bytes.Clone(b[:n])
		}
	}
	return "flipped bit", vfFlip(c, b)
}

// vfMutate changes some fields of a structure while it is encoded.
func vfMutate(c *vfCase, v interface{ Enc(*ref.W) }) []byte {
	m := &ref.Mutator{}
	ref.BytesMut(v, m)
	if m.N == 0 {
		return ref.Bytes(v)
	}
	at := map[int]bool{}
	for n := c.Int("changes", 1, 3); n > 0; n-- {
		at[c.Int("field", 0, m.N-1)] = true
	}
	return ref.BytesMut(v, &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if !at[n] {
			return b
		}
		switch kind {
		case 'i':
			return vfOddInt(c, b)
		case 'p':
			return vfOddLength(c)
		default:
			return vfOddBytes(c, b)
		}
	}})
}

// vfOddInt replaces an integer by another of the same size.
func vfOddInt(c *vfCase, b []byte) []byte {
	out := make([]byte, len(b))
	switch c.Int("integer", 0, 5) {
	case 0: // zero
	case 1:
		for i := range out {
			out[i] = 0xff
		}
	case 2:
		out[0] = 0x80
		copy(out[1:], b[1:])
	case 3:
		copy(out, b)
		out[len(out)-1] += byte(c.Int("delta", 1, 255))
	case 4:
		out[len(out)-1] = byte(c.Int("small", 0, 20))
	case 5:
		for i := range out {
			out[i] = byte(c.rnd.Uint32())
		}
	}
	return out
}

// vfOddLength makes a length prefix.
func vfOddLength(c *vfCase) []byte {
	switch c.Int("length", 0, 6) {
	case 0:
		return []byte{byte(c.Int("n", 0, 63))}
	case 1:
		return []byte{0x40 | byte(c.Int("hi", 0, 63)), byte(c.Int("lo", 0, 255))}
	case 2:
		return []byte{0xbf, 0xff, 0xff, 0xff}
	case 3:
		return []byte{0x80 | byte(c.Int("top", 8, 63)), 0, 0, 0}
	case 4:
		return []byte{0x80, 0, 0, byte(c.Int("lo", 0, 255))}
	case 5:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	default:
		return []byte{0xc0 | byte(c.Int("n", 0, 63))}
	}
}

func vfOddBytes(c *vfCase, b []byte) []byte {
	switch c.Int("bytes", 0, 6) {
	case 0:
		return nil
	case 1:
		return vfFlip(c, b)
	case 2:
		return bytes.Clone(b[:c.Int("keep", 0, len(b))])
	case 3:
		return append(bytes.Clone(b), b...)
	case 4:
		return make([]byte, len(b))
	case 5:
		return ref.Rand(vfPick(c, "size", 1, 2, 31, 32, 33, 64, 65, 66, 133, 1000))
	default:
		return slices.Repeat([]byte{byte(c.Int("fill", 0, 255))}, vfPick(c, "size", 1, 4, 16, 32, 65, 300, 5000))
	}
}

// vfLax encodes a structure in a way that a vfStrict decoder refuses although the
// meaning is clear: a longer length prefix, or a vector that is cut or padded.
func vfLax(c *vfCase, v interface{ Enc(*ref.W) }) (string, []byte) {
	var prefixes []int
	m := &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if kind == 'p' {
			prefixes = append(prefixes, n)
		}
		return b
	}}
	ref.BytesMut(v, m)
	if len(prefixes) == 0 {
		return "", nil
	}
	at := prefixes[c.Int("prefix", 0, len(prefixes)-1)]
	name := ""
	out := ref.BytesMut(v, &ref.Mutator{F: func(n int, kind byte, b []byte) []byte {
		if n != at {
			return b
		}
		size := 0
		for i, x := range b {
			if i == 0 {
				x &= 0x3f
			}
			size = size<<8 | int(x)
		}
		long := c.Bool("longer")
		switch {
		case len(b) == 1 && !long:
			name = "length in 2 octets"
			return []byte{0x40, byte(size)}
		case len(b) <= 2:
			name = "length in 4 octets"
			return []byte{0x80, 0, byte(size >> 8), byte(size)}
		default:
			name = "length in 8 octets"
			return []byte{0xc0, 0, 0, 0, byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}
		}
	}})
	return name, out
}

type vfCoder interface{ Enc(*ref.W) }

// vfStrict decodes with the reference.
func vfStrict[T any, P interface {
	*T
	Enc(*ref.W)
	Dec(*ref.R)
}](raw []byte) (P, error) {
	v := P(new(T))
	r := ref.R{B: raw}
	v.Dec(&r)
	return v, r.Done()
}

// vfSpelling draws another vfSpelling of a structure.
func vfSpelling(c *vfCase, v vfCoder) (string, []byte) {
	switch c.Int("spelling", 0, 5) {
	case 0, 1:
		n, b := vfLax(c, v)
		if b != nil {
			return n, b
		}
		fallthrough
	case 2:
		return "fields changed", vfMutate(c, v)
	case 3:
		b := ref.Bytes(v)
		return "cut off", b[:c.Int("length", 0, max(0, len(b)-1))]
	case 4:
		return "trailing bytes", append(ref.Bytes(v), c.payload(c.Int("more", 1, 5))...)
	default:
		_, b := vfMangle(c, ref.Bytes(v))
		return "mangled", b
	}
}

func (c *vfCase) payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.rnd.Uint32())
	}
	return b
}

// anyLeaf makes a well-formed leaf with arbitrary contents.
func (c *vfCase) anyLeaf() *ref.Leaf {
	l := &ref.Leaf{EncKey: c.Bytes("encryption key", 200), SigKey: c.Bytes("signature key", 200), Sig: c.Bytes("leaf signature", 300)}
	if c.Chance("x509", 3) {
		l.Cred.Type = ref.CredX509
		for k := c.Int("certificates", 0, 4); k > 0; k-- {
			l.Cred.Certs = append(l.Cred.Certs, c.Bytes("certificate", 400))
		}
	} else {
		l.Cred = ref.Credential{Type: ref.CredBasic, Identity: c.Bytes("identity", 20000)}
	}
	list := func(label string) (out []uint16) {
		for k := c.Int(label, 0, 40); k > 0; k-- {
			out = append(out, uint16(c.rnd.Uint32()))
		}
		return out
	}
	l.Versions, l.Suites, l.Exts, l.Props, l.Creds = list("versions"), list("suites"), list("extension types"), list("proposal types"), list("credential types")
	l.Source = uint8(c.Int("source", 1, 3))
	switch l.Source {
	case ref.SourceKeyPackage:
		l.NotBefore, l.NotAfter = c.rnd.Uint64(), c.rnd.Uint64()
	case ref.SourceCommit:
		l.ParentHash = c.Bytes("parent hash", 200)
	}
	l.Extensions = c.anyExts()
	return l
}

func (c *vfCase) anyExts() (out []ref.Ext) {
	for k := c.weighted("extensions", 3, 2, 1, 1); k > 0; k-- {
		out = append(out, ref.Ext{Type: vfPick(c, "extension type", uint16(0xf000), 1, 2, 3, 4, 5, 0x0a0a, 0xffff), Data: c.Bytes("extension", 300)})
	}
	return out
}

func (c *vfCase) anyKeyPackage() *ref.KeyPackage {
	return &ref.KeyPackage{Version: ref.MLS10, Suite: vfPick(c, "suite", uint16(1), 2, 3, 4, 5, 6, 7, 0, 99, 0xffff),
		InitKey: c.Bytes("init key", 200), Leaf: *c.anyLeaf(), Extensions: c.anyExts(), Sig: c.Bytes("signature", 300)}
}

func (c *vfCase) anyWelcome() *ref.Welcome {
	w := &ref.Welcome{Suite: vfPick(c, "suite", uint16(1), 2, 3, 4, 5, 6, 7), EncInfo: c.Bytes("group info", 70000)}
	for k := c.Int("entries", 0, 6); k > 0; k-- {
		w.Secrets = append(w.Secrets, ref.WelcomeSecret{Ref: c.Bytes("ref", 80), Ct: ref.HPKECt{Kem: c.Bytes("kem", 200), Ct: c.Bytes("ciphertext", 300)}})
	}
	return w
}

// verdict counts what happened to another vfSpelling.
func (c *vfCase) verdict(name string, err error) {
	if err != nil {
		c.class("refused: %s", name)
		c.nontrivial()
	} else {
		c.class("accepted: %s", name)
	}
	c.op("%s: well-formed=%v", name, err == nil)
}

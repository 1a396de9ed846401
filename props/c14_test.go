package props

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"strings"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// counter counts the random bytes that are drawn.
type counter struct {
	io.Reader
	n int
}

func (r *counter) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	r.n += n
	return n, err
}

// drawn returns how many bytes f takes from the system's random source.
func drawn(f func()) int {
	r := &counter{Reader: rand.Reader}
	rand.Reader = r
	defer func() { rand.Reader = r.Reader }()
	f()
	return r.n
}

// hoard collects secrets and looks for them in what is emitted.
type hoard struct {
	*Case
	secrets map[string][]byte
	names   []string
}

func (h *hoard) keep(name string, b []byte) {
	if len(b) < 16 {
		return
	}
	if h.secrets == nil {
		h.secrets = map[string][]byte{}
	}
	if h.secrets[name] == nil {
		h.names = append(h.names, name)
		h.secrets[name] = bytes.Clone(b)
	}
}

func (h *hoard) forget() { h.secrets, h.names = nil, nil }

func (h *hoard) keepMember(name string, p *mls.PrivateKeyPackage) {
	h.keep(name+": init key", p.InitKey)
	h.keep(name+": encryption key", p.EncryptionKey)
	h.keep(name+": signature key", p.SignatureKey)
}

var secretLabels = []string{"sender data", "encryption", "exporter", "external", "confirm", "membership", "resumption", "authentication", "init"}

func (h *hoard) keepEpoch(name string, g *ref.Group) {
	h.keep(name+": epoch secret", g.Epoch)
	h.keep(name+": init secret", g.Init)
	h.keep(name+": joiner secret", g.Joiner)
	for _, l := range secretLabels {
		h.keep(name+": "+l, g.Secret(l))
	}
	h.keep(name+": welcome secret", g.S.WelcomeSecret(g.Joiner, g.S.Zero()))
}

// scan looks for 12 consecutive bytes of any secret.
func (h *hoard) scan(what string, raw []byte, except ...string) {
	const win = 12
	have := map[string]bool{}
	for i := 0; i+win <= len(raw); i++ {
		have[string(raw[i:i+win])] = true
	}
	for _, n := range h.names {
		skip := false
		for _, e := range except {
			skip = skip || e == n
		}
		if skip {
			continue
		}
		s := h.secrets[n]
		zero := make([]byte, win)
		for i := 0; i+win <= len(s); i += 4 {
			if have[string(s[i:i+win])] && !bytes.Equal(s[i:i+win], zero) {
				h.Fatalf("%s contains %s", what, n)
			}
		}
	}
	h.count("outputs searched for secrets")
}

// TestC14Keys: generated key packages.
func TestC14Keys(t *testing.T) {
	run(t, 1, "several key packages of one client were generated and compared", func(c *Case) {
		s := c.suite()
		id := c.Bytes("identity", 100)
		cred := mls.NewBasicCredential(id)
		h := &hoard{Case: c}
		used := map[string]string{}
		vary := map[string]map[byte]bool{}
		n := c.Int("packages", 2, 12)
		c.op("%d key packages of %s", n, short(id))
		var raws [][]byte
		for i := 0; i < n; i++ {
			kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s.ID), cred)
			c.must(err, "GenerateKeyPairPackage")
			kp := c.checkGenerated(s, kpp, id)
			for _, x := range []struct {
				name string
				b    []byte
			}{
				{"init key", kp.InitKey}, {"encryption key", kp.Leaf.EncKey}, {"signature key", kp.Leaf.SigKey},
				{"private init key", kpp.Private.InitKey}, {"private encryption key", kpp.Private.EncryptionKey}, {"private signature key", kpp.Private.SignatureKey},
			} {
				if old, dup := used[string(x.b)]; dup {
					c.Fatalf("%s of key package %d is also %s", x.name, i, old)
				}
				used[string(x.b)] = x.name
				for j, v := range x.b {
					k := fmt.Sprintf("byte %d of the %s", j, x.name)
					if vary[k] == nil {
						vary[k] = map[byte]bool{}
					}
					vary[k][v] = true
				}
			}
			h.forget()
			h.keepMember("client", &kpp.Private)
			raw := kpp.Public.Bytes()
			h.scan("key package", raw)
			raws = append(raws, raw)
		}
		for i, a := range raws {
			for _, b := range raws[:i] {
				if bytes.Equal(a, b) {
					c.Fatalf("two key packages are equal")
				}
			}
		}
		if n > 2 {
			c.nontrivial()
		}
		if n >= 8 {
			for k, v := range vary {
				if len(v) == 1 && (strings.HasSuffix(k, "private init key") || strings.HasSuffix(k, "private encryption key")) {
					c.Fatalf("%s is the same in %d key packages", k, n)
				}
			}
		}
	})
}

// TestC14Groups: groups of the same creator, invitations and messages of equal
// content.
func TestC14Groups(t *testing.T) {
	run(t, 1, "equal groups, invitations and messages were made repeatedly and compared", func(c *Case) {
		w := c.world()
		gm := w.newGo()
		p := w.plainRef()
		kp := w.goKP(p.KP)
		used := map[string]string{}
		unique := func(name string, b []byte) {
			if old, dup := used[string(b)]; dup {
				c.Fatalf("%s is the same as %s", name, old)
			}
			used[string(b)] = "an earlier " + name
		}
		n := c.Int("groups", 2, 4)
		m := c.Int("messages", 2, 40)
		data := c.Bytes("payload", 300)
		c.op("%d groups, %d messages of %s", n, m, short(data))
		var guards [4]map[byte]bool
		for i := range guards {
			guards[i] = map[byte]bool{}
		}
		for i := 0; i < n; i++ {
			var g *mls.Group
			d := drawn(func() {
				var err error
				g, err = mls.CreateGroup(bytes.Clone(w.GID), gm.KPP)
				c.must(err, "CreateGroup")
			})
			if d > 0 && d < w.S.Nh {
				c.Fatalf("a new group takes only %d random bytes, its secret has %d", d, w.S.Nh)
			}
			// the same invitation twice
			var joined *ref.Group
			var commit []byte
			for k := 0; k < 2; k++ {
				wel, raw, err := g.CreateWelcome([]mls.KeyPackage{*kp})
				c.must(err, "CreateWelcome")
				unique("commit", raw)
				x, err := ref.ParseWelcomeMsg(wel.Bytes())
				c.must(err, "Welcome")
				for _, e := range x.Secrets {
					unique("KEM output", e.Ct.Kem)
					unique("encrypted group secrets", e.Ct.Ct)
				}
				rg, _, _, err := ref.Join(wel.Bytes(), p.KP, p.Init)
				c.must(err, "Join")
				joined, commit = rg, raw
			}
			unique("joiner secret", joined.Joiner)
			unique("epoch secret", joined.Epoch)
			_, err := g.UnmarshalAndProcessMessage(commit)
			c.must(err, "own commit")
			for k := 0; k < m; k++ {
				raw, err := g.CreateApplicationMessage(data)
				c.must(err, "CreateApplicationMessage")
				unique("message", raw)
				o, err := joined.Unprotect(raw)
				c.must(err, "message")
				unique("message key", o.Key)
				for j, v := range o.SD.Guard {
					guards[j][v] = true
				}
				pm, err := strict[ref.PrivMsg](raw[4:])
				c.must(err, "message")
				unique("message ciphertext", pm.Ct)
				unique("encrypted sender data", pm.EncSD)
			}
		}
		if n*m >= 16 {
			c.nontrivial()
			for j := range guards {
				if len(guards[j]) == 1 {
					c.Fatalf("byte %d of the reuse guard is the same in %d messages", j, n*m)
				}
			}
		}
	})
}

// TestC14Leaks searches everything that the library emits for secrets.
func TestC14Leaks(t *testing.T) {
	run(t, 1, "a commit, a Welcome and messages of library members were searched for the secrets of at least two epochs", func(c *Case) {
		w := c.populated(2, 10)
		w.Strict = true
		h := &hoard{Case: c}
		epochs := 0
		for n := c.Int("epochs", 1, 3); n > 0; n-- {
			name := "previous epoch"
			h.forget()
			h.keepEpoch(name, w.G)
			for _, l := range w.goLeaves() {
				h.keepMember(fmt.Sprintf("library member %d", l), &w.Go[l].KPP.Private)
			}
			for pos, x := range w.G.NodePrv {
				h.keep("node key "+short([]byte(pos)), x)
			}
			gos := w.goLeaves()
			by := gos[c.Int("speaker", 0, len(gos)-1)]
			g := w.Go[by].G
			for k := c.Int("messages", 1, 4); k > 0; k-- {
				data := w.payload(c.Int("length", 16, 100))
				raw, err := g.CreateApplicationMessage(data)
				c.must(err, "CreateApplicationMessage")
				_, err = w.open(raw)
				c.must(err, "message of library member %d", by)
				h.keep(fmt.Sprintf("plaintext %d", k), data)
				h.scan("message", raw)
				if k > 1 && c.Bool("failure") {
					pl := w.genCommit(w.keepAll())
					name, raw := w.broken(pl)
					w.op("%s with %s", pl, name)
					w.refuseAll("a commit with "+name, raw)
				}
			}
			o := w.offer(by)
			for i, inv := range o.invs {
				name := fmt.Sprintf("invitee %d", i)
				if inv.Go != nil {
					h.keepMember(name, &inv.Go.KPP.Private)
				} else {
					h.keep(name+": init key", inv.Ref.Init)
				}
			}
			w.op("library member %d invites %d", by, len(o.invs))
			// what the group sees of the commit
			op, err := w.open(o.raw)
			c.must(err, "commit")
			res, err := w.G.Follow(op, nil)
			c.must(err, "commit")
			h.keepEpoch("next epoch", res.G)
			h.scan("commit", o.raw)
			h.scan("content of the commit", ref.Bytes(&op.AC))
			wel := o.wel.Bytes()
			h.scan("Welcome", wel)
			// what an invitee sees of the Welcome
			x, err := ref.ParseWelcomeMsg(wel)
			c.must(err, "Welcome")
			for i, inv := range o.invs {
				init := []byte(nil)
				if inv.Go != nil {
					init = inv.Go.KPP.Private.InitKey
				} else {
					init = inv.Ref.Init
				}
				pt, err := w.S.Decrypt(init, "Welcome", x.EncInfo, x.Secrets[i].Ct)
				c.must(err, "group secrets")
				h.scan("group secrets", pt, "next epoch: joiner secret")
				gs, err := strict[ref.GroupSecrets](pt)
				c.must(err, "group secrets")
				if !bytes.Equal(gs.Joiner, res.G.Joiner) || gs.HasPath || len(gs.PSKs) != 0 {
					c.Fatalf("group secrets hold more than the joiner secret")
				}
				_, _, gi, err := ref.Join(wel, inv.kp(), init)
				c.must(err, "Join")
				h.scan("group info", ref.Bytes(gi))
			}
			w.followGo(o.by, o.invs, o.wel, o.raw)
			epochs++
			if c.Bool("other commit") {
				w.execute(w.genCommit(GenOpts{MaxAdd: 1, MaxRemove: 1, MaxLeaves: 14, KeepGo: 1, KeepRef: 2}))
			}
		}
		if epochs > 1 {
			c.nontrivial()
		}
	})
}

package props

import (
	"fmt"
	"slices"
	"testing"
	"time"

	ref "mlsref"
)

// Ways for a leaf to come into a group.
const (
	viaAdd = iota
	viaUpdate
	viaPath
)

// badLeaf describes one defect of a leaf node or key package. Every part is
// optional.
type badLeaf struct {
	name   string
	leaf   func(l *ref.Leaf)        // before the leaf is signed
	signer []byte                   // key that signs the leaf
	group  []byte                   // group the leaf is signed for
	idx    *uint32                  // position the leaf is signed for
	label  string                   // signature label
	post   func(l *ref.Leaf)        // after the leaf is signed
	kp     func(kp *ref.KeyPackage) // before the key package is signed
	kpKey  []byte                   // key that signs the key package
	kpPost func(kp *ref.KeyPackage) // after the key package is signed
}

// leafDefect draws a defect for a leaf that comes in through the given way and
// is meant for position self (if known), in a commit of member by.
func (w *World) leafDefect(via int, self, by uint32) *badLeaf {
	c := w.Case
	d := &badLeaf{}
	others := func() []uint32 {
		var out []uint32
		for _, l := range w.members() {
			if via == viaAdd || l != self {
				out = append(out, l)
			}
		}
		return out
	}
	other := func(label string) uint32 {
		ms := others()
		return ms[c.Int(label, 0, len(ms)-1)]
	}
	bound, pkg, dem := 0, 0, 0
	demands := w.demands()
	if len(demands) > 0 {
		dem = 12
	}
	if via == viaAdd {
		pkg = 12
	} else {
		bound = 4
	}
	switch c.weighted("leaf defect", 3, 2, 1, 3, 2, 2, 2, 2, 3, 3, 3, bound, pkg, dem) {
	case 0:
		d.post = func(l *ref.Leaf) {
			n, x := mangle(c, l.Sig)
			l.Sig = x
			d.name = "leaf signature " + n
		}
		d.name = "leaf signature mangled"
	case 1:
		if c.Bool("stranger's key") {
			_, d.signer = w.S.GenSig()
			d.name = "leaf signed with an unknown key"
		} else {
			d.signer = w.G.Sig[other("signer")]
			d.name = "leaf signed with the key of another member"
		}
	case 2:
		d.label = pick(c, "label", "KeyPackageTBS", "FramedContentTBS", "GroupInfoTBS", "leafNodeTBS")
		d.name = "leaf signed under another label"
	case 3:
		var f func(l *ref.Leaf)
		what := ""
		switch k := c.Int("changed", 0, 7); k {
		case 0:
			f, what = rename, "identity"
		case 1:
			f, what = func(l *ref.Leaf) { l.EncKey, _ = w.S.GenKEM() }, "encryption key"
		case 2:
			f, what = func(l *ref.Leaf) { l.Creds = append(slices.Clone(l.Creds), 0x7a7a) }, "capabilities (credentials)"
		case 3:
			f, what = func(l *ref.Leaf) { l.Exts = append(slices.Clone(l.Exts), 0x7a7a) }, "capabilities (extensions)"
		case 4:
			f, what = func(l *ref.Leaf) {
				l.Exts = append(slices.Clone(l.Exts), 0xf009)
				l.Extensions = append(slices.Clone(l.Extensions), ref.Ext{Type: 0xf009})
			}, "extensions"
		case 5:
			f, what = func(l *ref.Leaf) { l.Versions = append(slices.Clone(l.Versions), 77) }, "capabilities (versions)"
		case 6:
			f, what = func(l *ref.Leaf) { l.Props = append(slices.Clone(l.Props), 77) }, "capabilities (proposals)"
		case 7:
			f, what = func(l *ref.Leaf) { l.Suites = append(slices.Clone(l.Suites), 77) }, "capabilities (suites)"
			if via == viaAdd && c.Bool("lifetime") {
				f, what = func(l *ref.Leaf) { l.NotAfter++ }, "lifetime"
			}
		}
		d.post = f
		d.name = what + " of the leaf changed after signing"
	case 4:
		src := pick(c, "source", uint8(ref.SourceKeyPackage), ref.SourceUpdate, ref.SourceCommit)
		if src == []uint8{ref.SourceKeyPackage, ref.SourceUpdate, ref.SourceCommit}[via] {
			src = src%3 + 1
		}
		d.leaf = func(l *ref.Leaf) {
			if src == ref.SourceKeyPackage {
				now := uint64(time.Now().Unix())
				l.NotBefore, l.NotAfter = now-3600, now+3600*24*20
			}
			l.Source = src
			if src == ref.SourceCommit {
				l.ParentHash = nil
				if c.Bool("with parent hash") {
					l.ParentHash = ref.Rand(w.S.Nh)
				}
			}
		}
		if via == viaAdd {
			// the best a cheater can do is to sign for the group and position
			t := w.G.Tree.Clone()
			idx := t.Add(&ref.Leaf{})
			d.group, d.idx = w.GID, &idx
		}
		d.name = fmt.Sprintf("leaf of source %d", src)
	case 5:
		if w.Certs {
			return w.leafDefect(via, self, by)
		}
		d.name = "X.509 credential that not every member supports"
		d.leaf = func(l *ref.Leaf) {
			l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{ref.Rand(20), ref.Rand(5)}}
			l.Creds = []uint16{1, 2}
		}
	case 6:
		if w.Certs {
			if !slices.ContainsFunc(others(), func(l uint32) bool { return w.G.Tree.Leaf(l).Cred.Type == ref.CredX509 }) {
				return w.leafDefect(via, self, by)
			}
			d.name = "X.509 credentials, which others use, are not supported"
			d.leaf = func(l *ref.Leaf) {
				l.Cred = ref.Credential{Type: ref.CredBasic, Identity: ref.Rand(4)}
				l.Creds = []uint16{1}
			}
			break
		}
		d.name = "X.509 credential, listed many times in the capabilities"
		n := len(w.members()) + 1
		if c.Bool("one less") {
			n--
		}
		d.leaf = func(l *ref.Leaf) {
			l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{ref.Rand(20)}}
			l.Creds = []uint16{1}
			// count what the others list
			have := 0
			for _, m := range others() {
				if slices.Contains(w.G.Tree.Leaf(m).Creds, 2) {
					have++
				}
			}
			for i := have; i < n; i++ {
				l.Creds = append(l.Creds, 2)
			}
		}
	case 7:
		d.name = "credential type in use missing in the capabilities"
		creds := pick(c, "creds", []uint16{}, []uint16{2}, []uint16{0x7a7a, 3})
		d.leaf = func(l *ref.Leaf) {
			l.Creds = creds
			if w.Certs && slices.Contains(creds, l.Cred.Type) {
				l.Creds = []uint16{1}
			}
		}
	case 8:
		d.name = "extension that is not in the leaf's capabilities"
		d.leaf = func(l *ref.Leaf) {
			l.Exts = slices.Clone(l.Exts)
			l.Extensions = append(slices.Clone(l.Extensions), ref.Ext{Type: 0xf00a, Data: ref.Rand(3)})
			if c.Bool("listed as something else") {
				l.Props = append(slices.Clone(l.Props), 0xf00a)
				l.Creds = append(slices.Clone(l.Creds), 0xf00a)
				l.Suites = append(slices.Clone(l.Suites), 0xf00a)
			}
			if c.Bool("second extension") {
				l.Extensions = append([]ref.Ext{{Type: 0xf00b}}, l.Extensions...)
				l.Exts = append(l.Exts, 0xf00b)
			}
		}
	case 9:
		o := other("twin")
		d.name = "signature key of another member"
		d.signer, d.kpKey = w.G.Sig[o], w.G.Sig[o]
		d.leaf = func(l *ref.Leaf) { l.SigKey = w.G.Tree.Leaf(o).SigKey }
	case 10:
		if via == viaUpdate && c.Bool("unchanged") {
			d.name = "the encryption key that the member already has"
			d.leaf = func(l *ref.Leaf) { l.EncKey = w.G.Tree.Leaf(self).EncKey }
			break
		}
		o := other("twin")
		for o == by {
			// the committer's key is replaced by the path
			o = other("twin")
		}
		d.name = "encryption key of another member"
		d.leaf = func(l *ref.Leaf) { l.EncKey = w.G.Tree.Leaf(o).EncKey }
	case 11:
		switch c.Int("bound to", 0, 2) {
		case 0:
			_, d.group = mangle(c, w.GID)
			d.name = "leaf signed for another group"
		case 1:
			o := other("position")
			d.idx = &o
			d.name = "leaf signed for the position of another member"
		case 2:
			o := pick(c, "position", self+1, self^1<<31, self+uint32(len(w.G.Tree.Lf)), self-1)
			d.idx = &o
			d.name = "leaf signed for another position"
		}
	case 12:
		switch c.Int("package", 0, 9) {
		case 0, 1:
			d.kpPost = func(k *ref.KeyPackage) { _, k.Sig = mangle(c, k.Sig) }
			d.name = "key package signature mangled"
		case 2:
			_, d.kpKey = w.S.GenSig()
			d.name = "key package signed with another key"
		case 3:
			d.kpPost = func(k *ref.KeyPackage) {
				if c.Bool("init key") {
					k.InitKey, _ = w.S.GenKEM()
				} else {
					k.Extensions = append(slices.Clone(k.Extensions), ref.Ext{Type: 0xf00c})
				}
			}
			d.name = "key package changed after signing"
		case 4:
			v := pick(c, "version", uint16(0), 2, 0x100)
			d.kp = func(k *ref.KeyPackage) { k.Version = v }
			d.name = "key package of another version"
		case 5:
			id := pick(c, "other suite", uint16(1), 3, 2, 7, 4, 5, 6)
			if id == w.S.ID {
				id = id%3 + 1
			}
			d.kp = func(k *ref.KeyPackage) { k.Suite = id }
			d.name = "key package of another suite"
		case 6:
			d.kp = func(k *ref.KeyPackage) { k.InitKey = k.Leaf.EncKey }
			d.name = "init key equals encryption key"
		case 7, 8, 9:
			now := uint64(time.Now().Unix())
			day := uint64(24 * 3600)
			var lt [2]uint64
			switch c.Int("lifetime", 0, 4) {
			case 0:
				ago := pick(c, "ago", uint64(5), 60, 600, 3600, 7200)
				lt, d.name = [2]uint64{now - 20*day, now - ago}, "expired"
			case 1:
				ahead := pick(c, "ahead", uint64(1200), 3600, 7200)
				lt, d.name = [2]uint64{now + ahead, now + 20*day}, "not yet valid"
			case 2:
				lt, d.name = [2]uint64{now + 20*day, now - 20*day}, "inverted lifetime"
			case 3:
				lt, d.name = [2]uint64{0, 0}, "zero lifetime"
			case 4:
				lt, d.name = [2]uint64{now - 5*day, now - 4*day}, "expired days ago"
			}
			d.leaf = func(l *ref.Leaf) { l.NotBefore, l.NotAfter = lt[0], lt[1] }
			d.name = "key package " + d.name
		}
	case 13:
		x := demands[c.Int("lacking", 0, len(demands)-1)]
		rest := func(l []uint16) []uint16 {
			return slices.DeleteFunc(slices.Clone(l), func(t uint16) bool { return t == x })
		}
		d.name = fmt.Sprintf("leaf without capability %x, which the group requires", x)
		d.leaf = func(l *ref.Leaf) {
			switch x {
			case demandExt:
				l.Exts = rest(l.Exts)
				l.Props = append(slices.Clone(l.Props), x)
			case demandProp:
				l.Props = rest(l.Props)
				l.Exts = append(slices.Clone(l.Exts), x)
			default:
				if l.Cred.Type == ref.CredX509 {
					l.Cred = ref.Credential{Type: ref.CredBasic, Identity: ref.Rand(4)}
				}
				l.Creds = rest(l.Creds)
			}
		}
	}
	return d
}

// spoil returns a copy of a key package with the defect.
func (w *World) spoil(p *RefPkg, d *badLeaf) *ref.KeyPackage {
	kp := p.KP.Clone()
	w.spoilLeaf(&kp.Leaf, d, p.Sig, nil, 0)
	if d.kp != nil {
		d.kp(kp)
	}
	key := p.Sig
	if d.kpKey != nil {
		key = d.kpKey
	}
	kp.SignWith(w.S, key)
	if d.kpPost != nil {
		d.kpPost(kp)
	}
	return kp
}

// spoilLeaf applies the defect to a leaf and signs it.
func (w *World) spoilLeaf(l *ref.Leaf, d *badLeaf, key, group []byte, idx uint32) {
	if d.leaf != nil {
		d.leaf(l)
	}
	if d.signer != nil {
		key = d.signer
	}
	if d.group != nil {
		group = d.group
	}
	if d.idx != nil {
		idx = *d.idx
	}
	l.SignWith(w.S, key, group, idx)
	if d.label != "" {
		l.Sig = w.S.Sign(key, d.label, l.TBS(group, idx))
	}
	if d.post != nil {
		d.post(l)
	}
}

// intruder is a commit that would bring in one invalid leaf, and the same
// commit without the defect.
type intruder struct {
	name string
	bad  *ref.CommitOpts
	good *Plan
	opts func(o *ref.CommitOpts) // options of the good commit
}

// intruder draws such a pair, derived from a valid commit.
func (w *World) intruder(base *Plan) *intruder {
	c := w.Case
	by := base.By
	good := &Plan{By: by, Items: slices.Clone(base.Items), Path: base.Path, Invitees: slices.Clone(base.Invitees)}
	bad := &ref.CommitOpts{By: by, Items: slices.Clone(base.Items), Path: base.Path, Wire: w.wire(), AAD: w.aad(), Frame: w.frame()}
	in := &intruder{bad: bad, good: good}
	touched := map[uint32]bool{by: true}
	w.Next = nil
	defer func() { w.Next = nil }()
	for _, it := range base.Items {
		switch it.Prop.Type {
		case ref.PropGCE:
			w.Next = &it.Prop.Exts
		case ref.PropUpdate:
			touched[it.Sender] = true
		case ref.PropRemove:
			touched[it.Prop.Removed] = true
		}
	}
	var upd []uint32
	for _, l := range w.refLeaves() {
		if !touched[l] {
			upd = append(upd, l)
		}
	}
	wu := 0
	if len(upd) > 0 {
		wu = 3
	}
	// the member whose key is copied must stay
	still := func(d *badLeaf) bool { return d.signer == nil && d.leaf == nil || len(touched) == 1 }
	send := func(it ref.Item) ref.Item {
		if it.Prop.Type == ref.PropUpdate {
			return w.sendProposal(it.Sender, it.Prop, it.SigPriv)
		}
		if c.Bool("add by reference") {
			ms := w.members()
			it.Sender = ms[c.Int("adder", 0, len(ms)-1)]
			// a receiver may refuse the proposal at once
			x, raw := w.makeProposal(it.Sender, it.Prop, it.SigPriv)
			for _, l := range w.goLeaves() {
				w.Go[l].G.UnmarshalAndProcessMessage(raw)
			}
			return x
		}
		return it
	}
	wc := 0
	if w.Certs {
		wc = 5
	}
	switch c.weighted("way in", 5, wu, 3, 2, wc) {
	case 0:
		p := w.newRef()
		d := w.leafDefect(viaAdd, 0, by)
		for !still(d) {
			d = w.leafDefect(viaAdd, 0, by)
		}
		kp := w.spoil(p, d)
		in.name = "add: " + d.name
		i := c.Int("insert at", 0, len(bad.Items))
		bad.Items = slices.Insert(bad.Items, i, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: kp}, Sender: by, SigPriv: p.Sig}))
		inv := Invitee{Ref: p}
		good.Items = append(good.Items, inv.item(by))
		good.Invitees = append(good.Invitees, inv)
	case 1:
		l := upd[c.Int("updater", 0, len(upd)-1)]
		leaf, sig := w.updateLeaf(l)
		d := w.leafDefect(viaUpdate, l, by)
		for !still(d) {
			d = w.leafDefect(viaUpdate, l, by)
		}
		x := leaf.Clone()
		w.spoilLeaf(x, d, sig, w.GID, l)
		in.name = "update: " + d.name
		it, raw := w.makeProposal(l, &ref.Proposal{Type: ref.PropUpdate, Update: x}, sig)
		for _, m := range w.goLeaves() {
			w.Go[m].G.UnmarshalAndProcessMessage(raw)
		}
		bad.Items = append(bad.Items, it)
		bad.Path = true
		good.Items = append(good.Items, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, Sender: l, SigPriv: sig}))
		good.Path = true
	case 2:
		d := w.leafDefect(viaPath, by, by)
		for !still(d) {
			d = w.leafDefect(viaPath, by, by)
		}
		in.name = "path: " + d.name
		bad.Path, good.Path = true, true
		bad.Leaf = d.leaf
		bad.Evil.LeafSigner, bad.Evil.LeafGroup, bad.Evil.LeafIdx = d.signer, d.group, d.idx
		bad.Evil.LeafPost = func(l *ref.Leaf) {
			if d.label != "" {
				l.Sig = w.S.Sign(w.G.Sig[by], d.label, l.TBS(w.GID, by))
			}
			if d.post != nil {
				d.post(l)
			}
		}
		if d.signer == nil && d.label == "" && c.Chance("rotate", 3) {
			// rotation: the old key must not be good enough
			_, bad.NewSigPriv = w.S.GenSig()
			if c.Bool("signed with the old key") {
				bad.Evil.LeafSigner = w.G.Sig[by]
			}
		}
	case 3: // two leaves of the same commit that cannot both be members
		p, q := w.newRef(), w.newRef()
		if c.Bool("two adds") || len(upd) == 0 {
			in.name = "two adds with the same encryption key"
			x := q.KP.Clone()
			x.Leaf.EncKey = p.KP.Leaf.EncKey
			x.Leaf.SignWith(w.S, q.Sig, nil, 0)
			x.SignWith(w.S, q.Sig)
			bad.Items = append(bad.Items, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: p.KP}, Sender: by, SigPriv: p.Sig}),
				send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: x}, Sender: by, SigPriv: q.Sig}))
			good.Items = append(good.Items, Invitee{Ref: p}.item(by), Invitee{Ref: q}.item(by))
			good.Invitees = append(good.Invitees, Invitee{Ref: p}, Invitee{Ref: q})
			break
		}
		l := upd[c.Int("updater", 0, len(upd)-1)]
		leaf, sig := w.updateLeaf(l)
		x := leaf.Clone()
		if c.Bool("signature key") {
			in.name = "update and add with the same signature key"
			x.SigKey = p.KP.Leaf.SigKey
			x.SignWith(w.S, p.Sig, w.GID, l)
		} else {
			in.name = "update and add with the same encryption key"
			x.EncKey = p.KP.Leaf.EncKey
			x.SignWith(w.S, sig, w.GID, l)
		}
		bad.Items = append(bad.Items, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: x}, Sender: l, SigPriv: sig}),
			send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: p.KP}, Sender: by, SigPriv: p.Sig}))
		bad.Path, good.Path = true, true
		good.Items = append(good.Items, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, Sender: l, SigPriv: sig}), Invitee{Ref: p}.item(by))
		good.Invitees = append(good.Invitees, Invitee{Ref: p})
	case 4: // a new member that does not support a credential of the same commit
		p := w.newRef()
		x := p.KP.Clone()
		x.Leaf.Cred = ref.Credential{Type: ref.CredBasic, Identity: ref.Rand(8)}
		x.Leaf.Creds = slices.DeleteFunc(slices.Clone(x.Leaf.Creds), func(t uint16) bool { return t == ref.CredX509 })
		x.Leaf.SignWith(w.S, p.Sig, nil, 0)
		x.SignWith(w.S, p.Sig)
		x509 := func(l *ref.Leaf) { l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{ref.Rand(20)}} }
		inv := Invitee{Ref: p}
		good.Items = append(good.Items, inv.item(by))
		good.Invitees = append(good.Invitees, inv)
		bad.Items = slices.Insert(bad.Items, c.Int("insert at", 0, len(bad.Items)), send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: x}, Sender: by, SigPriv: p.Sig}))
		switch c.weighted("credential", 3, wu, 3) {
		case 0:
			in.name = "credential of the path leaf not supported by a new member"
			bad.Path, bad.Leaf = true, x509
		case 1:
			in.name = "credential of an update not supported by a new member"
			l := upd[c.Int("updater", 0, len(upd)-1)]
			leaf, sig := w.updateLeaf(l)
			x509(leaf)
			leaf.SignWith(w.S, sig, w.GID, l)
			bad.Items = append(bad.Items, send(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, Sender: l, SigPriv: sig}))
			bad.Path = true
		case 2:
			in.name = "credential of an add not supported by a new member"
			q := w.newRef()
			x509(&q.KP.Leaf)
			q.sign(w.S)
			bad.Items = slices.Insert(bad.Items, c.Int("insert at", 0, len(bad.Items)), send(ref.Item{Prop: &ref.Proposal{Type: ref.PropAdd, Add: q.KP}, Sender: by, SigPriv: q.Sig}))
		}
	}
	return in
}

func TestC10Intruders(t *testing.T) {
	run(t, 1, "a commit with an invalid leaf was refused by every go member, and the same commit with a valid leaf accepted", func(c *Case) {
		w := c.mixed(3, 14)
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			o := w.keepAll()
			if c.Bool("nobody leaves") {
				o.MaxRemove = 0
			}
			base := w.genCommit(o)
			if c.Bool("simple") {
				base = &Plan{By: base.By}
			}
			var good *Plan
			for k := c.Int("intruders", 2, 12); k > 0; k-- {
				in := w.intruder(base)
				raw := w.G.Commit(in.bad).Raw
				w.op("%s: %s", base, in.name)
				c.class("%s", in.name)
				w.refuseAll("a commit with an invalid leaf: "+in.name, raw)
				good = in.good
			}
			w.allInSync()
			w.op("valid: %s", good)
			if needsPath(good.Items) {
				good.Path = true
			}
			w.execute(good)
			c.nontrivial()
		}
	})
}

// TestC10Return: the same keys are fine once their owner has left.
func TestC10Return(t *testing.T) {
	run(t, 0.5, "a client came back with the signature key of a member that left before or in the same commit", func(c *Case) {
		w := c.mixed(3, 14)
		refs := w.refLeaves()
		by := refs[c.Int("committer", 0, len(refs)-1)]
		var cand []uint32
		for _, l := range w.members() {
			if l != by && (w.Go[l] == nil || len(w.Go) > 1) {
				cand = append(cand, l)
			}
		}
		gone := cand[c.Int("gone", 0, len(cand)-1)]
		sig, leaf := w.G.Sig[gone], w.G.Tree.Leaf(gone)
		p := w.newRef()
		p.KP.Leaf.SigKey, p.Sig = leaf.SigKey, sig
		p.sign(w.S)
		inv := Invitee{Ref: p}
		rm := ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: gone}, Sender: by}
		if c.Bool("remove by reference") {
			rm = w.propose(by, rm.Prop, nil)
		}
		if c.Bool("same commit") {
			items := []ref.Item{rm, inv.item(by)}
			if c.Bool("order") {
				slices.Reverse(items)
			}
			c.class("same commit")
			w.execute(&Plan{By: by, Items: items, Path: true, Invitees: []Invitee{inv}})
		} else {
			w.execute(&Plan{By: by, Items: []ref.Item{rm}, Path: true})
			if c.Bool("in between") {
				w.execute(w.genCommit(w.keepAll()))
			}
			if by = w.refLeaves()[0]; c.Bool("invited by go") {
				w.goInvite(w.goLeaves()[0], []Invitee{inv})
			} else {
				w.execute(&Plan{By: by, Items: []ref.Item{inv.item(by)}, Path: c.Bool("path"), Invitees: []Invitee{inv}})
			}
			c.class("later commit")
		}
		c.nontrivial()
		w.closing()
	})
}

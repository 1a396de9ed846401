package props

import (
	"fmt"
	"slices"
	"testing"

	ref "mlsref"
)

// breach is a commit that breaks one rule but is consistent otherwise.
type breach struct {
	name  string
	items []ref.Item // the complete proposal list
	path  bool
	o     func(o *ref.CommitOpts)
	skip  []uint32 // go members that cannot notice it
}

// sendProposal delivers a proposal to the go members and returns it as an item.
func (w *World) sendProposal(by uint32, p *ref.Proposal, sig []byte) ref.Item {
	it, raw := w.makeProposal(by, p, sig)
	w.deliver("proposal", raw)
	return it
}

// listBreach draws a commit whose proposal list is not allowed. base is a
// valid commit that it is derived from.
func (w *World) listBreach(base *Plan) *breach {
	c := w.Case
	by := base.By
	b := &breach{items: slices.Clone(base.Items), path: true}
	touched := map[uint32]bool{by: true}
	for _, it := range base.Items {
		switch it.Prop.Type {
		case ref.PropUpdate:
			touched[it.Sender] = true
		case ref.PropRemove:
			touched[it.Prop.Removed] = true
		}
	}
	// someone else than the committer, preferably not yet concerned
	other := func() uint32 {
		var free, any []uint32
		for _, l := range w.members() {
			if l != by {
				any = append(any, l)
				if !touched[l] {
					free = append(free, l)
				}
			}
		}
		if len(free) == 0 {
			free = any
		}
		return free[c.Int("other", 0, len(free)-1)]
	}
	insert := func(its ...ref.Item) {
		for _, it := range its {
			i := c.Int("insert at", 0, len(b.items))
			b.items = slices.Insert(b.items, i, it)
		}
	}
	remove := func(l uint32) ref.Item {
		p := &ref.Proposal{Type: ref.PropRemove, Removed: l}
		if c.Bool("remove by reference") {
			ms := w.members()
			return w.sendProposal(ms[c.Int("remover", 0, len(ms)-1)], p, nil)
		}
		return ref.Item{Prop: p, Sender: by}
	}
	update := func(l uint32) ref.Item {
		leaf, sig := w.updateLeaf(l)
		return w.sendProposal(l, &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, sig)
	}
	add := func(kp *ref.KeyPackage, sig []byte) ref.Item {
		p := &ref.Proposal{Type: ref.PropAdd, Add: kp}
		if c.Bool("add by reference") {
			ms := w.members()
			return w.sendProposal(ms[c.Int("adder", 0, len(ms)-1)], p, sig)
		}
		return ref.Item{Prop: p, Sender: by, SigPriv: sig}
	}
	// refOther draws a member whose keys are with the reference
	refOther := func() (uint32, bool) {
		var cand []uint32
		for _, l := range w.refLeaves() {
			if l != by && !touched[l] {
				cand = append(cand, l)
			}
		}
		if len(cand) == 0 {
			return 0, false
		}
		return cand[c.Int("ref other", 0, len(cand)-1)], true
	}

	k := c.Int("list breach", 0, 16)
	ro, haveRef := refOther()
	if !haveRef && (k == 1 || k == 2) {
		k = 0
	}
	switch k {
	case 0:
		l := other()
		b.name = "removes a member twice"
		insert(remove(l), remove(l))
	case 1:
		b.name = "updates and removes a member"
		insert(update(ro), remove(ro))
	case 2:
		b.name = "two updates of a member"
		insert(update(ro), update(ro))
	case 3:
		b.name = "removes the committer"
		insert(remove(by))
		b.path = c.Bool("with path")
	case 4:
		b.name = "update by the committer"
		if c.Bool("inline") {
			leaf, sig := w.updateLeaf(by)
			insert(ref.Item{Prop: &ref.Proposal{Type: ref.PropUpdate, Update: leaf}, Sender: by, SigPriv: sig})
		} else {
			insert(update(by))
		}
	case 5:
		var blank []uint32
		for i, l := range w.G.Tree.Lf {
			if l == nil {
				blank = append(blank, uint32(i))
			}
		}
		n := uint32(len(w.G.Tree.Lf))
		cand := append(blank, n, n+1, 2*n, 1<<31-1, 1<<31, 1<<31+by, 1<<31+other(), 1<<32-1)
		l := cand[c.Int("absent", 0, len(cand)-1)]
		b.name = "removes an absent member"
		it := remove(l)
		if l >= 1<<31 && c.Bool("as the member") {
			// consistent for somebody who confuses the index with a member's
			real := l - 1<<31
			if w.G.Tree.Leaf(real) != nil && real != by {
				b.o = func(o *ref.CommitOpts) {
					o.Evil.Tree = func(t *ref.Tree) {
						if int(real) < len(t.Lf) {
							t.Remove(real)
						}
					}
				}
			}
		}
		insert(it)
	case 6:
		p := w.plainRef()
		b.name = "adds the same key package twice"
		insert(add(p.KP, p.Sig), add(p.KP, p.Sig))
	case 7:
		p := w.plainRef()
		q := w.plainRef()
		q.KP.Leaf.SigKey, q.Sig = p.KP.Leaf.SigKey, p.Sig
		q.sign(w.S)
		b.name = "adds two clients with the same signature key"
		insert(add(p.KP, p.Sig), add(q.KP, q.Sig))
	case 8:
		b.name = "reference to a proposal that was never received"
		p := w.plainRef()
		it, _ := w.makeProposal(other(), &ref.Proposal{Type: ref.PropAdd, Add: p.KP}, p.Sig)
		switch c.Int("unknown", 0, 2) {
		case 0:
			it.Ref = ref.Rand(w.S.Nh)
		case 1:
			it = w.sendProposal(it.Sender, it.Prop, it.SigPriv)
			it.Ref = slices.Clone(it.Ref[:len(it.Ref)-1])
		}
		insert(it)
		b.path = c.Bool("with path")
	case 9:
		b.path = false
		switch {
		case c.Bool("empty"):
			b.items, b.name = nil, "empty commit without path"
		case haveRef && c.Bool("update"):
			insert(update(ro))
			b.name = "update without path"
		case c.Bool("extensions"):
			b.items = slices.DeleteFunc(b.items, func(it ref.Item) bool {
				return it.Prop.Type == ref.PropGCE || it.Prop.Type == ref.PropRemove || it.Prop.Type == ref.PropUpdate
			})
			insert(ref.Item{Prop: &ref.Proposal{Type: ref.PropGCE, Exts: w.groupExts()}, Sender: by})
			b.name = "group context extensions without path"
		default:
			insert(remove(other()))
			b.name = "remove without path"
		}
	case 10:
		b.name = "external init in a member's commit"
		kem, _ := w.S.GenKEM()
		insert(ref.Item{Prop: &ref.Proposal{Type: ref.PropExternalInit, KemOutput: kem}, Sender: by})
	case 11:
		b.name = "re-init together with other proposals"
		ri := ref.Item{Prop: &ref.Proposal{Type: ref.PropReInit, GroupID: ref.Rand(8), Version: ref.MLS10, Suite: w.S.ID}, Sender: by}
		if len(b.items) == 0 {
			p := w.plainRef()
			insert(add(p.KP, p.Sig))
		}
		insert(ri)
	case 12:
		b.name = "two group context extensions proposals"
		gce := func() ref.Item {
			return ref.Item{Prop: &ref.Proposal{Type: ref.PropGCE, Exts: slices.Clone(w.G.Ctx.Exts)}, Sender: by}
		}
		insert(gce(), gce())
	case 13:
		b.name = "the same pre-shared key twice"
		psk := &ref.PSKID{Type: 1, ID: ref.Rand(4), Nonce: ref.Rand(w.S.Nh)}
		insert(ref.Item{Prop: &ref.Proposal{Type: ref.PropPSK, PSK: psk}, Sender: by}, ref.Item{Prop: &ref.Proposal{Type: ref.PropPSK, PSK: psk}, Sender: by})
	case 14:
		b.name = "a pre-shared key that nobody has"
		psk := &ref.PSKID{Type: uint8(c.Int("psk type", 1, 2)), ID: ref.Rand(4), Usage: 1, GroupID: w.GID, Epoch: w.G.Ctx.Epoch, Nonce: ref.Rand(w.S.Nh)}
		it := ref.Item{Prop: &ref.Proposal{Type: ref.PropPSK, PSK: psk}, Sender: by}
		if c.Bool("by reference") {
			it = w.sendProposal(other(), it.Prop, nil)
		}
		insert(it)
	case 15, 16:
		exts := []ref.Ext{required([]uint16{0xf0a1}, nil, nil)}
		b.name = "group context extensions that demand what members lack"
		if k == 15 {
			b.name = "group context extensions that do not take effect"
			exts = []ref.Ext{required(nil, nil, []uint16{ref.CredBasic, ref.CredBasic})}
			b.o = func(o *ref.CommitOpts) { o.Evil.KeepExts = true }
		} else {
			switch c.Int("demand", 0, 3) {
			case 0:
				exts = []ref.Ext{required(nil, []uint16{0xf0b1}, nil)}
			case 1:
				exts = []ref.Ext{required(nil, nil, []uint16{ref.CredBasic, ref.CredX509})}
				if w.Certs {
					exts = []ref.Ext{required(nil, nil, []uint16{ref.CredBasic, ref.CredX509, 0xf0c1})}
				}
			case 2:
				exts[0].Data = append(exts[0].Data, 0)
			}
		}
		b.items = slices.DeleteFunc(b.items, func(it ref.Item) bool { return it.Prop.Type == ref.PropGCE })
		it := ref.Item{Prop: &ref.Proposal{Type: ref.PropGCE, Exts: exts}, Sender: by}
		if c.Bool("by reference") {
			it = w.sendProposal(other(), it.Prop, nil)
		}
		insert(it)
	}
	return b
}

// pathIndex returns, for a commit that leads to the given tree, which node of
// the committer's path is the one that a member decrypts.
func pathIndex(t *ref.Tree, by, member uint32) int {
	for i, p := range t.FilteredPath(int(by)) {
		if p.Above(int(member)) {
			return i
		}
	}
	return -1
}

// pathBreach draws a commit whose update path is not allowed.
func (w *World) pathBreach(base *Plan) *breach {
	c := w.Case
	by := base.By
	b := &breach{items: slices.Clone(base.Items), path: true}
	t := w.G.Tree.Clone()
	added := t.Apply(base.Items)
	n := len(t.FilteredPath(int(by)))
	// skipBelow excludes go members who only look at nodes above node i.
	skipAbove := func(i int) {
		for _, l := range w.goLeaves() {
			if pathIndex(t, by, l) > i {
				b.skip = append(b.skip, l)
			}
		}
	}
	evil := func(f func(e *ref.Evil)) { b.o = func(o *ref.CommitOpts) { f(&o.Evil) } }
	leaf := func(f func(l *ref.Leaf)) { b.o = func(o *ref.CommitOpts) { o.Leaf = f } }
	node := func(label string) int { return c.Int(label, 0, n-1) }
	otherLeaf := func() *ref.Leaf {
		ms := t.Members()
		for {
			if l := ms[c.Int("key of", 0, len(ms)-1)]; l != by {
				return t.Lf[l]
			}
		}
	}
	var parents []ref.Pos
	for p := range t.Par {
		parents = append(parents, p)
	}
	slices.SortFunc(parents, func(a, b ref.Pos) int { return a.Index() - b.Index() })

	switch c.Int("path breach", 0, 18) {
	case 0:
		b.name = "path too short"
		k := c.Int("missing", 1, n)
		evil(func(e *ref.Evil) { e.DropNodes = k })
	case 1:
		b.name = "path too long"
		k := c.Int("extra", 1, 3)
		evil(func(e *ref.Evil) { e.ExtraNodes = k })
	case 2:
		i := node("node")
		b.name = "ciphertext missing in the path"
		evil(func(e *ref.Evil) {
			e.Path = func(p *ref.UpdatePath) {
				if k := len(p.Nodes[i].Cts); k > 0 {
					p.Nodes[i].Cts = p.Nodes[i].Cts[:k-1]
				} else {
					p.Nodes[i].Cts = append(p.Nodes[i].Cts, ref.HPKECt{Kem: ref.Rand(32), Ct: ref.Rand(48)})
				}
			}
		})
		for _, l := range w.goLeaves() {
			if pathIndex(t, by, l) != i {
				b.skip = append(b.skip, l)
			}
		}
	case 3:
		i := node("node")
		b.name = "ciphertext too many in the path"
		evil(func(e *ref.Evil) {
			e.Path = func(p *ref.UpdatePath) {
				p.Nodes[i].Cts = append(p.Nodes[i].Cts, ref.HPKECt{Kem: ref.Rand(32), Ct: ref.Rand(48)})
			}
		})
		for _, l := range w.goLeaves() {
			if pathIndex(t, by, l) != i {
				b.skip = append(b.skip, l)
			}
		}
	case 4:
		b.name = "path leaf keeps the encryption key"
		old := w.G.Tree.Leaf(by).EncKey
		leaf(func(l *ref.Leaf) { l.EncKey = old })
	case 5:
		b.name = "path leaf has the encryption key of another member"
		k := otherLeaf().EncKey
		leaf(func(l *ref.Leaf) { l.EncKey = k })
	case 6:
		i := node("node")
		b.name = "path node has the encryption key of a member"
		k := otherLeaf().EncKey
		if c.Bool("own") {
			k = w.G.Tree.Leaf(by).EncKey
		}
		evil(func(e *ref.Evil) {
			e.PubKey = func(j int, pub []byte) []byte {
				if j == i {
					return k
				}
				return pub
			}
		})
		b.name += fmt.Sprint(" at ", i > 0)
	case 7, 8:
		if n < 2 {
			return w.pathBreach(base)
		}
		// the same secret, and thus the same key, for two nodes
		i := c.Int("node", 1, n-1)
		b.name = "the same key twice in the path"
		var prev []byte
		evil(func(e *ref.Evil) {
			e.PubKey = func(j int, pub []byte) []byte {
				if j == i {
					return prev
				}
				prev = pub
				return pub
			}
		})
		b.name += " published"
	case 9, 10:
		if len(parents) == 0 {
			return w.pathBreach(base)
		}
		b.name = "path node has the key of an existing parent node"
		k := t.Par[parents[c.Int("parent", 0, len(parents)-1)]].EncKey
		i := node("node")
		evil(func(e *ref.Evil) {
			e.PubKey = func(j int, pub []byte) []byte {
				if j == i {
					return k
				}
				return pub
			}
		})
	case 11:
		b.name = "path leaf has the key of an existing parent node"
		if len(parents) == 0 {
			return w.pathBreach(base)
		}
		k := t.Par[parents[c.Int("parent", 0, len(parents)-1)]].EncKey
		leaf(func(l *ref.Leaf) { l.EncKey = k })
	case 18:
		i := node("node")
		b.name = "path leaf has the key of a node of the path"
		var k []byte
		b.o = func(o *ref.CommitOpts) {
			o.Evil.PubKey = func(j int, pub []byte) []byte {
				if j == i {
					k = pub
				}
				return pub
			}
			o.Leaf = func(l *ref.Leaf) { l.EncKey = k }
		}
	case 12:
		i := node("node")
		b.name = "encrypted path secret does not match the published keys"
		evil(func(e *ref.Evil) {
			e.Secrets = func(j int, s []byte) []byte {
				if j == i {
					return flip(c, s)
				}
				return s
			}
		})
		for _, l := range w.goLeaves() {
			if pathIndex(t, by, l) != i {
				b.skip = append(b.skip, l)
			}
		}
	case 13:
		i := node("node")
		b.name = "published key does not match the path secret"
		k, _ := w.S.GenKEM()
		evil(func(e *ref.Evil) {
			e.PubKey = func(j int, pub []byte) []byte {
				if j == i {
					return k
				}
				return pub
			}
		})
		skipAbove(i)
	case 14:
		b.name = "path leaf is not of source commit"
		src := pick(c, "source", uint8(ref.SourceKeyPackage), ref.SourceUpdate)
		old := w.G.Tree.Leaf(by)
		leaf(func(l *ref.Leaf) {
			l.Source = src
			l.NotBefore, l.NotAfter = old.NotBefore, old.NotAfter
			if src == ref.SourceKeyPackage && old.Source != src {
				p := w.plainRef().KP.Leaf
				l.NotBefore, l.NotAfter = p.NotBefore, p.NotAfter
			}
			l.ParentHash = nil
		})
	case 15:
		b.name = "wrong parent hash in the path leaf"
		evil(func(e *ref.Evil) {
			e.LeafParent = func(h []byte) []byte {
				_, x := mangle(c, h)
				return x
			}
		})
	case 16:
		b.name = "ciphertexts in the wrong order"
		var cand []int
		for i, p := range t.FilteredPath(int(by)) {
			sib := p.Left()
			if sib.Above(int(by)) {
				sib = p.Right()
			}
			k := 0
			for _, r := range t.Resolve(sib) {
				if r.L != 0 || !slices.Contains(added, uint32(r.P)) {
					k++
				}
			}
			if k >= 2 {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return w.pathBreach(base)
		}
		i := cand[c.Int("node", 0, len(cand)-1)]
		evil(func(e *ref.Evil) {
			e.Path = func(p *ref.UpdatePath) {
				x := p.Nodes[i].Cts
				p.Nodes[i].Cts = append(slices.Clone(x[1:]), x[0])
			}
		})
		for _, l := range w.goLeaves() {
			if pathIndex(t, by, l) != i {
				b.skip = append(b.skip, l)
			}
		}
	case 17:
		if len(added) == 0 {
			return w.pathBreach(base)
		}
		b.name = "path secrets also encrypted to the new members"
		evil(func(e *ref.Evil) { e.EncryptNew = true })
		for _, l := range w.goLeaves() {
			p := t.FilteredPath(int(by))[pathIndex(t, by, l)]
			sib := p.Left()
			if sib.Above(int(by)) {
				sib = p.Right()
			}
			if !slices.ContainsFunc(t.Resolve(sib), func(r ref.Pos) bool { return r.L == 0 && slices.Contains(added, uint32(r.P)) }) {
				b.skip = append(b.skip, l)
			}
		}
	}
	return b
}

// commitBreach makes the offending commit.
func (w *World) commitBreach(b *breach, by uint32) []byte {
	o := &ref.CommitOpts{By: by, Items: b.items, Path: b.path, Wire: w.wire(), AAD: w.aad(), Frame: w.frame()}
	if b.o != nil {
		b.o(o)
	}
	return w.G.Commit(o).Raw
}

// grow makes sure that the group has members enough for a path.
func (w *World) keepAll() GenOpts {
	return GenOpts{MaxAdd: 2, MaxRemove: 1, GoBias: 0, MaxLeaves: 40, KeepGo: len(w.Go), KeepRef: 2}
}

func TestC09Lists(t *testing.T) { c09(t, (*World).listBreach) }
func TestC09Paths(t *testing.T) { c09(t, (*World).pathBreach) }

func c09(t *testing.T, draw func(w *World, base *Plan) *breach) {
	run(t, 1, "a commit with a forbidden proposal list or path was refused and the commit without the breach accepted", func(c *Case) {
		w := c.mixed(3, 14)
		for n := c.Int("rounds", 1, 3); n > 0; n-- {
			base := w.genCommit(w.keepAll())
			refused := 0
			for k := c.Int("breaches", 2, 10); k > 0; k-- {
				b := draw(w, base)
				raw := w.commitBreach(b, base.By)
				w.op("%s: %s", base, b.name)
				for _, l := range w.goLeaves() {
					if !slices.Contains(b.skip, l) {
						w.refuse(w.Go[l], "a commit that breaks the rules: "+b.name, raw)
						refused++
						c.class("%s", b.name)
					}
				}
			}
			w.allInSync()
			w.op("honest: %s", base)
			w.execute(base)
			if refused > 0 {
				c.nontrivial()
			}
		}
	})
}

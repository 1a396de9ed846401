package mls

import (
	"bytes"
	"slices"

	ref "mlsref"
)

// vfTwin is the library's tree next to the reference's.
type vfTwin struct {
	*vfCase
	s    *ref.Suite
	cs   CipherSuite
	t    *ref.Tree
	tree ratchetTree

	grown, cut, merged, unmerged bool
}

// member makes a leaf with few requirements: nothing here looks at signatures.
func (c *vfCase) member() *ref.Leaf {
	l := &ref.Leaf{EncKey: c.payload(32), SigKey: c.payload(32), Sig: c.payload(8), Versions: []uint16{1}, Suites: []uint16{1}, Creds: []uint16{1}}
	l.Cred = ref.Credential{Type: ref.CredBasic, Identity: c.payload(c.rnd.IntN(70))}
	l.Source = ref.SourceKeyPackage
	l.NotBefore, l.NotAfter = c.rnd.Uint64(), c.rnd.Uint64()
	if c.rnd.IntN(8) == 0 {
		l.Extensions = []ref.Ext{{Type: 0xf000, Data: c.payload(c.rnd.IntN(100))}}
	}
	return l
}

func vfLoadLeaf(c *vfCase, l *ref.Leaf) *leafNode {
	var n leafNode
	c.must(unmarshal(ref.Bytes(l), &n), "unmarshal(leafNode)")
	return &n
}

func vfLoadTree(c *vfCase, t *ref.Tree) ratchetTree {
	var tree ratchetTree
	c.must(unmarshal(ref.Bytes(t), &tree), "unmarshal(ratchetTree)")
	return tree
}

func vfNewTwin(c *vfCase) *vfTwin {
	id := vfPick(c, "suite", uint16(1), 2, 7, 5)
	w := &vfTwin{vfCase: c, s: ref.GetSuite(id), cs: CipherSuite(id), t: ref.NewTree()}
	w.t.Lf[0] = c.member()
	w.tree = vfLoadTree(c, w.t)
	c.op("suite %d", id)
	return w
}

// path makes an update path of a leaf and merges it into a copy of the tree.
func (w *vfTwin) path(by uint32) (*ref.Tree, *ref.UpdatePath) {
	t := w.t.Clone()
	for _, p := range t.DirectPath(int(by)) {
		delete(t.Par, p)
	}
	fp := t.FilteredPath(int(by))
	up := &ref.UpdatePath{}
	for _, p := range fp {
		key := w.payload(32)
		t.Par[p] = &ref.Parent{EncKey: key}
		up.Nodes = append(up.Nodes, ref.PathNode{EncKey: key})
	}
	ph := []byte{}
	for i := len(fp) - 1; i >= 0; i-- {
		sib := fp[i].Left()
		if sib.Above(int(by)) {
			sib = fp[i].Right()
		}
		t.Par[fp[i]].ParentHash = ph
		ph = t.ParentHashOf(w.s, fp[i], sib)
	}
	l := w.member()
	l.Source, l.ParentHash, l.NotBefore, l.NotAfter = ref.SourceCommit, ph, 0, 0
	up.Leaf = *l
	t.Lf[by] = l
	return t, up
}

// step applies one operation to both trees.
func (w *vfTwin) step(limit int) {
	c, ms := w.vfCase, w.t.Members()
	before := w.t.D
	k := c.weighted("operation", 4, 1, 2, 4)
	who := ms[c.Int("leaf", 0, len(ms)-1)]
	if len(ms) >= limit && k == 0 || len(ms) == 1 && k == 2 {
		k = 3
	}
	switch k {
	case 0:
		l := c.member()
		want := w.t.Add(l)
		c.op("add at %d", want)
		if got := w.tree.add(vfLoadLeaf(c, l)); got != leafIndex(want) {
			c.Fatalf("add() = %d, want %d", got, want)
		}
	case 1:
		l := c.member()
		l.Source, l.NotBefore, l.NotAfter = ref.SourceUpdate, 0, 0
		c.op("update %d", who)
		w.t.Update(who, l)
		w.tree.update(leafIndex(who), vfLoadLeaf(c, l))
	case 2:
		if c.Chance("last", 3) {
			who = ms[len(ms)-1]
		}
		c.op("remove %d", who)
		w.t.Remove(who)
		w.tree.remove(leafIndex(who))
	case 3:
		t, up := w.path(who)
		c.op("path of %d with %d nodes", who, len(up.Nodes))
		if c.Chance("bad path", 4) {
			w.badPath(who, up)
		}
		var p updatePath
		c.must(unmarshal(ref.Bytes(up), &p), "unmarshal(updatePath)")
		c.must(w.tree.mergeUpdatePath(w.cs, leafIndex(who), &p), "mergeUpdatePath")
		w.t = t
		w.merged = w.merged || len(up.Nodes) > 0
	}
	if len(ms) < limit && k == 0 && c.Chance("more", 6) {
		w.join(c.Int("more", 1, limit-len(ms)))
		c.op("%d members", len(w.t.Members()))
	}
	w.grown = w.grown || w.t.D > before
	w.cut = w.cut || w.t.D < before
	for _, n := range w.t.Par {
		w.unmerged = w.unmerged || len(n.Unmerged) > 0
	}
}

// join adds members to both trees.
func (w *vfTwin) join(n int) {
	for ; n > 0; n-- {
		l := w.member()
		w.t.Add(l)
		w.tree.add(vfLoadLeaf(w.vfCase, l))
	}
}

// merge merges a path of a leaf into both trees.
func (w *vfTwin) merge(who uint32) {
	t, up := w.path(who)
	w.op("path of %d with %d nodes", who, len(up.Nodes))
	var p updatePath
	w.must(unmarshal(ref.Bytes(up), &p), "unmarshal(updatePath)")
	w.must(w.tree.mergeUpdatePath(w.cs, leafIndex(who), &p), "mergeUpdatePath")
	w.t = t
	w.merged = w.merged || len(up.Nodes) > 0
}

// filled leads to nodes with many unmerged leaves: most members of the right
// half are removed, one of the others there sends a path, and then many are
// added.
func (w *vfTwin) filled() {
	c := w.vfCase
	c.class("filled")
	half := 4 << c.Int("half", 0, 2)
	w.join(2*half - 1)
	c.op("%d members", 2*half)
	var left []uint32
	for i := uint32(half); i < uint32(2*half); i++ {
		if c.Chance("stays", 6) || i == uint32(half) || i == uint32(2*half-1) {
			left = append(left, i)
			continue
		}
		c.op("remove %d", i)
		w.t.Remove(i)
		w.tree.remove(leafIndex(i))
	}
	for n := c.Int("paths", 1, 3); n > 0; n-- {
		w.merge(left[c.Int("of", 0, len(left)-1)])
	}
	before, after := c.Bool("path before"), c.Bool("path after")
	if before {
		w.merge(uint32(c.Int("of", 0, half-1)))
	}
	n := c.Int("more", half/2, half)
	w.join(n)
	c.op("%d members added", n)
	if after {
		w.merge(uint32(c.Int("of", 0, half-1)))
	}
	if c.Bool("more again") {
		w.join(c.Int("more", 1, half))
	}
}

// badPath checks that a path which does not fit is refused.
func (w *vfTwin) badPath(by uint32, up *ref.UpdatePath) {
	c := w.vfCase
	bad := *up
	bad.Nodes = slices.Clone(up.Nodes)
	what := ""
	k := c.Int("path defect", 0, 3)
	if len(bad.Nodes) == 0 && k != 3 {
		k = 0
	}
	switch k {
	case 0:
		bad.Nodes = append(bad.Nodes, ref.PathNode{EncKey: c.payload(32)})
		what = "one node too many"
	case 1:
		bad.Nodes = slices.Delete(bad.Nodes, 0, 1)
		what = "one node too few"
	case 2:
		i := c.Int("node", 0, len(bad.Nodes)-1)
		bad.Nodes[i].EncKey = vfFlip(c, bad.Nodes[i].EncKey)
		what = "another key"
	case 3:
		bad.Leaf.ParentHash = vfFlip(c, bad.Leaf.ParentHash)
		what = "another parent hash"
	}
	var p updatePath
	c.must(unmarshal(ref.Bytes(&bad), &p), "unmarshal(updatePath)")
	if err := vfLoadTree(c, w.t).mergeUpdatePath(w.cs, leafIndex(by), &p); err == nil {
		c.Fatalf("mergeUpdatePath accepts a path with %s", what)
	}
	c.class("refused: %s", what)
}

func (w *vfTwin) encoded() []byte {
	raw, err := marshal(&w.tree)
	w.must(err, "marshal(ratchetTree)")
	return raw
}

// compare checks everything that the two trees say about themselves.
func (w *vfTwin) compare() {
	c := w.vfCase
	if got, want := w.encoded(), ref.Bytes(w.t); !bytes.Equal(got, want) {
		c.Fatalf("the tree is %x, want %x", got, want)
	}
	h, err := w.tree.computeRootTreeHash(w.cs)
	c.must(err, "computeRootTreeHash")
	if want := w.t.RootHash(w.s); !bytes.Equal(h, want) {
		c.Fatalf("the tree hash is %x, want %x", h, want)
	}
	for i := 0; i < 2*w.t.NumLeaves()-1; i++ {
		w.node(i)
	}
	for i := uint32(0); i < uint32(2*w.t.NumLeaves()); i++ {
		got, want := w.tree.getLeaf(leafIndex(i)), w.t.Leaf(i)
		if (got == nil) != (want == nil) {
			c.Fatalf("getLeaf(%d): present=%v, want %v", i, got != nil, want != nil)
		}
		if got != nil {
			raw, err := marshal(got)
			c.must(err, "marshal(leafNode)")
			if !bytes.Equal(raw, ref.Bytes(want)) {
				c.Fatalf("getLeaf(%d) is another leaf", i)
			}
		}
	}
	if !w.t.VerifyParentHashes(w.s) {
		c.Fatalf("harness: the reference's tree is not valid")
	}
	if !w.tree.verifyParentHashes(w.cs) {
		c.Fatalf("verifyParentHashes() refuses a tree made by valid operations")
	}
	sig, enc := w.tree.keys()
	ms := w.t.Members()
	if len(sig) != len(ms) || len(enc) != len(ms) {
		c.Fatalf("keys(): %d signature and %d encryption keys of %d members", len(sig), len(enc), len(ms))
	}
	c.count("trees")
}

// node compares tree hash and resolution of a node.
func (w *vfTwin) node(i int) {
	p := ref.FromIndex(i)
	res := w.tree.resolve(nodeIndex(i))
	var got []int
	for _, x := range res {
		got = append(got, int(x))
	}
	var want []int
	for _, x := range w.t.Resolve(p) {
		want = append(want, x.Index())
	}
	if !slices.Equal(got, want) {
		w.Fatalf("the resolution of node %d is %v, want %v", i, got, want)
	}
	h, err := w.tree.computeTreeHash(w.cs, nodeIndex(i), nil)
	w.must(err, "computeTreeHash(%d)", i)
	if !bytes.Equal(h, w.t.Hash(w.s, p, nil)) {
		w.Fatalf("the tree hash of node %d is %x, want %x", i, h, w.t.Hash(w.s, p, nil))
	}
	w.count("nodes")
}

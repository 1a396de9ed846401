package mls

import (
	"bytes"
	"slices"
	"testing"

	ref "mlsref"
)

// alter changes one node; the result differs from the tree.
func (w *vfTwin) alter() (string, *ref.Tree) {
	c := w.vfCase
	t := w.t.Clone()
	var par []ref.Pos
	for p := range t.Par {
		par = append(par, p)
	}
	slices.SortFunc(par, func(a, b ref.Pos) int { return a.Index() - b.Index() })
	if len(par) > 0 && c.Int("parent or leaf", 0, 2) > 0 {
		p := par[c.Int("parent", 0, len(par)-1)]
		n := t.Par[p]
		switch c.Int("alteration", 0, 3) {
		case 0:
			n.EncKey = vfFlip(c, n.EncKey)
			return "encryption key of a parent", t
		case 1:
			n.ParentHash = vfFlip(c, n.ParentHash)
			return "parent hash of a parent", t
		case 2:
			if len(n.Unmerged) > 0 {
				k := c.Int("unmerged", 0, len(n.Unmerged)-1)
				n.Unmerged = slices.Delete(n.Unmerged, k, k+1)
				return "unmerged leaf of a parent", t
			}
			fallthrough
		default:
			// a parent that was blanked
			if p.Index() == 2*len(t.Lf)-2 {
				n.EncKey = vfFlip(c, n.EncKey)
				return "encryption key of a parent", t
			}
			delete(t.Par, p)
			return "blanked parent", t
		}
	}
	ms := t.Members()
	i := ms[c.Int("leaf", 0, len(ms)-1)]
	l := t.Lf[i].Clone()
	t.Lf[i] = l
	switch c.Int("alteration", 0, 3) {
	case 0:
		l.EncKey = vfFlip(c, l.EncKey)
		return "encryption key of a leaf", t
	case 1:
		l.Cred.Identity = vfFlip(c, l.Cred.Identity)
		return "credential of a leaf", t
	case 2:
		l.Sig = vfFlip(c, l.Sig)
		return "signature of a leaf", t
	}
	if l.Source != ref.SourceCommit {
		l.SigKey = vfFlip(c, l.SigKey)
		return "signature key of a leaf", t
	}
	l.ParentHash = vfFlip(c, l.ParentHash)
	return "parent hash of a leaf", t
}

func TestVfTree(t *testing.T) {
	vfRun(t, 1, "a path was merged and the tree grew beyond, lost its right half, or has unmerged leaves", func(c *vfCase) {
		w := vfNewTwin(c)
		limit := c.Int("limit", 2, 10)
		if c.Chance("wide", 4) {
			limit = c.Int("limit", 10, 40)
		}
		if c.Chance("filled", 12) {
			w.filled()
		} else {
			w.join(c.Int("first members", 0, limit-1))
		}
		c.op("%d members", len(w.t.Members()))
		w.compare()
		for n := c.Int("operations", 1, 15); n > 0; n-- {
			w.step(limit)
			if w.t.D < 4 || n%4 == 1 {
				w.compare()
			}
		}
		w.compare()
		// what was encoded is the same tree again
		var again ratchetTree
		c.must(unmarshal(w.encoded(), &again), "unmarshal(ratchetTree)")
		w.tree = again
		w.compare()
		for n := c.Int("alterations", 1, 4); n > 0; n-- {
			what, t := w.alter()
			c.op("altered: %s", what)
			c.class("altered: %s", what)
			tree := vfLoadTree(c, t)
			h, err := tree.computeRootTreeHash(w.cs)
			c.must(err, "computeRootTreeHash")
			if !bytes.Equal(h, t.RootHash(w.s)) {
				c.Fatalf("another tree hash than the reference's")
			}
			if bytes.Equal(h, w.t.RootHash(w.s)) {
				c.Fatalf("the tree hash does not depend on the %s", what)
			}
			if got, want := tree.verifyParentHashes(w.cs), t.VerifyParentHashes(w.s); got != want {
				c.Fatalf("%s altered: verifyParentHashes() = %v, want %v", what, got, want)
			} else if !got {
				c.class("not parent-hash valid: %s", what)
			}
		}
		for name, b := range map[string]bool{"grown": w.grown, "truncated": w.cut, "merged": w.merged, "unmerged leaves": w.unmerged} {
			if b {
				c.class("%s", name)
			}
		}
		if w.merged && (w.grown || w.cut || w.unmerged) {
			c.nontrivial()
		}
	})
}

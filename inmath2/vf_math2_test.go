package mls

import "testing"

func (c *vfCase) nodes(what string, depth int, x uint64, got []nodeIndex, want []*vfPlace) {
	ok := len(got) == len(want)
	for i := range got {
		ok = ok && uint64(got[i]) == want[i].at()
	}
	if !ok {
		var w []uint64
		for _, p := range want {
			w = append(w, p.at())
		}
		c.Fatalf("tree of depth %d: %s of %d is %v, want %v", depth, what, x, got, w)
	}
}

// ways checks the paths of a node.
func (c *vfCase) ways(depth int, p *vfPlace) {
	n, x := numLeaves(uint32(1)<<depth), nodeIndex(p.at())
	up := p.ancestors()
	c.nodes("direct path", depth, p.at(), n.directPath(x), up)
	var co []*vfPlace
	for q := p; q.up != nil; q = q.up {
		co = append(co, q.sibling())
	}
	c.nodes("copath", depth, p.at(), n.copath(x), co)
	if int(x.level()) != p.height() {
		c.Fatalf("node %d has level %d, want %d", x, x.level(), p.height())
	}
	leaf := p.lo == p.hi
	if x.isLeaf() != leaf {
		c.Fatalf("node %d: isLeaf() = %v", x, x.isLeaf())
	}
	l, r, ok := x.children()
	if ok == leaf || ok && (uint64(l) != p.child(false).at() || uint64(r) != p.child(true).at()) {
		c.Fatalf("children of node %d are %d, %d, %v", x, l, r, ok)
	}
	c.count("nodes")
}

// meet checks the common ancestor of two nodes.
func (c *vfCase) meet(depth int, p, q *vfPlace) {
	want := p
	for !want.covers(q.at()) {
		want = want.up
	}
	for _, xy := range [][2]nodeIndex{{nodeIndex(p.at()), nodeIndex(q.at())}, {nodeIndex(q.at()), nodeIndex(p.at())}} {
		if got := commonAncestor(xy[0], xy[1]); uint64(got) != want.at() {
			c.Fatalf("tree of depth %d: common ancestor of %d and %d is %d, want %d", depth, xy[0], xy[1], got, want.at())
		}
	}
	c.count("pairs")
}

func TestVfMath2(t *testing.T) {
	vfRun(t, 1, "the paths of a node below the root or the common ancestor of two nodes were compared", func(c *vfCase) {
		if c.Chance("exhaustive", 8) {
			depth := c.Int("small depth", 0, 6)
			c.op("all nodes of a tree of depth %d", depth)
			c.class("exhaustive depth %d", depth)
			vfRoot(depth).everywhere(func(p *vfPlace) {
				c.ways(depth, p)
				vfRoot(depth).everywhere(func(q *vfPlace) { c.meet(depth, p, q) })
			})
			c.nontrivial()
			return
		}
		depth := c.depth()
		for k := c.Int("nodes", 1, 20); k > 0; k-- {
			p, q := c.walk("node", depth), c.walk("other", depth)
			c.op("depth %d nodes %d and %d", depth, p.at(), q.at())
			c.ways(depth, p)
			c.meet(depth, p, q)
			if p.up != nil {
				c.nontrivial()
				c.meet(depth, p, p.sibling())
			}
			// any node below a sibling of the path
			if up := p.ancestors(); len(up) > 0 {
				a := up[c.Int("ancestor", 0, len(up)-1)]
				below := a.child(c.Bool("side"))
				for below.lo < below.hi && c.Int("further", 0, 5) > 0 {
					below = below.child(c.rnd.IntN(2) == 1)
				}
				c.meet(depth, p, below)
			}
			c.class("depth %d", depth)
		}
	})
}

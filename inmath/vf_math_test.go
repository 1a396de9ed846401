package mls

import "testing"

func (c *vfCase) index(what string, depth int, x uint64, got nodeIndex, ok bool, want *vfPlace) {
	if ok != (want != nil) {
		c.Fatalf("tree of depth %d: %s of %d: defined=%v", depth, what, x, ok)
	}
	if ok && uint64(got) != want.at() {
		c.Fatalf("tree of depth %d: %s of %d is %d, want %d", depth, what, x, got, want.at())
	}
}

// relatives checks everything about one node.
func (c *vfCase) relatives(depth int, p *vfPlace) {
	n, x := numLeaves(uint32(1)<<depth), nodeIndex(p.at())
	got, ok := n.parent(x)
	c.index("parent", depth, p.at(), got, ok, p.up)
	got, ok = n.sibling(x)
	if p.up == nil {
		c.index("sibling", depth, p.at(), got, ok, nil)
	} else {
		c.index("sibling", depth, p.at(), got, ok, p.sibling())
	}
	leaf := p.lo == p.hi
	var l, r *vfPlace
	if !leaf {
		l, r = p.child(false), p.child(true)
	}
	got, ok = x.left()
	c.index("left child", depth, p.at(), got, ok, l)
	got, ok = x.right()
	c.index("right child", depth, p.at(), got, ok, r)
	li, ok := x.leafIndex()
	if ok != leaf {
		c.Fatalf("leaf index of node %d: defined=%v", x, ok)
	}
	if leaf {
		if uint64(li) != p.at()/2 {
			c.Fatalf("leaf index of node %d is %d", x, li)
		}
		if li.nodeIndex() != x {
			c.Fatalf("node index of leaf %d is %d, want %d", li, li.nodeIndex(), x)
		}
	}
	c.count("nodes")
}

func TestVfMath(t *testing.T) {
	vfRun(t, 1, "the relatives of a node with a parent and children or siblings were compared", func(c *vfCase) {
		if c.Chance("exhaustive", 8) {
			depth := c.Int("small depth", 0, 10)
			c.op("all nodes of a tree of depth %d", depth)
			c.class("exhaustive depth %d", depth)
			// with the leaves counted from left to right
			next := uint64(0)
			vfRoot(depth).everywhere(func(p *vfPlace) {
				c.relatives(depth, p)
				if p.lo == p.hi {
					if p.at() != 2*next {
						c.Fatalf("harness: leaf %d at %d", next, p.at())
					}
					next++
				}
			})
			c.size(depth)
			c.nontrivial()
			return
		}
		depth := c.depth()
		c.size(depth)
		for k := c.Int("nodes", 1, 20); k > 0; k-- {
			p := c.walk("node", depth)
			c.op("depth %d node %d height %d", depth, p.at(), p.height())
			for q := p; q != nil; q = q.up {
				c.relatives(depth, q)
				if q.up != nil {
					c.relatives(depth, q.sibling())
				}
			}
			if p.up != nil {
				c.nontrivial()
			}
			c.class("depth %d", depth)
		}
	})
}

func (c *vfCase) size(depth int) {
	n := numLeaves(uint32(1) << depth)
	if w := uint64(n.width()); w != vfRoot(depth).hi+1 {
		c.Fatalf("a tree of depth %d has width %d, want %d", depth, w, vfRoot(depth).hi+1)
	}
	if r := uint64(n.root()); r != vfRoot(depth).at() {
		c.Fatalf("the root of a tree of depth %d is %d, want %d", depth, r, vfRoot(depth).at())
	}
}

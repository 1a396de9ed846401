package mls

// vfPlace is a node of an explicit complete binary tree, found by descending
// from the root: the array positions lo..hi belong to its subtree, and it sits
// in the middle.
type vfPlace struct {
	lo, hi uint64
	up     *vfPlace
	right  bool
}

func vfRoot(depth int) *vfPlace { return &vfPlace{lo: 0, hi: 1<<(depth+1) - 2} }

func (p *vfPlace) at() uint64 { return (p.lo + p.hi) / 2 }

func (p *vfPlace) height() (h int) {
	for n := p.hi - p.lo; n > 0; n /= 2 {
		h++
	}
	if h > 0 {
		h-- // 2^(h+1)-1 nodes
	}
	return h
}

func (p *vfPlace) child(right bool) *vfPlace {
	m := p.at()
	if right {
		return &vfPlace{m + 1, p.hi, p, true}
	}
	return &vfPlace{p.lo, m - 1, p, false}
}

func (p *vfPlace) sibling() *vfPlace { return p.up.child(!p.right) }

// ancestors are the nodes above, from below.
func (p *vfPlace) ancestors() (out []*vfPlace) {
	for q := p.up; q != nil; q = q.up {
		out = append(out, q)
	}
	return out
}

func (p *vfPlace) covers(x uint64) bool { return p.lo <= x && x <= p.hi }

// walk draws a node.
func (c *vfCase) walk(label string, depth int) *vfPlace {
	p := vfRoot(depth)
	steps := depth
	if c.Chance(label+" inside", 3) {
		steps = c.Int(label+" steps", 0, depth)
	}
	dirs := c.rnd.Uint64()
	switch c.weighted(label+" way", 4, 1, 1) {
	case 1:
		dirs = 0
	case 2:
		dirs = ^uint64(0)
	}
	if c.Chance(label+" turn", 3) {
		dirs ^= 1 << c.Int(label+" turn at", 0, 31)
	}
	for i := 0; i < steps; i++ {
		p = p.child(dirs>>i&1 == 1)
	}
	return p
}

// everywhere calls f for every node of a subtree.
func (p *vfPlace) everywhere(f func(p *vfPlace)) {
	f(p)
	if p.lo < p.hi {
		p.child(false).everywhere(f)
		p.child(true).everywhere(f)
	}
}

func (c *vfCase) depth() int {
	switch c.weighted("depth kind", 3, 2) {
	case 0:
		return c.Int("depth", 0, 31)
	}
	return 31 - c.Int("depth below the largest", 0, 3)
}

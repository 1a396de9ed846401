package mls

import (
	"slices"
	"testing"
)

func TestVfPaths(t *testing.T) {
	vfRun(t, 1, "the filtered path of a member of a tree with blank nodes is shorter than its direct path", func(c *vfCase) {
		w := vfNewTwin(c)
		limit := c.Int("limit", 2, 30)
		if c.Chance("filled", 20) {
			w.filled()
		} else {
			w.join(c.Int("first members", 0, limit-1))
		}
		for n := c.Int("operations", 1, 25); n > 0; n-- {
			w.step(limit)
			for _, l := range w.t.Members() {
				var got, want []int
				for _, x := range w.tree.filteredDirectPath(leafIndex(l).nodeIndex()) {
					got = append(got, int(x))
				}
				for _, p := range w.t.FilteredPath(int(l)) {
					want = append(want, p.Index())
				}
				if !slices.Equal(got, want) {
					c.Fatalf("the filtered path of leaf %d is %v, want %v", l, got, want)
				}
				if len(want) < w.t.D {
					c.nontrivial()
				}
				c.count("paths")
			}
		}
	})
}

package props

import (
	"bytes"
	"fmt"
	"slices"
	"strings"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// parents lists the non-blank parent nodes of a tree in a fixed order.
func parents(t *ref.Tree) []ref.Pos {
	var out []ref.Pos
	for p := range t.Par {
		out = append(out, p)
	}
	slices.SortFunc(out, func(a, b ref.Pos) int { return a.Index() - b.Index() })
	return out
}

// evilTree draws a change of the tree in a Welcome. Unless said otherwise, the
// tree hash and confirmation tag are made to fit.
func (w *World) evilTree(o *ref.WelcomeOpts, res *ref.Result, me uint32) string {
	c := w.Case
	t := res.G.Tree
	par := parents(t)
	ms := t.Members()
	others := slices.DeleteFunc(slices.Clone(ms), func(l uint32) bool { return l == me })
	wp := 0
	if len(par) > 0 {
		wp = 3
	}
	resign := func(t *ref.Tree, l uint32, f func(x *ref.Leaf)) {
		x := t.Lf[l].Clone()
		f(x)
		if key := res.G.Sig[l]; key != nil {
			x.SignWith(w.S, key, w.GID, l)
		}
		t.Lf[l] = x
	}
	switch c.weighted("tree", 2, 3, 2, 2, 2, wp, 2*wp, wp, wp, wp, 2, 2, 1, 1, 3*wp) {
	case 0:
		o.KeepHash = true
		l := others[c.Int("leaf", 0, len(others)-1)]
		o.Tree = func(t *ref.Tree) {
			resign(t, l, func(x *ref.Leaf) { x.Cred.Identity = append(slices.Clone(x.Cred.Identity), 1) })
		}
		return "tree does not match the tree hash"
	case 1:
		if len(w.members()) < 2 {
			return w.evilTree(o, res, me)
		}
		l := others[c.Int("leaf", 0, len(others)-1)]
		if c.Chance("last", 3) {
			l = others[len(others)-1]
		}
		d := w.leafDefect(viaUpdate, l, 1<<31)
		if t.Lf[l].Source == ref.SourceKeyPackage {
			d = w.leafDefect(viaAdd, 0, 1<<31)
		}
		o.Tree = func(t *ref.Tree) {
			x := t.Lf[l].Clone()
			w.spoilLeaf(x, d, res.G.Sig[l], w.GID, l)
			t.Lf[l] = x
		}
		return "invalid leaf: " + d.name
	case 2:
		a := others[c.Int("from", 0, len(others)-1)]
		b := others[c.Int("to", 0, len(others)-1)]
		what := c.Int("copied", 0, 2)
		if a == b {
			return w.evilTree(o, res, me)
		}
		o.Tree = func(t *ref.Tree) {
			switch what {
			case 0:
				resign(t, b, func(x *ref.Leaf) { x.EncKey = t.Lf[a].EncKey })
			case 1:
				x := t.Lf[b].Clone()
				x.SigKey = t.Lf[a].SigKey
				x.SignWith(w.S, res.G.Sig[a], w.GID, b)
				t.Lf[b] = x
			case 2:
				t.Lf[b] = t.Lf[a]
			}
		}
		return "two leaves share a key"
	case 3:
		o.Tree = func(t *ref.Tree) {
			t.Lf[me] = nil
			for _, p := range t.DirectPath(int(me)) {
				if c.Bool("keep the unmerged entry") {
					continue
				}
				if n := t.Par[p]; n != nil {
					n.Unmerged = slices.DeleteFunc(n.Unmerged, func(u uint32) bool { return u == me })
				}
			}
		}
		return "joiner's leaf is blank"
	case 4:
		// the joiner's key package, signed by the joiner, but another leaf
		o.Tree = func(t *ref.Tree) {
			resign(t, me, func(x *ref.Leaf) {
				switch c.Int("mine", 0, 4) {
				case 0:
					x.Cred.Identity = append(slices.Clone(x.Cred.Identity), 1)
				case 1:
					x.NotAfter--
				case 2:
					x.EncKey, _ = w.S.GenKEM()
				case 3:
					x.Exts = append(slices.Clone(x.Exts), 99)
				case 4:
					x.Source = ref.SourceUpdate
				}
			})
			if c.Bool("signed by somebody else") {
				x := t.Lf[me]
				var k []byte
				x.SigKey, k = w.S.GenSig()
				x.SignWith(w.S, k, w.GID, me)
			}
		}
		return "joiner's leaf differs from its key package"
	case 5:
		p := par[c.Int("parent", 0, len(par)-1)]
		o.Tree = func(t *ref.Tree) { t.Par[p].EncKey, _ = w.S.GenKEM() }
		return "parent node with another key"
	case 6:
		p := par[c.Int("parent", 0, len(par)-1)]
		n := uint32(t.NumLeaves())
		k := c.Int("unmerged", 0, 5)
		switch {
		case k == 0 && len(t.Par[p].Unmerged) > 0:
			i := c.Int("which", 0, len(t.Par[p].Unmerged)-1)
			o.Tree = func(t *ref.Tree) { t.Par[p].Unmerged = slices.Delete(t.Par[p].Unmerged, i, i+1) }
			return "unmerged leaf left out"
		case k == 1:
			u := pick(c, "leaf", n, n+1, 2*n, 1<<31-1, 1<<31, 1<<31|me, 1<<32-1)
			o.Tree = func(t *ref.Tree) { t.Par[p].Unmerged = append(t.Par[p].Unmerged, u) }
			return "unmerged leaf outside of the tree"
		case k == 2:
			var cand []uint32
			for i, l := range t.Lf {
				if l == nil && p.Above(i) {
					cand = append(cand, uint32(i))
				}
			}
			if len(cand) > 0 {
				u := cand[c.Int("blank", 0, len(cand)-1)]
				o.Tree = func(t *ref.Tree) {
					for q := (ref.Pos{P: int(u)}); q != p; {
						q = q.Up()
						if t.Par[q] != nil {
							t.Par[q].Unmerged = append(t.Par[q].Unmerged, u)
						}
					}
				}
				return "unmerged leaf is blank"
			}
		case k == 3:
			var cand []uint32
			for _, l := range ms {
				if !p.Above(int(l)) {
					cand = append(cand, l)
				}
			}
			// the nodes above the stranger may tell that it is merged there
			if free := slices.DeleteFunc(slices.Clone(cand), func(l uint32) bool {
				return slices.ContainsFunc(t.DirectPath(int(l)), func(q ref.Pos) bool {
					return t.Par[q] != nil && !slices.Contains(t.Par[q].Unmerged, l)
				})
			}); len(free) > 0 && c.Chance("unmerged stranger", 2) {
				cand = free
			}
			if len(cand) > 0 {
				u := cand[c.Int("stranger", 0, len(cand)-1)]
				o.Tree = func(t *ref.Tree) {
					t.Par[p].Unmerged = append(t.Par[p].Unmerged, u)
					slices.Sort(t.Par[p].Unmerged)
				}
				return "unmerged leaf is not below"
			}
		}
		var cand []uint32
		for _, l := range ms {
			if p.Above(int(l)) && !slices.Contains(t.Par[p].Unmerged, l) {
				cand = append(cand, l)
			}
		}
		if len(cand) == 0 {
			return w.evilTree(o, res, me)
		}
		u := cand[c.Int("merged", 0, len(cand)-1)]
		o.Tree = func(t *ref.Tree) {
			q := ref.Pos{P: int(u)}
			for q != p {
				q = q.Up()
				if t.Par[q] == nil || slices.Contains(t.Par[q].Unmerged, u) || q != p && k == 5 {
					continue
				}
				t.Par[q].Unmerged = append(t.Par[q].Unmerged, u)
				slices.Sort(t.Par[q].Unmerged)
			}
		}
		return "merged leaf listed as unmerged"
	case 7:
		p := par[c.Int("parent", 0, len(par)-1)]
		o.Tree = func(t *ref.Tree) { _, t.Par[p].ParentHash = mangle(c, t.Par[p].ParentHash) }
		return "parent hash of a parent node changed"
	case 8:
		p := par[c.Int("parent", 0, len(par)-1)]
		l := others[c.Int("leaf", 0, len(others)-1)]
		q := par[c.Int("other parent", 0, len(par)-1)]
		o.Tree = func(t *ref.Tree) {
			if p != q {
				t.Par[p].EncKey = t.Par[q].EncKey
			} else {
				t.Par[p].EncKey = t.Lf[l].EncKey
			}
		}
		return "parent node shares a key"
	case 9:
		p := par[c.Int("parent", 0, len(par)-1)]
		o.Tree = func(t *ref.Tree) { delete(t.Par, p) }
		return "parent node blanked"
	case 10:
		l := others[c.Int("leaf", 0, len(others)-1)]
		o.Tree = func(t *ref.Tree) {
			resign(t, l, func(x *ref.Leaf) {
				if x.Source == ref.SourceCommit {
					_, x.ParentHash = mangle(c, x.ParentHash)
				} else {
					x.Cred.Identity = append(slices.Clone(x.Cred.Identity), 1)
				}
			})
		}
		return "leaf replaced by its owner"
	case 11:
		l := others[c.Int("leaf", 0, len(others)-1)]
		if len(others) < 2 || l == o.Signer {
			return w.evilTree(o, res, me)
		}
		o.Tree = func(t *ref.Tree) { t.Lf[l] = nil }
		return "leaf blanked"
	case 12:
		p := w.plainRef()
		o.Tree = func(t *ref.Tree) { t.Add(&p.KP.Leaf) }
		return "leaf added"
	case 13:
		a := others[c.Int("from", 0, len(others)-1)]
		b := others[c.Int("to", 0, len(others)-1)]
		if a == b {
			return w.evilTree(o, res, me)
		}
		o.Tree = func(t *ref.Tree) { t.Lf[a], t.Lf[b] = t.Lf[b], t.Lf[a] }
		return "two leaves exchanged"
	case 14:
		// a leaf that is unmerged at several nodes is only left at some of them
		type at struct {
			leaf uint32
			n    int
		}
		var cand []at
		for _, l := range ms {
			n := 0
			for q, u := (ref.Pos{P: int(l)}), 0; u < t.D; u++ {
				q = q.Up()
				if t.Par[q] != nil && slices.Contains(t.Par[q].Unmerged, l) {
					n++
				}
			}
			if n > 0 {
				cand = append(cand, at{l, n})
			}
		}
		// a leaf becomes unmerged above a node with other unmerged leaves
		type pair struct {
			p ref.Pos
			u uint32
		}
		var odd []pair
		for _, p := range par {
			for _, u := range ms {
				if !p.Above(int(u)) || slices.Contains(t.Par[p].Unmerged, u) {
					continue
				}
				for q := (ref.Pos{P: int(u)}).Up(); q != p; q = q.Up() {
					if n := t.Par[q]; n != nil && len(n.Unmerged) > 0 && !slices.Contains(n.Unmerged, u) {
						odd = append(odd, pair{p, u})
						break
					}
				}
			}
		}
		if len(odd) > 0 && (len(cand) == 0 || c.Bool("above")) {
			x := odd[c.Int("odd", 0, len(odd)-1)]
			o.Tree = func(t *ref.Tree) {
				t.Par[x.p].Unmerged = append(slices.Clone(t.Par[x.p].Unmerged), x.u)
				slices.Sort(t.Par[x.p].Unmerged)
			}
			return "merged leaf listed as unmerged at an upper node"
		}
		if len(cand) == 0 {
			return w.evilTree(o, res, me)
		}
		x := cand[c.Int("unmerged", 0, len(cand)-1)]
		from, to := 0, c.Int("left out", 1, x.n)
		name := "unmerged leaf left out at the lower nodes"
		if c.Bool("upper nodes") {
			from, to = to-1, x.n
			name = "unmerged leaf left out at the upper nodes"
		}
		if from == 0 && to == x.n {
			name = "unmerged leaf left out everywhere"
		}
		o.Tree = func(t *ref.Tree) {
			n := 0
			for _, q := range t.DirectPath(int(x.leaf)) {
				if t.Par[q] == nil || !slices.Contains(t.Par[q].Unmerged, x.leaf) {
					continue
				}
				if from <= n && n < to {
					t.Par[q].Unmerged = slices.DeleteFunc(slices.Clone(t.Par[q].Unmerged), func(u uint32) bool { return u == x.leaf })
				}
				n++
			}
		}
		return name
	}
	panic("unreachable")
}

// unripe leads to a tree with paths of some members and leaves that were added
// later.
func (w *World) unripe() {
	refs := w.refLeaves()
	add := func(n int) {
		pl := &Plan{By: refs[w.Int("committer", 0, len(refs)-1)]}
		for ; n > 0; n-- {
			inv := Invitee{Ref: w.plainRef()}
			pl.Items = append(pl.Items, inv.item(pl.By))
			pl.Invitees = append(pl.Invitees, inv)
		}
		w.execute(pl)
		refs = w.refLeaves()
	}
	if n := w.Int("extra", 0, 8); n > 0 && len(refs) < 16 {
		add(n)
	}
	for k := w.Int("rounds", 1, 3); k > 0; k-- {
		for n := w.Int("paths", 1, 2); n > 0; n-- {
			pl := &Plan{By: refs[w.Int("committer", 0, len(refs)-1)], Path: true}
			for _, l := range refs {
				if l != pl.By && len(refs)-len(pl.Items) > 2 && w.Chance("leaves", 6) {
					pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: pl.By})
				}
			}
			w.execute(pl)
			refs = w.refLeaves()
		}
		if k > 1 || w.Bool("others join") {
			add(w.Int("later", 1, 4))
		}
	}
}

// nodes splits an encoded tree into its encoded optional nodes.
func splitTree(raw []byte) [][]byte {
	t, err := ref.ParseTree(raw)
	if err != nil {
		panic(err)
	}
	var out [][]byte
	for i := 0; i < 2*t.NumLeaves()-1; i++ {
		p := ref.FromIndex(i)
		if t.Blank(p) {
			out = append(out, []byte{0})
			continue
		}
		var x ref.W
		x.U8(1)
		if p.L == 0 {
			x.U8(1)
			t.Lf[p.P].Enc(&x)
		} else {
			x.U8(2)
			t.Par[p].Enc(&x)
		}
		out = append(out, x.B)
	}
	for len(out) > 0 && len(out[len(out)-1]) == 1 {
		out = out[:len(out)-1]
	}
	return out
}

func joinTree(nodes [][]byte) []byte {
	var x ref.W
	x.Vec(bytes.Join(nodes, nil))
	return x.B
}

// evilShape changes the encoded tree.
func (w *World) evilShape(o *ref.WelcomeOpts) string {
	c := w.Case
	nodes := func(f func(n [][]byte) [][]byte) {
		o.RawTree = func(raw []byte) []byte { return joinTree(f(splitTree(raw))) }
	}
	switch c.Int("shape", 0, 8) {
	case 0:
		k := c.Int("blanks", 1, 5)
		nodes(func(n [][]byte) [][]byte {
			for i := 0; i < k; i++ {
				n = append(n, []byte{0})
			}
			return n
		})
		return "tree with trailing blank nodes"
	case 1:
		nodes(func(n [][]byte) [][]byte { return nil })
		return "empty tree"
	case 2:
		nodes(func(n [][]byte) [][]byte {
			if len(n) < 2 {
				return nil
			}
			return n[:c.Int("nodes", 0, len(n)-1)]
		})
		return "tree cut off"
	case 3:
		nodes(func(n [][]byte) [][]byte {
			if len(n) < 3 {
				return nil
			}
			i := 2*c.Int("parent", 0, len(n)/2-1) + 1
			n[i] = n[2*c.Int("leaf", 0, len(n)/2)]
			if len(n[i]) == 1 {
				n[i] = n[len(n)-1]
			}
			return n
		})
		return "leaf at the place of a parent"
	case 4:
		nodes(func(n [][]byte) [][]byte {
			var x ref.W
			x.U8(1)
			x.U8(2)
			(&ref.Parent{EncKey: ref.Rand(32)}).Enc(&x)
			n[2*c.Int("leaf", 0, len(n)/2)] = x.B
			return n
		})
		return "parent at the place of a leaf"
	case 5:
		nodes(func(n [][]byte) [][]byte {
			var x ref.W
			x.U8(1)
			x.U8(2)
			(&ref.Parent{EncKey: ref.Rand(32)}).Enc(&x)
			return append(n, x.B)
		})
		return "parent node at the end"
	case 6:
		o.RawTree = func(raw []byte) []byte { return append(raw, 0) }
		return "bytes after the tree"
	case 7:
		o.RawTree = func(raw []byte) []byte { return raw[:c.Int("bytes", 0, len(raw)-1)] }
		return "encoded tree cut off"
	case 8:
		nodes(func(n [][]byte) [][]byte {
			i := c.Int("node", 0, len(n)-1)
			n[i] = slices.Clone(n[i])
			n[i][0] = byte(c.Int("presence", 2, 255))
			return n
		})
		return "invalid presence octet"
	}
	panic("unreachable")
}

// evilInfo changes GroupInfo, GroupSecrets or the Welcome itself.
func (w *World) evilInfo(o *ref.WelcomeOpts, res *ref.Result, me uint32) string {
	c := w.Case
	ms := res.G.Tree.Members()
	n := uint32(res.G.Tree.NumLeaves())
	someone := func() uint32 { return ms[c.Int("somebody", 0, len(ms)-1)] }
	switch c.Int("info", 0, 21) {
	case 0:
		o.InfoPost = func(gi *ref.GroupInfo) { _, gi.Sig = mangle(c, gi.Sig) }
		return "group info signature mangled"
	case 1:
		_, o.SignKey = w.S.GenSig()
		return "group info signed with an unknown key"
	case 2:
		s := someone()
		o.SignKey = res.G.Sig[s]
		return "group info signed by somebody"
	case 3:
		s := someone()
		o.InfoPost = func(gi *ref.GroupInfo) { gi.Signer = s }
		return "signer changed after signing"
	case 4:
		s := pick(c, "signer", n, n+1, 1<<31, 1<<31|o.Signer, 1<<32-1, 1<<30)
		o.SignKey = res.G.Sig[o.Signer]
		o.InfoTag = func(gi *ref.GroupInfo) { gi.Signer = s }
		return "signer outside of the tree"
	case 5:
		var blank []uint32
		for i, l := range res.G.Tree.Lf {
			if l == nil {
				blank = append(blank, uint32(i))
			}
		}
		if len(blank) == 0 {
			return w.evilInfo(o, res, me)
		}
		s := blank[c.Int("blank", 0, len(blank)-1)]
		o.SignKey = res.G.Sig[o.Signer]
		o.InfoTag = func(gi *ref.GroupInfo) { gi.Signer = s }
		return "signer is a blank leaf"
	case 6:
		o.InfoTag = func(gi *ref.GroupInfo) { _, gi.ConfTag = mangle(c, gi.ConfTag) }
		return "confirmation tag mangled"
	case 7:
		o.InfoTag = func(gi *ref.GroupInfo) { gi.ConfTag = w.G.ConfTag }
		return "confirmation tag of the previous epoch"
	case 8, 9:
		// signed, but not covered by the confirmation tag
		f, name := ctxChange(c)
		o.InfoTag = func(gi *ref.GroupInfo) { f(&gi.Ctx) }
		return name + " changed before signing"
	case 10:
		f, name := ctxChange(c)
		o.InfoPost = func(gi *ref.GroupInfo) { f(&gi.Ctx) }
		return name + " changed after signing"
	case 11:
		o.NoTree = true
		return "no tree"
	case 12:
		id := pick(c, "suite", uint16(1), 2, 3, 7, 4, 5, 6, 8, 0, 0xffff)
		o.InfoTag = func(gi *ref.GroupInfo) { gi.Ctx.Suite = id }
		if c.Bool("tag fits") {
			o.InfoTag = nil
			o.Info = func(gi *ref.GroupInfo) { gi.Ctx.Suite = id }
		}
		return "another suite in the group context"
	case 13:
		id := pick(c, "suite", uint16(1), 2, 3, 7, 4, 5, 6, 8, 0, 0xffff)
		o.Post = func(x *ref.Welcome) { x.Suite = id }
		return "another suite in the Welcome"
	case 14:
		o.InfoRaw = func(raw []byte) []byte {
			if c.Bool("longer") {
				return append(raw, w.payload(c.Int("more", 1, 3))...)
			}
			return raw[:len(raw)-c.Int("less", 1, min(len(raw), 80))]
		}
		return "group info of another length"
	case 15:
		o.SecretRaw = func(i int, raw []byte) []byte {
			if c.Bool("longer") {
				return append(raw, w.payload(c.Int("more", 1, 3))...)
			}
			return raw[:len(raw)-c.Int("less", 1, len(raw))]
		}
		return "group secrets of another length"
	case 16:
		o.Secrets = func(i int, gs *ref.GroupSecrets) {
			if gs.HasPath {
				if c.Bool("none") {
					gs.Path = ref.Rand(w.S.Nh)
				} else {
					_, gs.Path = mangle(c, gs.Path)
				}
			} else {
				gs.HasPath, gs.Path = true, ref.Rand(w.S.Nh)
			}
		}
		return "wrong path secret"
	case 17:
		o.Secrets = func(i int, gs *ref.GroupSecrets) { gs.Joiner = flip(c, gs.Joiner) }
		return "wrong joiner secret"
	case 18:
		o.Secrets = func(i int, gs *ref.GroupSecrets) {
			for k := c.Int("psks", 1, 2); k > 0; k-- {
				gs.PSKs = append(gs.PSKs, ref.PSKID{Type: uint8(c.Int("psk type", 1, 2)), ID: ref.Rand(3), Usage: uint8(c.Int("usage", 1, 3)), GroupID: ref.Rand(3), Nonce: ref.Rand(w.S.Nh)})
			}
		}
		return "pre-shared keys required"
	case 19:
		o.Post = func(x *ref.Welcome) {
			i := c.Int("secret", 0, len(x.Secrets)-1)
			switch c.Int("what", 0, 3) {
			case 0:
				_, x.Secrets[i].Ref = mangle(c, x.Secrets[i].Ref)
			case 1:
				_, x.Secrets[i].Ct.Kem = mangle(c, x.Secrets[i].Ct.Kem)
			case 2:
				_, x.Secrets[i].Ct.Ct = mangle(c, x.Secrets[i].Ct.Ct)
			case 3:
				_, x.EncInfo = mangle(c, x.EncInfo)
			}
		}
		return "Welcome mangled"
	case 20:
		o.EncCtx = func(b []byte) []byte {
			_, b = mangle(c, b)
			return b
		}
		return "group secrets not bound to the group info"
	case 21:
		o.Exts = nil
		o.Info = func(gi *ref.GroupInfo) { _, gi.Ctx.GroupID = mangle(c, gi.Ctx.GroupID) }
		return "another group id"
	}
	panic("unreachable")
}

func ctxChange(c *Case) (func(*ref.Context), string) {
	switch c.Int("context", 0, 5) {
	case 0:
		return func(x *ref.Context) { x.Epoch += uint64(c.Int("epoch", 1, 3)) }, "epoch"
	case 1:
		return func(x *ref.Context) { x.GroupID = flip(c, x.GroupID) }, "group id"
	case 2:
		return func(x *ref.Context) { _, x.TreeHash = mangle(c, x.TreeHash) }, "tree hash"
	case 3:
		return func(x *ref.Context) { _, x.CTH = mangle(c, x.CTH) }, "transcript hash"
	case 4:
		return func(x *ref.Context) { x.Exts = append(slices.Clone(x.Exts), ref.Ext{Type: 0xf0f4}) }, "context extensions"
	default:
		return func(x *ref.Context) { x.Epoch = 0 }, "epoch"
	}
}

// tryJoin lets the library and the reference judge a Welcome.
func (w *World) tryJoin(raw []byte, gm *GoMember) (goErr, refErr error) {
	_, _, _, refErr = ref.Join(raw, gm.KP, gm.KPP.Private.InitKey)
	wel, goErr := mls.UnmarshalWelcome(bytes.Clone(raw))
	if goErr != nil {
		return goErr, refErr
	}
	g, goErr := mls.GroupFromWelcome(wel, gm.KPP)
	if (g == nil) != (goErr != nil) {
		w.Fatalf("GroupFromWelcome returns group %v and error %v", g != nil, goErr)
	}
	return goErr, refErr
}

func (w *World) judge(name string, raw []byte, gm *GoMember) (refused bool) {
	w.op("Welcome with: %s", name)
	goErr, refErr := w.tryJoin(raw, gm)
	switch {
	case goErr == nil && refErr != nil:
		w.Fatalf("a client joins through a Welcome that is not valid: %s (%v)", name, refErr)
	case goErr != nil && refErr == nil:
		w.Fatalf("a client cannot join through a Welcome that is valid in spite of: %s (%v)", name, goErr)
	}
	if refErr != nil {
		w.class("refused: %s", name)
		w.count("refused")
		return true
	}
	w.class("still valid: %s", name)
	return false
}

func TestC11Welcome(t *testing.T) {
	run(t, 1, "an invalid Welcome was refused and the valid one for the same key package accepted", func(c *Case) {
		w := c.world()
		w.startRef()
		if c.Chance("larger", 8) {
			w.large(c.Int("extra", 10, 30), false)
		}
		w.shapes(c.Int("steps", 0, 5), GenOpts{MaxAdd: 4, MaxRemove: 2, MaxLeaves: 16, KeepRef: 2})
		po := GenOpts{MaxAdd: 2, MaxRemove: 1, MaxLeaves: 18, KeepRef: 1}
		pl := (*Plan)(nil)
		if c.Bool("unmerged") {
			w.unripe()
			refs := w.refLeaves()
			pl = &Plan{By: refs[c.Int("committer", 0, len(refs)-1)], Path: c.Chance("path", 6)}
		} else {
			pl = w.genCommit(po)
		}
		gm := w.newGo()
		inv := Invitee{Go: gm}
		i := c.Int("joiner at", 0, len(pl.Items))
		pl.Items = slices.Insert(slices.Clone(pl.Items), i, inv.item(pl.By))
		pl.Invitees = nil
		for _, it := range pl.Items {
			if it.Prop.Type == ref.PropAdd {
				if it.Prop.Add == gm.KP {
					pl.Invitees = append(pl.Invitees, inv)
				} else {
					pl.Invitees = append(pl.Invitees, Invitee{Ref: &RefPkg{KP: it.Prop.Add}})
				}
			}
		}
		w.op("%s", pl)
		co := w.opts(pl)
		res := w.G.Commit(co)
		res.G.Sig = w.allSigs(res, pl)
		var me uint32
		for k, iv := range pl.Invitees {
			if iv.Go == gm {
				me = res.Added[k]
			}
		}
		for n := c.Int("attempts", 2, 12); n > 0; n-- {
			o := &ref.WelcomeOpts{Signer: pl.By}
			var name string
			switch c.Int("level", 0, 3) {
			case 0, 1:
				name = w.evilTree(o, res, me)
			case 2:
				name = w.evilInfo(o, res, me)
			case 3:
				name = w.evilShape(o)
			}
			if w.judge(name, res.Welcome(o), gm) {
				c.nontrivial()
			}
		}
		if pl.Path && c.Chance("upper key", 2) {
			// a key of the path does not follow from the secret that the joiner gets
			x := w.opts(pl)
			at := c.Int("node", 0, len(res.PathSecrets)-1)
			k, _ := w.S.GenKEM()
			x.Evil.PubKey = func(i int, pub []byte) []byte {
				if i == at {
					return k
				}
				return pub
			}
			r := w.G.Commit(x)
			w.judge("published key does not match the path secret", r.Welcome(&ref.WelcomeOpts{Signer: pl.By, NoPath: c.Chance("no path secret", 4)}), gm)
		}
		if id := 4 - w.S.ID; (id == 1 || id == 3) && c.Chance("suite of the joiner", 2) {
			// the suites 1 and 3 have the same kinds of keys
			kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(id), mls.NewBasicCredential(w.payload(5)))
			w.must(err, "GenerateKeyPairPackage")
			x := &GoMember{KPP: kpp, KP: w.parseGoKP(&kpp.Public)}
			r := w.G.Commit(&ref.CommitOpts{By: pl.By, Items: []ref.Item{Invitee{Go: x}.item(pl.By)}, Path: c.Bool("path"), Wire: ref.WirePrivate})
			w.judge("key package of another suite", r.Welcome(&ref.WelcomeOpts{Signer: pl.By}), x)
		}
		// bit flips by outsiders
		raw := res.Welcome(&ref.WelcomeOpts{Signer: pl.By})
		for n := c.Int("flips", 0, 4); n > 0; n-- {
			_, x := mangle(c, raw)
			goErr, refErr := w.tryJoin(x, gm)
			// entries of other clients may be damaged
			if (goErr == nil) != (refErr == nil) {
				c.Fatalf("altered Welcome: library says %v, reference %v", goErr, refErr)
			}
		}
		// somebody else's key package
		other := w.newGo()
		if goErr, _ := w.tryJoin(raw, other); goErr == nil {
			c.Fatalf("a client joins with a Welcome that is not for it")
		}
		w.follow(res, pl)
		w.welcome(res, pl, nil)
		w.closing()
	})
}

// allSigs completes the signing keys of an epoch.
func (w *World) allSigs(res *ref.Result, pl *Plan) map[uint32][]byte {
	for k, iv := range pl.Invitees {
		if iv.Go != nil {
			res.G.Sig[res.Added[k]] = iv.sig()
		}
	}
	return res.G.Sig
}

// TestC11History: the group itself went wrong before the client was invited.
func TestC11History(t *testing.T) {
	run(t, 1, "a Welcome into a group that contains an invalid leaf or node was refused", func(c *Case) {
		w := c.world()
		w.startRef()
		w.execute(&Plan{By: 0, Items: []ref.Item{Invitee{Ref: w.newRef()}.item(0), Invitee{Ref: w.newRef()}.item(0)}, Path: c.Bool("path")})
		w.shapes(c.Int("steps", 0, 3), GenOpts{MaxAdd: 4, MaxRemove: 1, MaxLeaves: 12, KeepRef: 3})
		name := ""
		if c.Chance("demanding group", 4) {
			// something that the joiner may not be capable of
			var l [3][]uint16
			for k := c.Int("demands", 1, 3); k > 0; k-- {
				i := c.Int("kind", 0, 2)
				l[i] = append(l[i], pick(c, "demand", [][]uint16{{0xf0a1, 0xff01}, {0xf0b1, 0x0a0a}, {ref.CredBasic, ref.CredX509, 0xf0c1}}[i]...))
			}
			e := required(l[0], l[1], l[2])
			switch c.weighted("damage", 6, 1, 1) {
			case 1:
				e.Data = e.Data[:c.Int("length", 0, len(e.Data)-1)]
			case 2:
				e.Data = append(e.Data, c.payload(c.Int("more", 1, 4))...)
			}
			w.G.Ctx.Exts = append(slices.DeleteFunc(slices.Clone(w.G.Ctx.Exts), func(x ref.Ext) bool { return x.Type == e.Type }), e)
			name = fmt.Sprintf("required capabilities %v; ", l)
		}
		for n := c.Int("evil commits", 0, 2); n > 0; n-- {
			base := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 1, MaxLeaves: 16, KeepRef: 3})
			var res *ref.Result
			if c.Chance("path breach", 2) {
				b := w.pathBreach(base)
				for twice := c.Bool("key twice"); twice && !strings.Contains(b.name, "key of") && !strings.Contains(b.name, "same key"); {
					b = w.pathBreach(base)
				}
				name += b.name + "; "
				o := &ref.CommitOpts{By: base.By, Items: b.items, Path: b.path, Wire: ref.WirePrivate}
				b.o(o)
				res = w.G.Commit(o)
			} else {
				in := w.intruder(base)
				name += in.name + "; "
				in.bad.Path = in.bad.Path || needsPath(in.bad.Items)
				res = w.G.Commit(in.bad)
			}
			w.op("commit by %d: %s", base.By, name)
			w.G, w.Pend = res.G, nil
		}
		// afterwards the group goes on
		if c.Bool("go on") {
			w.execute(w.genCommit(GenOpts{MaxAdd: 1, MaxRemove: 1, MaxLeaves: 16, KeepRef: 2}))
		}
		refs := w.refLeaves()
		by := refs[c.Int("inviter", 0, len(refs)-1)]
		gm := w.newGo()
		inv := Invitee{Go: gm}
		pl := &Plan{By: by, Items: []ref.Item{inv.item(by)}, Path: c.Chance("path", 3), Invitees: []Invitee{inv}}
		w.op("%s", pl)
		res := w.G.Commit(w.opts(pl))
		if w.judge(fmt.Sprintf("%s", name), res.Welcome(&ref.WelcomeOpts{Signer: by}), gm) {
			c.nontrivial()
		}
	})
}

package mlsref

import (
	"bytes"
	"errors"
	"fmt"
)

// Parent is a ParentNode.
type Parent struct {
	EncKey, ParentHash []byte
	Unmerged           []uint32
}

func (p *Parent) Enc(w *W) {
	w.Vec(p.EncKey)
	w.Vec(p.ParentHash)
	w.Sub(func(w *W) {
		for _, u := range p.Unmerged {
			w.U32(u)
		}
	})
}

func (p *Parent) Dec(r *R) {
	*p = Parent{EncKey: r.Vec(), ParentHash: r.Vec()}
	r.Sub(func(r *R) { p.Unmerged = append(p.Unmerged, r.U32()) })
}

// Pos addresses a node by level (0 = leaves) and position within the level.
type Pos struct{ L, P int }

func (p Pos) Up() Pos             { return Pos{p.L + 1, p.P / 2} }
func (p Pos) Sib() Pos            { return Pos{p.L, p.P ^ 1} }
func (p Pos) Left() Pos           { return Pos{p.L - 1, 2 * p.P} }
func (p Pos) Right() Pos          { return Pos{p.L - 1, 2*p.P + 1} }
func (p Pos) Above(leaf int) bool { return leaf>>p.L == p.P }

// Index returns the node index of the array representation of the RFC.
func (p Pos) Index() int { return p.P<<(p.L+1) + 1<<p.L - 1 }

// FromIndex is the inverse of Index.
func FromIndex(i int) Pos {
	l := 0
	for i>>l&1 == 1 {
		l++
	}
	return Pos{l, i >> (l + 1)}
}

// Tree is a ratchet tree; Leaves and Par are indexed by position.
type Tree struct {
	D   int // depth: 1<<D leaves
	Lf  []*Leaf
	Par map[Pos]*Parent
}

func NewTree() *Tree { return &Tree{Lf: make([]*Leaf, 1), Par: map[Pos]*Parent{}} }

func (t *Tree) NumLeaves() int { return 1 << t.D }
func (t *Tree) Root() Pos      { return Pos{t.D, 0} }

// Clone copies the tree; leaves are shared (and treated as immutable), parents are not.
func (t *Tree) Clone() *Tree {
	n := &Tree{D: t.D, Lf: append([]*Leaf{}, t.Lf...), Par: map[Pos]*Parent{}}
	for k, v := range t.Par {
		p := *v
		p.Unmerged = append([]uint32{}, v.Unmerged...)
		n.Par[k] = &p
	}
	return n
}

// Members lists the indices of non-blank leaves.
func (t *Tree) Members() (out []uint32) {
	for i, l := range t.Lf {
		if l != nil {
			out = append(out, uint32(i))
		}
	}
	return out
}

func (t *Tree) Leaf(i uint32) *Leaf {
	if int64(i) >= int64(len(t.Lf)) {
		return nil
	}
	return t.Lf[i]
}

func (t *Tree) Blank(p Pos) bool {
	if p.L == 0 {
		return t.Lf[p.P] == nil
	}
	return t.Par[p] == nil
}

// Resolve returns the resolution of a node.
func (t *Tree) Resolve(p Pos) []Pos {
	if p.L == 0 {
		if t.Lf[p.P] == nil {
			return nil
		}
		return []Pos{p}
	}
	if n := t.Par[p]; n != nil {
		out := []Pos{p}
		for _, u := range n.Unmerged {
			out = append(out, Pos{0, int(u)})
		}
		return out
	}
	return append(t.Resolve(p.Left()), t.Resolve(p.Right())...)
}

func (t *Tree) DirectPath(leaf int) (out []Pos) {
	p := Pos{0, leaf}
	for p.L < t.D {
		p = p.Up()
		out = append(out, p)
	}
	return out
}

// copathChild returns the child of p that is not above the leaf.
func copathChild(p Pos, leaf int) Pos {
	if p.Left().Above(leaf) {
		return p.Right()
	}
	return p.Left()
}

func (t *Tree) FilteredPath(leaf int) (out []Pos) {
	for _, p := range t.DirectPath(leaf) {
		if len(t.Resolve(copathChild(p, leaf))) > 0 {
			out = append(out, p)
		}
	}
	return out
}

func (t *Tree) Add(l *Leaf) uint32 {
	i := -1
	for j, x := range t.Lf {
		if x == nil {
			i = j
			break
		}
	}
	if i < 0 {
		i = len(t.Lf)
		t.D++
		t.Lf = append(t.Lf, make([]*Leaf, len(t.Lf))...)
	}
	t.Lf[i] = l
	for _, p := range t.DirectPath(i) {
		if n := t.Par[p]; n != nil {
			n.Unmerged = append(n.Unmerged, uint32(i))
		}
	}
	return uint32(i)
}

func (t *Tree) Update(i uint32, l *Leaf) {
	t.Lf[i] = l
	for _, p := range t.DirectPath(int(i)) {
		delete(t.Par, p)
	}
}

func (t *Tree) Remove(i uint32) {
	t.Lf[i] = nil
	for _, p := range t.DirectPath(int(i)) {
		delete(t.Par, p)
	}
	t.Truncate()
}

// Truncate drops empty right halves.
func (t *Tree) Truncate() {
	for t.D > 0 {
		half := len(t.Lf) / 2
		for _, l := range t.Lf[half:] {
			if l != nil {
				return
			}
		}
		for p := range t.Par {
			if p.L == t.D || p.P >= 1<<(t.D-1-p.L) {
				delete(t.Par, p)
			}
		}
		t.Lf = append([]*Leaf{}, t.Lf[:half]...)
		t.D--
	}
}

// Hash computes the tree hash of a subtree with some leaves left out.
func (t *Tree) Hash(s *Suite, p Pos, without map[uint32]bool) []byte {
	var w W
	if p.L == 0 {
		l := t.Lf[p.P]
		if without[uint32(p.P)] {
			l = nil
		}
		w.U8(1)
		w.U32(uint32(p.P))
		w.Opt(l != nil)
		if l != nil {
			l.Enc(&w)
		}
		return s.H(w.B)
	}
	lh, rh := t.Hash(s, p.Left(), without), t.Hash(s, p.Right(), without)
	w.U8(2)
	n := t.Par[p]
	w.Opt(n != nil)
	if n != nil {
		c := *n
		c.Unmerged = nil
		for _, u := range n.Unmerged {
			if !without[u] {
				c.Unmerged = append(c.Unmerged, u)
			}
		}
		c.Enc(&w)
	}
	w.Vec(lh)
	w.Vec(rh)
	return s.H(w.B)
}

func (t *Tree) RootHash(s *Suite) []byte { return t.Hash(s, t.Root(), nil) }

// ParentHashOf is the parent hash of node p as seen from the side opposite to
// its child sib.
func (t *Tree) ParentHashOf(s *Suite, p, sib Pos) []byte {
	n := t.Par[p]
	ex := map[uint32]bool{}
	for _, u := range n.Unmerged {
		ex[u] = true
	}
	var w W
	w.Vec(n.EncKey)
	w.Vec(n.ParentHash)
	w.Vec(t.Hash(s, sib, ex))
	return s.H(w.B)
}

func (t *Tree) parentHashField(p Pos) []byte {
	if p.L == 0 {
		return t.Lf[p.P].ParentHash
	}
	return t.Par[p].ParentHash
}

// VerifyParentHashes implements section 7.9.2.
func (t *Tree) VerifyParentHashes(s *Suite) bool {
	for p, n := range t.Par {
		count := 0
		for _, c := range []Pos{p.Left(), p.Right()} {
			want := t.ParentHashOf(s, p, c.Sib())
			res := t.Resolve(c)
			unm := map[Pos]bool{}
			for _, u := range n.Unmerged {
				if c.Above(int(u)) {
					unm[Pos{0, int(u)}] = true
				}
			}
			for i, d := range res {
				if !bytes.Equal(t.parentHashField(d), want) {
					continue
				}
				rest := append(append([]Pos{}, res[:i]...), res[i+1:]...)
				ok := len(rest) == len(unm)
				for _, x := range rest {
					ok = ok && unm[x]
				}
				if ok {
					count++
				}
			}
		}
		if count != 1 {
			return false
		}
	}
	return true
}

// Enc encodes the tree as in the ratchet_tree extension.
func (t *Tree) Enc(w *W) {
	n := 2*len(t.Lf) - 1
	for n > 0 && t.Blank(FromIndex(n-1)) {
		n--
	}
	w.Sub(func(w *W) {
		for i := 0; i < n; i++ {
			p := FromIndex(i)
			if t.Blank(p) {
				w.U8(0)
				continue
			}
			w.U8(1)
			if p.L == 0 {
				w.U8(1)
				t.Lf[p.P].Enc(w)
			} else {
				w.U8(2)
				t.Par[p].Enc(w)
			}
		}
	})
}

// ParseTree decodes and checks the shape of an encoded tree.
func ParseTree(raw []byte) (*Tree, error) {
	r := R{B: raw}
	t := &Tree{Par: map[Pos]*Parent{}}
	lf := map[int]*Leaf{}
	i, last := 0, -1
	r.Sub(func(r *R) {
		p := FromIndex(i)
		if r.Opt() {
			last = i
			switch r.U8() {
			case 1:
				l := new(Leaf)
				l.Dec(r)
				if p.L != 0 {
					r.fail(errors.New("mlsref: leaf at parent position"))
				}
				lf[p.P] = l
			case 2:
				n := new(Parent)
				n.Dec(r)
				if p.L == 0 {
					r.fail(errors.New("mlsref: parent at leaf position"))
				}
				t.Par[p] = n
			default:
				r.fail(errors.New("mlsref: node type"))
			}
		}
		i++
	})
	if err := r.Done(); err != nil {
		return nil, err
	}
	if i == 0 {
		return nil, errors.New("mlsref: empty tree")
	}
	if last != i-1 {
		return nil, errors.New("mlsref: trailing blank node")
	}
	for 2<<t.D-1 < i {
		t.D++
	}
	t.Lf = make([]*Leaf, 1<<t.D)
	for k, v := range lf {
		t.Lf[k] = v
	}
	return t, nil
}

// Validate performs the joiner checks of section 12.4.3.1 on the tree (except
// lifetimes and credentials' contents).
func (t *Tree) Validate(s *Suite, groupID []byte) error {
	for p, n := range t.Par {
		for _, u := range n.Unmerged {
			if int64(u) >= int64(len(t.Lf)) || t.Lf[u] == nil || !p.Above(int(u)) {
				return errors.New("mlsref: unmerged leaf")
			}
		}
	}
	if !t.VerifyParentHashes(s) {
		return errors.New("mlsref: parent hashes")
	}
	sig, enc := map[string]bool{}, map[string]bool{}
	for i, l := range t.Lf {
		if l == nil {
			continue
		}
		if err := l.Validate(s, groupID, uint32(i)); err != nil {
			return fmt.Errorf("leaf %d: %w", i, err)
		}
		if sig[string(l.SigKey)] || enc[string(l.EncKey)] {
			return errors.New("mlsref: duplicate key")
		}
		sig[string(l.SigKey)], enc[string(l.EncKey)] = true, true
		for _, m := range t.Lf {
			if m != nil && !has(m.Creds, l.Cred.Type) {
				return errors.New("mlsref: unsupported credential")
			}
		}
	}
	for p, n := range t.Par {
		if enc[string(n.EncKey)] {
			return errors.New("mlsref: duplicate parent key")
		}
		enc[string(n.EncKey)] = true
		for _, u := range n.Unmerged {
			for q := (Pos{0, int(u)}).Up(); q != p; q = q.Up() {
				if m := t.Par[q]; m != nil && !hasU32(m.Unmerged, u) {
					return errors.New("mlsref: unmerged leaf missing below")
				}
			}
		}
	}
	return nil
}

func has(l []uint16, v uint16) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasU32(l []uint32, v uint32) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// Validate checks signature, capabilities and extensions of a leaf.
func (l *Leaf) Validate(s *Suite, groupID []byte, idx uint32) error {
	if !s.Verify(l.SigKey, "LeafNodeTBS", l.TBS(groupID, idx), l.Sig) {
		return errors.New("mlsref: leaf signature")
	}
	if !has(l.Versions, MLS10) || !has(l.Suites, s.ID) || !has(l.Creds, l.Cred.Type) {
		return errors.New("mlsref: capabilities")
	}
	for _, e := range l.Extensions {
		// types 1 to 5 are supported by everybody and not listed
		if e.Type > 5 && !has(l.Exts, e.Type) {
			return errors.New("mlsref: extension")
		}
	}
	if _, err := s.KEM.NewPublicKey(l.EncKey); err != nil {
		return err
	}
	return nil
}

// Validate checks a key package for a suite at a given time (unix seconds).
func (k *KeyPackage) Validate(s *Suite, now uint64) error {
	if k.Version != MLS10 || k.Suite != s.ID {
		return errors.New("mlsref: version or suite")
	}
	if k.Leaf.Source != SourceKeyPackage {
		return errors.New("mlsref: source")
	}
	if err := k.Leaf.Validate(s, nil, 0); err != nil {
		return err
	}
	if !s.Verify(k.Leaf.SigKey, "KeyPackageTBS", k.TBS(), k.Sig) {
		return errors.New("mlsref: key package signature")
	}
	if bytes.Equal(k.InitKey, k.Leaf.EncKey) {
		return errors.New("mlsref: init key")
	}
	if k.Leaf.NotBefore > now || k.Leaf.NotAfter < now {
		return errors.New("mlsref: lifetime")
	}
	if _, err := s.KEM.NewPublicKey(k.InitKey); err != nil {
		return err
	}
	return nil
}

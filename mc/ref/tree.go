package ref

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Span is the set of leaves [Lo,Hi) below a node. Its size is a power of two
// and Lo is a multiple of it. The node's array index is Lo+Hi-1.
type Span struct{ Lo, Hi int }

func (s Span) Index() int     { return s.Lo + s.Hi - 1 }
func (s Span) Leaf() bool     { return s.Hi-s.Lo == 1 }
func (s Span) Left() Span     { return Span{s.Lo, (s.Lo + s.Hi) / 2} }
func (s Span) Right() Span    { return Span{(s.Lo + s.Hi) / 2, s.Hi} }
func (s Span) Has(i int) bool { return s.Lo <= i && i < s.Hi }
func leafSpan(i int) Span     { return Span{i, i + 1} }

type Parent struct {
	EncKey     []byte
	ParentHash []byte
	Unmerged   []uint32
}

func (p *Parent) Enc() []byte { return Cat(Vec(p.EncKey), Vec(p.ParentHash), VecU32(p.Unmerged)) }

// Tree is a ratchet tree. Nodes are immutable; Copy is shallow.
type Tree struct {
	N       int // leaf slots, a power of two
	Leaves  []*Leaf
	Parents map[Span]*Parent
}

func NewTree(l *Leaf) *Tree {
	return &Tree{N: 1, Leaves: []*Leaf{l}, Parents: map[Span]*Parent{}}
}

func (t *Tree) Copy() *Tree {
	c := &Tree{N: t.N, Leaves: append([]*Leaf{}, t.Leaves...), Parents: make(map[Span]*Parent, len(t.Parents))}
	for k, v := range t.Parents {
		c.Parents[k] = v
	}
	return c
}

func (t *Tree) Root() Span { return Span{0, t.N} }

// Ancestors lists the direct path of leaf i, bottom up.
func (t *Tree) Ancestors(i int) (out []Span) {
	for size := 2; size <= t.N; size *= 2 {
		lo := i / size * size
		out = append(out, Span{lo, lo + size})
	}
	return out
}

func (t *Tree) Members() (out []int) {
	for i, l := range t.Leaves {
		if l != nil {
			out = append(out, i)
		}
	}
	return out
}

func (t *Tree) Resolution(s Span) (out []Span) {
	if s.Leaf() {
		if t.Leaves[s.Lo] != nil {
			return []Span{s}
		}
		return nil
	}
	if p := t.Parents[s]; p != nil {
		out = []Span{s}
		for _, u := range p.Unmerged {
			out = append(out, leafSpan(int(u)))
		}
		return out
	}
	return append(t.Resolution(s.Left()), t.Resolution(s.Right())...)
}

func (t *Tree) EncKey(s Span) []byte {
	if s.Leaf() {
		return t.Leaves[s.Lo].EncKey
	}
	return t.Parents[s].EncKey
}

func (t *Tree) AddLeaf(l *Leaf) int {
	i := 0
	for i < t.N && t.Leaves[i] != nil {
		i++
	}
	if i == t.N {
		t.Leaves = append(t.Leaves, make([]*Leaf, t.N)...)
		t.N *= 2
	}
	t.Leaves[i] = l
	for _, s := range t.Ancestors(i) {
		if p := t.Parents[s]; p != nil {
			c := *p
			c.Unmerged = append(append([]uint32{}, p.Unmerged...), uint32(i))
			sort.Slice(c.Unmerged, func(a, b int) bool { return c.Unmerged[a] < c.Unmerged[b] })
			t.Parents[s] = &c
		}
	}
	return i
}

func (t *Tree) UpdateLeaf(i int, l *Leaf) {
	t.Leaves[i] = l
	t.blank(i)
}

func (t *Tree) blank(i int) {
	for _, s := range t.Ancestors(i) {
		delete(t.Parents, s)
	}
}

func (t *Tree) RemoveLeaf(i int) {
	if i >= t.N {
		return
	}
	t.Leaves[i] = nil
	t.blank(i)
	for t.N > 1 {
		for _, l := range t.Leaves[t.N/2:] {
			if l != nil {
				return
			}
		}
		for s := range t.Parents {
			if s.Hi > t.N/2 {
				delete(t.Parents, s)
			}
		}
		t.N /= 2
		t.Leaves = t.Leaves[:t.N:t.N]
	}
}

// Hash is the tree hash of the subtree, with some leaves taken out.
func (t *Tree) Hash(s Suite, sp Span, without map[int]bool) []byte {
	if sp.Leaf() {
		l := t.Leaves[sp.Lo]
		if l == nil || without[sp.Lo] {
			return s.Hash(U8(1), U32(uint32(sp.Lo)), Opt(false, nil))
		}
		return s.Hash(U8(1), U32(uint32(sp.Lo)), Opt(true, l.Enc()))
	}
	p := t.Parents[sp]
	body := Opt(false, nil)
	if p != nil {
		c := *p
		c.Unmerged = nil
		for _, u := range p.Unmerged {
			if !without[int(u)] {
				c.Unmerged = append(c.Unmerged, u)
			}
		}
		body = Opt(true, c.Enc())
	}
	return s.Hash(U8(2), body, Vec(t.Hash(s, sp.Left(), without)), Vec(t.Hash(s, sp.Right(), without)))
}

func (t *Tree) RootHash(s Suite) []byte { return t.Hash(s, t.Root(), nil) }

func parentHash(s Suite, p *Parent, sibling []byte) []byte {
	return s.Hash(Vec(p.EncKey), Vec(p.ParentHash), Vec(sibling))
}

// ParentHash is the hash a child of node p stores, given the hash of the other
// child.
func ParentHash(s Suite, p *Parent, sibling []byte) []byte { return parentHash(s, p, sibling) }

// FilteredPath lists the direct path of leaf i without nodes whose other child
// has an empty resolution, and the corresponding copath children.
func (t *Tree) FilteredPath(i int) (path, copath []Span) {
	for _, s := range t.Ancestors(i) {
		other := s.Left()
		if other.Has(i) {
			other = s.Right()
		}
		if len(t.Resolution(other)) > 0 {
			path = append(path, s)
			copath = append(copath, other)
		}
	}
	return path, copath
}

// SetPath blanks the direct path of leaf i, installs keys on the filtered
// path, and returns the parent hash for the leaf.
func (t *Tree) SetPath(s Suite, i int, keys [][]byte) ([]byte, error) {
	t.blank(i)
	path, copath := t.FilteredPath(i)
	if len(path) != len(keys) {
		return nil, fmt.Errorf("ref: path has %d nodes, want %d", len(keys), len(path))
	}
	var ph []byte
	for k := len(path) - 1; k >= 0; k-- {
		p := &Parent{EncKey: keys[k], ParentHash: ph}
		t.Parents[path[k]] = p
		ph = parentHash(s, p, t.Hash(s, copath[k], nil))
	}
	return ph, nil
}

// CommonAncestor of two distinct leaves.
func CommonAncestor(i, j int) Span {
	for size := 2; ; size *= 2 {
		if i/size == j/size {
			return Span{i / size * size, i/size*size + size}
		}
	}
}

func (t *Tree) Enc() []byte {
	var b []byte
	end := 0
	for i := 0; i < 2*t.N-1; i++ {
		if t.nodeAt(i) != nil {
			end = i + 1
		}
	}
	for i := 0; i < end; i++ {
		n := t.nodeAt(i)
		b = append(b, Opt(n != nil, n)...)
	}
	return Vec(b)
}

func spanAt(idx int) Span {
	size := 1
	x := idx
	for x&1 == 1 {
		size *= 2
		x >>= 1
	}
	// idx = lo+hi-1 = 2lo+size-1
	lo := (idx - size + 1) / 2
	return Span{lo, lo + size}
}

func (t *Tree) nodeAt(idx int) []byte {
	s := spanAt(idx)
	if s.Leaf() {
		if l := t.Leaves[s.Lo]; l != nil {
			return Cat(U8(1), l.Enc())
		}
		return nil
	}
	if p := t.Parents[s]; p != nil {
		return Cat(U8(2), p.Enc())
	}
	return nil
}

// ParseTree decodes a ratchet tree strictly.
func ParseTree(b []byte) (t *Tree, err error) {
	type nd struct {
		l *Leaf
		p *Parent
	}
	var nodes []nd
	err = Decode(b, func(r *R) {
		r.Each(func(r *R) {
			if !r.Opt() {
				nodes = append(nodes, nd{})
				return
			}
			switch r.U8() {
			case 1:
				nodes = append(nodes, nd{l: decLeaf(r)})
			case 2:
				nodes = append(nodes, nd{p: &Parent{r.Vec(), r.Vec(), r.VecU32()}})
			default:
				fail("ref: node type")
			}
		})
	})
	if err != nil {
		return nil, err
	}
	if len(nodes) == 0 {
		return nil, errors.New("ref: empty tree")
	}
	if last := nodes[len(nodes)-1]; last.l == nil && last.p == nil {
		return nil, errors.New("ref: trailing blank")
	}
	n := 1
	for 2*n-1 < len(nodes) {
		n *= 2
	}
	t = &Tree{N: n, Leaves: make([]*Leaf, n), Parents: map[Span]*Parent{}}
	for i, x := range nodes {
		s := spanAt(i)
		if x.l != nil {
			if !s.Leaf() {
				return nil, errors.New("ref: leaf in parent position")
			}
			t.Leaves[s.Lo] = x.l
		}
		if x.p != nil {
			if s.Leaf() {
				return nil, errors.New("ref: parent in leaf position")
			}
			t.Parents[s] = x.p
		}
	}
	return t, nil
}

// VerifyTree checks the invariants of section 12.4.3.1 and 7.9.
func (t *Tree) Verify(s Suite, groupID []byte) error {
	encKeys := map[string]bool{}
	sigKeys := map[string]bool{}
	for i, l := range t.Leaves {
		if l == nil {
			continue
		}
		if !l.VerifySig(s, groupID, uint32(i)) {
			return fmt.Errorf("ref: leaf %d signature", i)
		}
		if encKeys[string(l.EncKey)] || sigKeys[string(l.SigKey)] {
			return fmt.Errorf("ref: leaf %d duplicate key", i)
		}
		encKeys[string(l.EncKey)], sigKeys[string(l.SigKey)] = true, true
		for j, m := range t.Leaves {
			if m != nil && !hasU16(m.Caps.Creds, l.Cred.Type) {
				return fmt.Errorf("ref: leaf %d credential unsupported by %d", i, j)
			}
		}
		for _, e := range l.Exts {
			if e.Type > 5 && !hasU16(l.Caps.Exts, e.Type) {
				return fmt.Errorf("ref: leaf %d extension unsupported", i)
			}
		}
	}
	for sp, p := range t.Parents {
		if encKeys[string(p.EncKey)] {
			return fmt.Errorf("ref: node %v duplicate key", sp)
		}
		encKeys[string(p.EncKey)] = true
		prev := -1
		for _, u := range p.Unmerged {
			if int(u) <= prev || !sp.Has(int(u)) || t.Leaves[u] == nil {
				return fmt.Errorf("ref: node %v unmerged", sp)
			}
			prev = int(u)
			for _, a := range t.Ancestors(int(u)) {
				if a.Hi-a.Lo >= sp.Hi-sp.Lo {
					break
				}
				if q := t.Parents[a]; q != nil && !hasU32(q.Unmerged, u) {
					return fmt.Errorf("ref: node %v missing unmerged %d", a, u)
				}
			}
		}
	}
	for sp, p := range t.Parents {
		// parent hash validity
		ok := false
		for _, ch := range [][2]Span{{sp.Left(), sp.Right()}, {sp.Right(), sp.Left()}} {
			c, sib := ch[0], ch[1]
			without := map[int]bool{}
			for _, u := range p.Unmerged {
				without[int(u)] = true
			}
			want := parentHash(s, p, t.Hash(s, sib, without))
			res := t.Resolution(c)
			for di, d := range res {
				var ph []byte
				if d.Leaf() {
					ph = t.Leaves[d.Lo].ParentHash
				} else {
					ph = t.Parents[d].ParentHash
				}
				if !eq(ph, want) {
					continue
				}
				// the rest of the resolution must be exactly P's unmerged
				// leaves under C
				rest := map[Span]bool{}
				for k, x := range res {
					if k != di {
						rest[x] = true
					}
				}
				good := true
				for _, u := range p.Unmerged {
					if c.Has(int(u)) {
						if !rest[leafSpan(int(u))] {
							good = false
						}
						delete(rest, leafSpan(int(u)))
					}
				}
				if good && len(rest) == 0 {
					ok = true
				}
			}
		}
		if !ok {
			return fmt.Errorf("ref: node %v parent hash", sp)
		}
	}
	return nil
}

func hasU16(v []uint16, x uint16) bool {
	for _, y := range v {
		if y == x {
			return true
		}
	}
	return false
}

func hasU32(v []uint32, x uint32) bool {
	for _, y := range v {
		if y == x {
			return true
		}
	}
	return false
}

// Shape describes the tree without keys: occupied leaves with their source,
// blank or populated parents, unmerged sets.
func (t *Tree) Shape(sources bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:", t.N)
	for i := 0; i < 2*t.N-1; i++ {
		s := spanAt(i)
		if s.Leaf() {
			l := t.Leaves[s.Lo]
			switch {
			case l == nil:
				b.WriteByte('_')
			case sources:
				b.WriteByte("?kuc"[l.Source])
			default:
				b.WriteByte('L')
			}
			continue
		}
		p := t.Parents[s]
		if p == nil {
			b.WriteByte('.')
			continue
		}
		b.WriteByte('P')
		for k, u := range p.Unmerged {
			if k > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%d", u)
		}
	}
	return b.String()
}

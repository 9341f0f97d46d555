package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C10"] = check{"model_checking", eng.Meta{
		Rule: "a state is a tree shape, a transition a commit delivered to every library member; a trace is one library member after a transition, made to publish its tree in an invitation, which must equal the model's tree, tree hash and context byte for byte; commits announcing a tree built by a deviating rule must be refused",
		Assumptions: []string{
			"members behave the same in two states with the same tree shape, up to the keys involved",
			"the reference model's tree operations follow RFC 9420; they are validated against its published test vectors",
		},
	}, c10}
}

func c10(r *eng.Run) {
	start := func(s ref.Suite, name string) (out []eng.Node) {
		setup(r, fmt.Sprintf("%s/%d", name, s), func(t *eng.T) {
			if w := eng.NewWorld(t, s, gid, name); w != nil {
				out = []eng.Node{{W: w, Path: fmt.Sprintf("%s/s%d", name, s)}}
			}
		})
		return out
	}
	observe := func(t *eng.T, from eng.Node, m eng.Move, to *eng.World, b *eng.Built) {
		if to == nil {
			return
		}
		for _, i := range to.Leaves() {
			to.Observe(t, i, m.String())
			if t.Failed() {
				return
			}
		}
	}
	state := func(t *eng.T, n eng.Node) {
		for _, i := range n.W.Leaves() {
			n.W.Observe(t, i, "state")
		}
		deviations(t, n)
	}
	r.Explore(start(1, "all4"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.AllOps(w, 4, 2, eng.OneFrame)
	}, state, observe)
	r.Explore(start(1, "small5"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.SmallOps(w, 5, eng.OneFrame)
	}, nil, observe)
	for _, s := range suites[1:] {
		r.Explore(start(s, "suite"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 3, 1, eng.OneFrame)
		}, state, observe)
	}
	var wide []eng.Node
	for _, n := range []string{"five-holes", "eight", "refilled", "hole@odd", "three@bare"} {
		n := n
		setup(r, "wide/"+n, func(t *eng.T) {
			if w := recipeOf(n).build(t, 1, gid); w != nil {
				wide = append(wide, eng.Node{W: w, Path: "wide/" + n})
			}
		})
	}
	r.Explore(wide, r.Pick(1, 2), (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.SmallOps(w, 10, eng.OneFrame)
	}, nil, observe)
	if r.Thorough() {
		r.Explore(start(1, "fine4"), 0, (*eng.World).Key, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 4, 2, eng.OneFrame)
		}, state, observe)
		r.Explore(start(1, "small6"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.SmallOps(w, 6, eng.OneFrame)
		}, nil, observe)
	}
	r.All(func(emit func(eng.Case)) { wideTrees(r, emit); removals(r, emit); growth(r, emit) })
}

// wideTrees changes trees with members at positions far apart.
func wideTrees(r *eng.Run, emit func(eng.Case)) {
	for _, at := range [][]int{{0, 127, 128}, {1, 255, 256}, {2, 257, 300}, {0, 1, 2, 1024}, {1, 2, 65537}, {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512}} {
		at := at
		name := fmt.Sprintf("far/%v", at)
		a, c := at[0], at[len(at)-1]
		ops := []eng.Op{path(c), {By: c, Add: 1, Upd: []int{a}, Path: true}, path(a), {By: a, Rem: []int{c}, Path: true}}
		if c > 2000 {
			ops = []eng.Op{{By: a, Upd: []int{c}, Path: true}, {By: a, Rem: []int{c}, Path: true}}
		}
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			w := farWorld(t, 1, at, name)
			for k, o := range ops {
				if w == nil || t.Failed() {
					return
				}
				w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, k))
				if c < 2000 {
					w.Complete(t.Run)
				}
				t.State()
				for _, i := range w.Leaves() {
					w.Observe(t, i, fmt.Sprintf("%s after %v", name, o))
				}
			}
			t.Sample("far", name)
		}})
	}
}

// removals takes every subset out of groups of up to some size at once, then
// refills and refreshes them.
func removals(r *eng.Run, emit func(eng.Case)) {
	for n := 2; n <= r.Pick(7, 9); n++ {
		for m := 1; m < 1<<n-1; m++ {
			n, m := n, m
			name := fmt.Sprintf("removal/%d/%b", n, m)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := bigWorld(t, 1, n, fmt.Sprintf("removal/%d", n))
				var rem, left []int
				for i := 0; i < n; i++ {
					if m>>i&1 > 0 {
						rem = append(rem, i)
					} else {
						left = append(left, i)
					}
				}
				by := left[m%len(left)]
				var ops []eng.Op
				if m%3 > 0 {
					ops = append(ops, path(rem[0]), path(left[len(left)-1]), path(n/2))
				}
				ops = append(ops, eng.Op{By: by, Rem: rem, Path: true, Ref: m%2 == 0, Rev: m%4 == 1})
				if m%5 < 2 {
					ops = append(ops, eng.Op{By: left[0], Add: 1 + m%3})
				}
				ops = append(ops, path(left[0]), eng.Op{By: by, Add: 2, Path: true})
				if len(left) > 1 {
					x := left[0]
					if x == by {
						x = left[1]
					}
					ops = append(ops, eng.Op{By: by, Rem: []int{x}, Path: true})
				}
				for k, o := range ops {
					if w == nil || t.Failed() {
						return
					}
					w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, k))
					w.Complete(t.Run)
					t.State()
					ls := w.Leaves()
					for j, i := range ls {
						if j == 0 || j == len(ls)-1 || j == (m+k)%len(ls) {
							w.Observe(t, i, fmt.Sprintf("%s after %v", name, o))
						}
					}
				}
				if t.Failed() || w == nil {
					return
				}
				t.Sample("removal", name+" "+w.Shape())
			}})
		}
	}
}

// growth lets groups grow one by one and by leaps, with and without paths, and
// shrink again, past every power of two up to a size.
func growth(r *eng.Run, emit func(eng.Case)) {
	max := r.Pick(34, 130)
	for _, step := range []int{1, 2, 3, 7, 16} {
		for _, kind := range []string{"lib", "bare", "path"} {
			step, kind := step, kind
			name := fmt.Sprintf("growth/%s/%d", kind, step)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := eng.NewWorld(t, 1, gid, name)
				for k := 0; w != nil && !t.Failed(); k++ {
					ms := w.M.Tree.Members()
					label := fmt.Sprintf("%s/%d", name, k)
					if len(ms) >= max {
						break
					}
					by := ms[(k*5)%len(ms)]
					if kind == "lib" && w.R[by] != nil {
						w = w.StepLib(t, by, step, label)
					} else {
						w, _ = w.Step(t, eng.Op{By: by, Add: step, Path: kind == "path" && k%2 == 0, Priv: k%3 == 0}, label)
						w.Complete(t.Run)
					}
					if w == nil || t.Failed() {
						return
					}
					t.State()
					ls := w.Leaves()
					w.Observe(t, ls[k%len(ls)], label)
					thin(w, 6)
				}
				// shrink from the right and in the middle
				for k := 0; w != nil && !t.Failed() && len(w.M.Tree.Members()) > 1; k++ {
					ms := w.M.Tree.Members()
					label := fmt.Sprintf("%s/down%d", name, k)
					x := ms[len(ms)-1]
					if k%3 == 1 {
						x = ms[len(ms)/2]
					}
					by := ms[0]
					if k%2 == 1 {
						by = ms[(k*3)%len(ms)]
					}
					if by == x {
						by = ms[0]
					}
					rem := []int{x}
					if step > 2 && len(ms) > step {
						rem = nil
						for _, m := range ms[len(ms)-step:] {
							if m != by {
								rem = append(rem, m)
							}
						}
					}
					if len(rem) == 0 || by == rem[0] {
						break
					}
					w, _ = w.Step(t, eng.Op{By: by, Rem: rem, Path: true, Ref: k%2 == 0}, label)
					w.Complete(t.Run)
					t.State()
					if ls := w.Leaves(); len(ls) > 0 {
						w.Observe(t, ls[k%len(ls)], label)
					} else {
						break
					}
				}
			}})
		}
	}
}

// thin keeps a few library groups.
func thin(w *eng.World, n int) {
	ls := w.Leaves()
	for k, i := range ls {
		if len(ls) > n && k > 1 && k < len(ls)-2 && k%(len(ls)/n+1) != 0 {
			delete(w.R, i)
			delete(w.Kind, i)
		}
	}
}

// deviations are commits whose author evolves the tree by another rule; all
// hashes and tags are computed from the resulting tree.
func deviations(t *eng.T, n eng.Node) {
	w := n.W
	g := w.M
	members := g.Tree.Members()
	for _, by := range members {
		oth := others(members, by)
		if len(oth) == 0 {
			continue
		}
		p := ref.NewParty(g.Ring, g.Suite, n.Path+"/dev", ref.PartyOpts{})
		kinds := []struct {
			name string
			list []ref.PropOrRef
			path bool
			gone int
		}{
			{"path", nil, true, -1},
			{"add", inline(ref.Add(p.KP)), false, -1},
			{"add-path", inline(ref.Add(p.KP)), true, -1},
			{"remove", inline(ref.Remove(oth[len(oth)-1])), true, oth[len(oth)-1]},
			{"replace", inline(ref.Remove(oth[0]), ref.Add(p.KP)), true, oth[0]},
		}
		for _, k := range kinds {
			honest, err := g.Commit(ref.CommitOpts{Sender: by, List: k.list, Path: k.path, Rng: ref.NewRng("dev", n.Path, k.name)})
			if err != nil {
				eng.Harness("%v", err)
			}
			try := func(name string, mut func(tr *ref.Tree)) {
				changed := false
				res, err := g.Commit(ref.CommitOpts{Sender: by, List: k.list, Path: k.path, Rng: ref.NewRng("dev", n.Path, k.name), TreeMut: func(tr *ref.Tree) {
					before := string(tr.Enc()) + fmt.Sprint(tr.N)
					mut(tr)
					changed = before != string(tr.Enc())+fmt.Sprint(tr.N)
				}})
				if err != nil || !changed || eq(res.Next.Ctx.TreeHash, honest.Next.Ctx.TreeHash) {
					return
				}
				for _, i := range w.Leaves() {
					if i != by || !k.path {
						refuses(t, w, i, attack{fmt.Sprintf("%s by %d, %s", k.name, by, name), nil, res.Msg})
					}
				}
			}
			try("old parents kept", func(tr *ref.Tree) {
				for sp, p := range g.Tree.Parents {
					if sp.Hi <= tr.N && tr.Parents[sp] == nil {
						tr.Parents[sp] = p
					}
				}
			})
			try("unmerged forgotten", func(tr *ref.Tree) {
				for sp, p := range tr.Parents {
					if len(p.Unmerged) > 0 {
						c := *p
						c.Unmerged = nil
						tr.Parents[sp] = &c
					}
				}
			})
			try("unmerged everywhere", func(tr *ref.Tree) {
				for sp, p := range tr.Parents {
					c := *p
					c.Unmerged = nil
					for i := sp.Lo; i < sp.Hi && i < len(tr.Leaves); i++ {
						if tr.Leaves[i] != nil && i != by {
							c.Unmerged = append(c.Unmerged, uint32(i))
						}
					}
					tr.Parents[sp] = &c
				}
			})
			try("newest unmerged forgotten", func(tr *ref.Tree) {
				for sp, p := range tr.Parents {
					if m := len(p.Unmerged); m > 0 {
						c := *p
						c.Unmerged = append([]uint32{}, p.Unmerged[:m-1]...)
						tr.Parents[sp] = &c
					}
				}
			})
			try("all parents blank", func(tr *ref.Tree) {
				for sp := range tr.Parents {
					delete(tr.Parents, sp)
				}
			})
			try("grown", func(tr *ref.Tree) {
				tr.Leaves = append(append([]*ref.Leaf{}, tr.Leaves...), make([]*ref.Leaf, tr.N)...)
				tr.N *= 2
			})
			try("newcomer last", func(tr *ref.Tree) {
				for i, l := range tr.Leaves {
					if l != nil && eq(l.EncKey, p.KP.Leaf.EncKey) && i != len(tr.Leaves)-1 && tr.Leaves[len(tr.Leaves)-1] == nil {
						tr.Leaves[i], tr.Leaves[len(tr.Leaves)-1] = nil, l
						break
					}
				}
			})
			try("removed kept", func(tr *ref.Tree) {
				if k.gone >= 0 && k.gone < tr.N && tr.Leaves[k.gone] == nil {
					tr.Leaves[k.gone] = g.Tree.Leaves[k.gone]
				}
			})
			for _, h := range []struct {
				name string
				mut  func(b []byte) []byte
			}{
				{"another parent hash", func(b []byte) []byte { return flipByte(b, 0) }},
				{"no parent hash", func(b []byte) []byte { return nil }},
				{"parent hash of the old leaf", func(b []byte) []byte { return g.Tree.Leaves[by].ParentHash }},
			} {
				h := h
				changed := false
				if !k.path {
					break
				}
				res, err := g.Commit(ref.CommitOpts{Sender: by, List: k.list, Path: true, Rng: ref.NewRng("dev", n.Path, k.name), LeafPre: func(l *ref.Leaf) {
					if b := h.mut(l.ParentHash); len(l.ParentHash) > 0 && !eq(b, l.ParentHash) {
						l.ParentHash, changed = b, true
					}
				}})
				if err != nil || !changed {
					continue
				}
				for _, i := range oth {
					if i != k.gone {
						refuses(t, w, i, attack{fmt.Sprintf("%s by %d, %s", k.name, by, h.name), nil, res.Msg})
					}
				}
			}
			if t.Failed() {
				return
			}
		}
	}
}

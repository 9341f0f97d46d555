package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C01"] = check{"model_checking", eng.Meta{
		Rule: "a state is a tree shape (and, in the thorough tier, the origin of every leaf and library group); a transition is a commit executed by the model or the library and delivered to every library member; a trace is a transition after which every library member was compared with the model by reading and writing messages, or by a full comparison of its published state",
		Assumptions: []string{
			"members behave the same in two states with the same tree shape, up to the keys involved",
			"the library cannot create path commits itself, so those come from the reference model",
		},
	}, c01}
}

func c01(r *eng.Run) {
	agree := func(t *eng.T, from eng.Node, m eng.Move, to *eng.World, b *eng.Built) {
		if to != nil {
			to.Agree(t, m.String(), nil)
		}
	}
	state := func(t *eng.T, n eng.Node) {
		n.W.Agree(t, "state", nil)
		for _, i := range n.W.Leaves() {
			n.W.Observe(t, i, "state")
		}
	}

	start := func(s ref.Suite, name string) (out []eng.Node) {
		setup(r, fmt.Sprintf("%s/%d", name, s), func(t *eng.T) {
			if w := eng.NewWorld(t, s, gid, name); w != nil {
				out = []eng.Node{{W: w, Path: fmt.Sprintf("%s/s%d", name, s)}}
			}
		})
		return out
	}

	// every commit over groups of up to four members
	r.Explore(start(1, "all4"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.AllOps(w, 4, 2, eng.OneFrame)
	}, state, agree)

	// every commit in every framing over groups of up to three members
	r.Explore(start(1, "frames3"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.AllOps(w, 3, 2, eng.AllFrames)
	}, nil, agree)

	// the other cipher suites
	for _, s := range suites[1:] {
		r.Explore(start(s, "suite"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 3, 1, eng.OneFrame)
		}, state, agree)
	}

	// single-change commits over groups of up to five members, to the fixpoint
	r.Explore(start(1, "small5"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.SmallOps(w, 5, eng.OneFrame)
	}, state, agree)

	// single-change commits around full and partly vacant larger trees
	var wide []eng.Node
	for _, n := range []string{"five-holes", "eight", "refilled", "hole@odd", "three@bare"} {
		n := n
		setup(r, "wide/"+n, func(t *eng.T) {
			if w := recipeOf(n).build(t, 1, gid); w != nil {
				wide = append(wide, eng.Node{W: w, Path: "wide/" + n})
			}
		})
	}
	r.Explore(wide, r.Pick(1, 2), (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.SmallOps(w, 10, eng.OneFrame)
	}, nil, agree)

	r.All(func(emit func(eng.Case)) {
		far(r, emit)
		sizes(r, emit)
		chains(r, emit)
		returns(r, emit)
		parameters(r, emit)
	})

	if r.Thorough() {
		r.Explore(start(1, "fine4"), 0, (*eng.World).Key, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 4, 2, eng.OneFrame)
		}, state, agree)
		for _, s := range suites[1:3] {
			r.Explore(start(s, "suite4"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
				return eng.AllOps(w, 4, 2, eng.OneFrame)
			}, state, agree)
		}
		r.Explore(start(1, "small6"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.SmallOps(w, 6, eng.OneFrame)
		}, state, agree)
	}
}

// spread picks positions across a group: ends, middle and around powers of two.
func spread(n int) (out []int) {
	for i := 0; i < n; i++ {
		if i < 2 || i == n/2 || i >= n-2 || i&(i-1) == 0 && i > 4 {
			out = append(out, i)
		}
	}
	return out
}

// bigWorld is a group of n members with library groups at some positions.
func bigWorld(t *eng.T, s ref.Suite, n int, label string) *eng.World {
	var ps []*ref.Party
	ring := ref.NewRing()
	for i := 0; i < n; i++ {
		ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/m%d", label, i), ref.PartyOpts{}))
	}
	var real []int
	if n > 12 {
		real = spread(n)
	}
	return eng.ModelWorldOf(t, ring, s, gid, label, ps, 2, real)
}

// farWorld is a group in a wide tree with members at the given positions only,
// as left behind by a large group most of whose members were removed.
func farWorld(t *eng.T, s ref.Suite, at []int, label string) *eng.World {
	ring := ref.NewRing()
	var ps []*ref.Party
	for _, i := range at {
		ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/m%d", label, i), ref.PartyOpts{}))
	}
	g := ref.CreateGroup(ring, s, gid, ps[0], ref.NewRng("create", label))
	tr := &ref.Tree{N: 1, Parents: map[ref.Span]*ref.Parent{}}
	for tr.N <= at[len(at)-1] {
		tr.N *= 2
	}
	tr.Leaves = make([]*ref.Leaf, tr.N)
	for k, i := range at {
		tr.Leaves[i] = ps[k].KP.Leaf
	}
	g.Tree = tr
	return eng.FromModel(t, eng.Reseed(g, 7, label), label, ps, nil)
}

// far places members at positions around the limits of smaller integer types.
func far(r *eng.Run, emit func(eng.Case)) {
	sets := [][]int{
		{0, 127, 128, 129},
		{1, 255, 256},
		{3, 254, 257, 511},
		{2, 1023, 1024},
		{0, 1, 2, 4, 8, 16, 32, 64, 128},
	}
	if r.Thorough() {
		sets = append(sets, []int{0, 4095, 4097}, []int{5, 8191, 8192})
	}
	emit(eng.Case{Name: "far/16 bits", Run: func(t *eng.T) {
		w := farWorld(t, 1, []int{1, 65537}, "far/16")
		if w == nil {
			return
		}
		t.State()
		if w, _ = w.Step(t, path(65537), "far/16"); w == nil || t.Failed() {
			return
		}
		data, err := eng.Proc(w.R[1], w.M.App(65537, []byte("text"), ref.Frame{}))
		if err != nil || string(data) != "text" {
			t.Fail("leaf 1 cannot read leaf 65537: %v", err)
		}
		w.Observe(t, 1, "far")
	}})
	for _, at := range sets {
		at := at
		n := len(at)
		a, b, c := at[0], at[1], at[n-1]
		for k, ops := range [][]eng.Op{
			{path(c), path(a), {By: b, Add: 1, Path: true}, path(c), {By: a, Rem: []int{b}, Path: true, Priv: true}},
			{path(b), {By: c, Upd: []int{a}, Path: true, Priv: true}, {By: b, Add: 2}, path(a), {By: a, Rem: []int{c}, Path: true}, {By: a, Add: 1, Path: true}},
			{{By: a, Upd: []int{c}, Add: 1, Path: true}, path(a), {By: c, Rem: []int{a}, Path: true, Ref: true}, path(b), {By: c, Add: 1}},
		} {
			ops := ops
			name := fmt.Sprintf("far/%v/%d", at, k)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := farWorld(t, 1, at, fmt.Sprintf("far/%v", at))
				for step, o := range ops {
					if w == nil || t.Failed() {
						return
					}
					t.State()
					w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, step))
					w.Complete(t.Run)
					w.Agree(t, o.String(), nil)
					ls := w.Leaves()
					w.Observe(t, ls[step%len(ls)], o.String())
				}
				if w == nil || t.Failed() {
					return
				}
				ls := w.Leaves()
				w = w.StepLib(t, ls[len(ls)-1], 2, name)
				if w != nil {
					w.Agree(t, "library invitation", nil)
				}
				t.Sample("far", name)
			}})
		}
	}
}

// sizes lets groups of many sizes grow, shrink and refresh.
func sizes(r *eng.Run, emit func(eng.Case)) {
	var ns []int
	for n := 1; n <= r.Pick(20, 70); n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 31, 32, 33, 63, 64, 65)
	if r.Thorough() {
		ns = append(ns, 100, 127, 128, 129, 255, 256, 257)
	}
	for _, n := range ns {
		n := n
		var list [][]eng.Op
		last := n - 1
		list = append(list,
			[]eng.Op{path(0), path(last), path(n / 2)},
			[]eng.Op{path(last), {By: 0, Add: 1}, path(n), {By: last, Add: 3, Path: true}},
			[]eng.Op{path(n / 2), {By: n / 2, Add: 17}, {By: 0, Path: true, Priv: true}, {By: last, Add: 2, Path: true, Priv: true}},
		)
		if n > 1 {
			var upper, odd, low []int
			for i := 0; i < n; i++ {
				if i >= (n+1)/2 {
					upper = append(upper, i)
				}
				if i%2 == 1 {
					odd = append(odd, i)
				}
				if i < n/2 {
					low = append(low, i)
				}
			}
			list = append(list,
				[]eng.Op{path(0), path(last), {By: 0, Rem: []int{last}, Path: true}, {By: 0, Add: 2}, path(0)},
				[]eng.Op{path(last), {By: 0, Rem: upper, Path: true}, {By: 0, Add: len(upper), Path: true}, path(0)},
				[]eng.Op{path(0), {By: 0, Rem: odd, Path: true}, {By: 0, Add: len(odd) + 1}, path(1)},
				[]eng.Op{path(1), {By: last, Rem: low, Path: true}, {By: last, Add: 1, Path: true}, path(last)},
				[]eng.Op{path(last), {By: last, Upd: low, Path: true}, path(0)},
				[]eng.Op{path(0), {By: 0, Upd: upper, Add: 1, Path: true}, path(last)},
			)
		}
		for k, ops := range list {
			ops := ops
			name := fmt.Sprintf("size/%d/%d", n, k)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := bigWorld(t, 1, n, name)
				for step, o := range ops {
					if w == nil || t.Failed() {
						return
					}
					w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, step))
					w.Complete(t.Run)
					members := w.M.Tree.Members()
					var senders []int
					for _, i := range spread(len(members)) {
						senders = append(senders, members[i])
					}
					w.Agree(t, o.String(), senders)
					if leaves := w.Leaves(); len(leaves) > 0 {
						w.Observe(t, leaves[len(leaves)-1], o.String())
					}
				}
				t.Sample("size", name+" "+w.Shape())
			}})
		}
	}
}

// returns lets removed members come back as themselves, at once or later.
func returns(r *eng.Run, emit func(eng.Case)) {
	for _, shape := range append([]string{"five@odd", "three@bare"}, "pair-path", "three", "four-full", "hole", "unmerged", "five-holes", "refilled") {
		for _, s := range suites {
			if s != 1 && shape != "three" {
				continue
			}
			shape, s := shape, s
			var w *eng.World
			label := fmt.Sprintf("return/%s/s%d", shape, s)
			setup(r, label, func(t *eng.T) { w = recipeOf(shape).build(t, s, gid) })
			if w == nil {
				continue
			}
			for _, gone := range w.M.Tree.Members() {
				for k, by := range others(w.M.Tree.Members(), gone) {
					rem := eng.Op{By: by, Rem: []int{gone}, Path: true, Priv: k%2 == 0}
					back := eng.Op{By: by, Add: 1, Back: true, Path: k%3 == 0, Ref: k%2 == 1}
					both := eng.Op{By: by, Rem: []int{gone}, Add: 1, Back: true, Path: true}
					swap := both
					swap.Ref, swap.Rev, swap.Priv = true, true, true
					for n, ops := range [][]eng.Op{{rem, back, path(by)}, {rem, path(by), back, {By: by, Upd: []int{gone}, Path: true}, path(gone)}, {both, path(by)}, {swap, rem, back}} {
						// it comes back to its old position unless another is vacant
						if n%2 == 1 && !lowest(w, gone) {
							ops = ops[:len(ops)-2]
						}
						ops := ops
						name := fmt.Sprintf("%s/%d-by%d/%d", label, gone, by, n)
						emit(eng.Case{Name: name, Run: func(t *eng.T) {
							w := w.Clone()
							t.State()
							for step, o := range ops {
								if w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, step)); w == nil || t.Failed() {
									return
								}
								w.Complete(t.Run)
								w.Agree(t, o.String(), nil)
							}
							t.Sample("return", name)
						}})
					}
				}
			}
		}
	}
}

// lowest tells whether no position before i is vacant.
func lowest(w *eng.World, i int) bool {
	for _, l := range w.M.Tree.Leaves[:i] {
		if l == nil {
			return false
		}
	}
	return true
}

// chains lets one group live through many epochs.
func chains(r *eng.Run, emit func(eng.Case)) {
	for _, s := range suites[:r.Pick(1, 4)] {
		s := s
		name := fmt.Sprintf("chain/%d", s)
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			w := eng.NewWorld(t, s, gid, name)
			for k := 0; k < 300 && w != nil && !t.Failed(); k++ {
				label := fmt.Sprintf("%s/%d", name, k)
				members := w.M.Tree.Members()
				var o eng.Op
				switch by := members[k%len(members)]; {
				case len(members) < 4:
					if _, ok := w.R[by]; ok && k%2 == 0 {
						w = w.StepLib(t, by, 1, label)
						continue
					}
					o = eng.Op{By: by, Add: 1, Path: k%3 > 0}
				case k%7 == 3:
					o = eng.Op{By: by, Rem: []int{members[(k+1)%len(members)]}, Path: true}
				case k%5 == 2:
					o = eng.Op{By: by, Upd: []int{members[(k+2)%len(members)]}, Path: true, NewSig: k%2 == 0}
				default:
					o = path(by)
				}
				o.Priv, o.Ref, o.RefPriv = k%2 == 0, k%3 == 0, k%4 == 0
				w, _ = w.Step(t, o, label)
				w.Complete(t.Run)
				if k%20 == 19 {
					w.Agree(t, o.String(), nil)
				}
			}
			if w == nil || t.Failed() {
				return
			}
			w.Agree(t, "end", nil)
			for _, i := range w.Leaves() {
				w.Observe(t, i, "end")
			}
		}})
	}
}

// parameters varies everything that is not group structure.
func parameters(r *eng.Run, emit func(eng.Case)) {
	ops := []eng.Op{path(0), {By: 1, Add: 1, Priv: true}, {By: 2, Rem: []int{1}, Path: true}, {By: 0, Upd: []int{2}, Add: 1, Path: true, Priv: true}}
	run := func(name string, mk func(t *eng.T) *eng.World, mod func(o *eng.Op)) {
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			w := mk(t)
			for k, o := range ops {
				if w == nil || t.Failed() {
					return
				}
				if mod != nil {
					mod(&o)
				}
				w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", name, k))
				w.Complete(t.Run)
				w.Agree(t, o.String(), nil)
				for _, i := range w.Leaves() {
					w.Observe(t, i, "p")
				}
			}
			if t.Failed() {
				return
			}
			if ls := w.Leaves(); len(ls) > 0 {
				if w = w.StepLib(t, ls[0], 2, name); w != nil {
					w.Agree(t, "library invitation", nil)
				}
			}
		}})
	}
	members := func(t *eng.T, s ref.Suite, id []byte, name string, epoch uint64, o ref.PartyOpts, ctx func(*ref.Ctx)) *eng.World {
		ring := ref.NewRing()
		var ps []*ref.Party
		for i := 0; i < 3; i++ {
			ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/%d", name, i), o))
		}
		g := ref.CreateGroup(ring, s, id, ps[0], ref.NewRng("p", name))
		g.Tree.AddLeaf(ps[1].KP.Leaf)
		g.Tree.AddLeaf(ps[2].KP.Leaf)
		if ctx != nil {
			ctx(&g.Ctx)
		}
		return eng.FromModel(t, eng.Reseed(g, epoch, name), name, ps, nil)
	}
	for _, e := range []uint64{0, 1, 254, 255, 256, 65534, 65535, 1<<24 - 1, 1<<31 - 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1<<63 - 3, 1<<63 - 1, 1<<64 - 16} {
		e := e
		name := fmt.Sprintf("epoch/%d", e)
		run(name, func(t *eng.T) *eng.World { return members(t, 1, gid, name, e, ref.PartyOpts{}, nil) }, nil)
	}
	for _, l := range []int{0, 1, 31, 32, 33, 63, 64, 65, 255, 256, 16383, 16384, 70000} {
		l := l
		id := ref.NewRng("id", l).Bytes(l)
		name := fmt.Sprintf("gid/%d", l)
		run(name, func(t *eng.T) *eng.World { return members(t, 1, id, name, 5, ref.PartyOpts{}, nil) }, nil)
		name2 := fmt.Sprintf("identity/%d", l)
		run(name2, func(t *eng.T) *eng.World {
			return members(t, 1, gid, name2, 5, ref.PartyOpts{Cred: ref.Cred{Type: ref.CredBasic, Identity: id}}, nil)
		}, nil)
		name3 := fmt.Sprintf("aad/%d", l)
		run(name3, func(t *eng.T) *eng.World { return members(t, 1, gid, name3, 5, ref.PartyOpts{}, nil) }, func(o *eng.Op) { o.AAD = string(id) })
		name4 := fmt.Sprintf("pad/%d", l)
		run(name4, func(t *eng.T) *eng.World { return members(t, 1, gid, name4, 5, ref.PartyOpts{}, nil) }, func(o *eng.Op) { o.Pad, o.Priv = l, true })
	}
	for _, gen := range []int{1, 2, 17, 255, 256, 1000, 65536} {
		gen := gen
		name := fmt.Sprintf("generation/%d", gen)
		run(name, func(t *eng.T) *eng.World { return members(t, 1, gid, name, 5, ref.PartyOpts{}, nil) }, func(o *eng.Op) { o.GenStep, o.Priv = gen, true })
	}
	exts := []ref.Ext{{Type: 0xff01, Data: []byte("x")}, {Type: ref.ExtApplicationID, Data: nil}, {Type: 0xff02, Data: make([]byte, 300)}}
	run("leaf-extensions", func(t *eng.T) *eng.World {
		return members(t, 1, gid, "leaf-extensions", 5, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
			kp.Leaf.Exts = exts
			kp.Exts = exts[:1]
			kp.Leaf.Caps.Exts = []uint16{0xff02, 0xff01, 0xff01, 0x0a0a}
			kp.Leaf.Caps.Props = []uint16{0xff07, 0x1a1a}
			kp.Leaf.Caps.Suites = append(kp.Leaf.Caps.Suites, 0x2a2a, 5)
			kp.Leaf.Caps.Versions = append(kp.Leaf.Caps.Versions, 7)
			kp.Leaf.Caps.Creds = append(kp.Leaf.Caps.Creds, 0x3a3a, 1)
		}}, nil)
	}, nil)
	run("context-extensions", func(t *eng.T) *eng.World {
		return members(t, 1, gid, "context-extensions", 5, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
			kp.Leaf.Caps.Exts = []uint16{0xff01, 0xff02}
		}}, func(c *ref.Ctx) { c.Exts = []ref.Ext{exts[0], exts[2]} })
	}, nil)
}

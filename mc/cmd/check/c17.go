package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C17"] = check{"model_checking", eng.Meta{
		Rule: "a state is a node of the tree of epochs that arises when every one of several concurrent commits is adopted by some members, to depth two or three; a transition is one message of one node offered to one library member at a node; it must be accepted exactly if the nodes coincide; a trace is the comparison of a member with the model after it was offered everything belonging to the other nodes",
		Assumptions: []string{
			"members at different nodes are deep copies of the same library groups",
		},
	}, c17}
}

// branch is an epoch in the tree of epochs.
type branch struct {
	name  string
	depth int
	w     *eng.World
	kids  []*branch
	msgs  []attack // made in this epoch, other than the commits to its children
}

// rivals lists concurrent commits in a world.
func rivals(w *eng.World, few bool) (out []eng.Move) {
	members := w.M.Tree.Members()
	first, last := members[0], members[len(members)-1]
	add := func(o eng.Op) { out = append(out, eng.Move{Op: o}) }
	lib := func(by, n int) {
		if w.R[by] != nil {
			out = append(out, eng.Move{Op: eng.Op{By: by, Add: n}, Lib: true})
		}
	}
	add(eng.Op{By: last, Path: true})
	lib(first, 1)
	add(eng.Op{By: first, Add: 1, Priv: true})
	if len(members) > 2 {
		add(eng.Op{By: last, Rem: []int{members[1]}, Path: true, Ref: true})
	}
	if few {
		return out
	}
	for k, m := range members {
		add(eng.Op{By: m, Path: true, Priv: k%2 == 0})
		if k%2 == 0 {
			lib(m, 2)
		}
	}
	lib(last, 1)
	add(eng.Op{By: first, Path: true, AAD: "twin"})
	add(eng.Op{By: last, Add: 1, Path: true})
	add(eng.Op{By: first, Upd: []int{last}, Path: true, NewSig: true})
	if len(members) > 2 {
		add(eng.Op{By: first, Rem: []int{last}, Path: true, Priv: true})
		add(eng.Op{By: members[1], Rem: []int{first}, Add: 1, Path: true})
	}
	return out
}

func c17(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		depth int
	}
	confs := []conf{{"pair-path", 1, 2}, {"three", 1, 2}, {"unmerged", 1, 2}, {"hole", 1, 2}, {"three", 2, 1}, {"three", 3, 1}, {"three", 7, 1}, {"five-holes", 1, 1}, {"three@odd", 1, 2}, {"three@bare", 1, 2}, {"far", 1, 1}}
	if r.Thorough() {
		confs = []conf{{"pair-path", 1, 3}, {"three", 1, 3}, {"unmerged", 1, 2}, {"hole", 1, 3}, {"three", 2, 2}, {"three", 3, 2}, {"three", 7, 2}, {"five-holes", 1, 2}, {"eight", 1, 2}, {"refilled", 1, 2}, {"three@odd", 1, 3}, {"three@bare", 1, 2}, {"far", 1, 2}}
	}
	for _, c := range confs {
		c := c
		label := fmt.Sprintf("%s/s%d", c.shape, c.s)
		var all []*branch
		ok := setup(r, label, func(t *eng.T) {
			w := recipeOf(c.shape).build(t, c.s, gid)
			if w == nil {
				return
			}
			all = grow(t, &branch{name: label, w: w}, c.depth)
		})
		if !ok {
			continue
		}
		r.All(func(emit func(eng.Case)) {
			for _, b := range all {
				b := b
				emit(eng.Case{Name: b.name + "/node", Run: func(t *eng.T) { b.stand(t, all) }})
			}
		})
	}
}

// grow builds the tree of epochs below b.
func grow(t *eng.T, b *branch, depth int) []*branch {
	t.State()
	w := b.w
	members := w.M.Tree.Members()
	for k, m := range members {
		if k < 2 || k == len(members)-1 {
			b.msgs = append(b.msgs, attack{fmt.Sprintf("%s: message of %d", b.name, m), nil, w.M.App(m, []byte("text"), ref.Frame{Gen: uint32(k)})})
		}
	}
	prop := func(sender int, p *ref.Proposal, priv bool) {
		msg, _, _ := w.M.Propose(sender, p, ref.Frame{Private: priv, Gen: 5})
		b.msgs = append(b.msgs, attack{fmt.Sprintf("%s: proposal of %d", b.name, sender), nil, msg})
	}
	prop(members[0], ref.Remove(members[len(members)-1]), false)
	prop(members[len(members)-1], ref.Remove(members[0]), true)
	out := []*branch{b}
	if depth == 0 {
		return out
	}
	for k, m := range rivals(w, b.depth > 0) {
		name := fmt.Sprintf("%s/%d-%s", b.name, k, m)
		n, _ := w.Apply(t, m, name)
		if n == nil || t.Failed() {
			return out
		}
		n.Complete(t.Run)
		kid := &branch{name: name, depth: b.depth + 1, w: n}
		b.kids = append(b.kids, kid)
		out = append(out, grow(t, kid, depth-1)...)
		if t.Failed() {
			return out
		}
	}
	return out
}

// stand offers every message of every node to the members at b.
func (b *branch) stand(t *eng.T, all []*branch) {
	for _, i := range b.w.Leaves() {
		c := eng.Clone(b.w.R[i])
		offer := func(a attack) {
			t.Transition()
			t.Case(a.msg)
			if _, err := eng.Proc(c, a.msg); err == nil {
				t.Fail("leaf %d at %s accepts %s", i, b.name, a.name)
			} else if eng.Panicked(err) {
				t.Fail("leaf %d at %s: %s: %v", i, b.name, a.name, err)
			}
		}
		for _, o := range all {
			if o == b {
				continue
			}
			for _, a := range o.msgs {
				offer(a)
			}
			for _, k := range o.kids {
				for _, p := range k.w.Pre {
					offer(attack{name: k.name + ": proposal", msg: p})
				}
				if !eq(k.w.Commit, nil) {
					offer(attack{name: k.name + ": commit", msg: k.w.Commit})
				}
				if t.Failed() {
					return
				}
			}
		}
		if !reads(t, b.w.M, i, c, b.name) {
			return
		}
		for _, a := range b.msgs {
			t.Transition()
			if _, err := eng.Proc(eng.Clone(c), a.msg); err != nil && !own(b.w, i, a.msg) {
				t.Fail("leaf %d at %s rejects %s: %v", i, b.name, a.name, err)
				return
			}
		}
		// whichever comes first is adopted and the others are not
		for k, kid := range b.kids {
			if _, ok := kid.w.R[i]; !ok || kid.w.Kind[i] == 'r' || kid.w.M.Tree.Leaves[i] == nil || !eq(kid.w.M.Tree.Leaves[i].EncKey, b.w.M.Tree.Leaves[i].EncKey) {
				continue
			}
			n := eng.Clone(c)
			for _, p := range kid.w.Pre {
				eng.Proc(n, p)
			}
			// every rival's proposals have arrived as well
			for _, o := range b.kids {
				for _, p := range o.w.Pre {
					if o != kid {
						eng.Proc(n, p)
					}
				}
			}
			t.Transition()
			if _, err := eng.Proc(n, kid.w.Commit); err != nil {
				t.Fail("leaf %d rejects %s: %v", i, kid.name, err)
				return
			}
			for d := 1; d <= len(b.kids); d++ {
				o := b.kids[(k+d)%len(b.kids)]
				for _, p := range o.w.Pre {
					t.Transition()
					if _, err := eng.Proc(n, p); err == nil {
						t.Fail("leaf %d at %s accepts a proposal of the past", i, kid.name)
						return
					}
				}
				t.Transition()
				if _, err := eng.Proc(n, o.w.Commit); err == nil {
					t.Fail("leaf %d accepts %s after %s", i, o.name, kid.name)
					return
				}
			}
			if !reads(t, kid.w.M, i, n, kid.name) {
				return
			}
			for _, g := range kid.kids {
				if gg := g.w.R[i]; gg == nil || g.w.Kind[i] == 'r' || !eq(g.w.M.Tree.Leaves[i].EncKey, b.w.M.Tree.Leaves[i].EncKey) {
					continue
				}
				n := eng.Clone(n)
				for _, p := range g.w.Pre {
					eng.Proc(n, p)
				}
				if _, err := eng.Proc(n, g.w.Commit); err != nil {
					t.Fail("leaf %d rejects %s: %v", i, g.name, err)
					return
				}
				reads(t, g.w.M, i, n, g.name)
			}
		}
	}
}

// own tells whether a message was made in the name of leaf i.
func own(w *eng.World, i int, msg []byte) bool {
	rv, err := w.M.Receive(msg)
	return err == nil && rv.Sender == i
}

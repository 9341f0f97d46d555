package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C13"] = check{"model_checking", eng.Meta{
		Rule: "a state is a tree shape reached by a search over commits; every commit that removes members is a transition, followed by further epochs in which the position stays vacant, is reused or cut off; a trace is one message offered to a removed library member by the remaining ones or the other way round, including messages signed with the removed member's key under later secrets",
		Assumptions: []string{
			"the removed member keeps its library group and all its keys; stronger, some forgeries also use secrets of the later epoch",
		},
	}, c13}
}

// removed is a member after its removal.
type removed struct {
	leaf int
	sig  []byte
	g    *mls.Group // nil if it never had a library group
	old  *ref.Group // the last epoch it was in
	made [][]byte   // what it produced itself
}

// locked checks that the removed member gets nothing out of a message.
func (z *removed) locked(t *eng.T, msg []byte, what string) {
	if z.g == nil || msg == nil {
		return
	}
	t.Transition()
	t.Trace()
	if _, err := eng.Proc(z.g, msg); err == nil {
		t.Fail("removed leaf %d accepts %s", z.leaf, what)
	} else if eng.Panicked(err) {
		t.Fail("removed leaf %d: %s: %v", z.leaf, what, err)
	}
}

// messages are attempts of the removed member to be heard in w.
func (z *removed) messages(w *eng.World, label string) (out []attack) {
	add := func(name string, m []byte) { out = append(out, attack{name: name, msg: m}) }
	for k, m := range z.made {
		add(fmt.Sprintf("own message %d", k), m)
	}
	g, old := w.M, z.old
	epoch := func(c *ref.Content) { c.Epoch = g.Ctx.Epoch }
	friend := ref.NewParty(g.Ring, g.Suite, label+"/friend", ref.PartyOpts{})
	for _, typ := range []string{"application", "removal", "addition", "commit"} {
		for _, priv := range []bool{false, true} {
			if typ == "application" && !priv {
				continue
			}
			mk := func(b *ref.Group, f ref.Frame) []byte {
				f.Private = priv
				f.SignKey = z.sig
				switch typ {
				case "application":
					return b.App(z.leaf, []byte("let me in"), f)
				case "removal":
					m, _, _ := b.Propose(z.leaf, ref.Remove(g.Tree.Members()[0]), f)
					return m
				case "addition":
					m, _, _ := b.Propose(z.leaf, ref.Add(friend.KP), f)
					return m
				}
				// an addition without path needs no more than a signature
				c := g.Copy()
				res, err := c.Commit(ref.CommitOpts{Sender: z.leaf, List: inline(ref.Add(friend.KP)), Rng: ref.NewRng(label), Frame: f})
				if err != nil {
					eng.Harness("%v", err)
				}
				return res.Msg
			}
			add(typ+" with the old secrets", mk(old, ref.Frame{Content: epoch}))
			add(typ+" with the old secrets and context", mk(old, ref.Frame{Signed: func(a *ref.Auth) { epoch(&a.Content) }}))
			add(typ+" of the old epoch", mk(old, ref.Frame{}))
			add(typ+" with leaked secrets", mk(g, ref.Frame{}))
			add(typ+" with leaked secrets and old context", mk(g, ref.Frame{SignCtx: &old.Ctx}))
		}
	}
	return out
}

// mute checks that nothing from the removed member is accepted in w.
func (z *removed) mute(t *eng.T, w *eng.World, label string) {
	msgs := z.messages(w, label)
	for _, i := range w.Leaves() {
		c := eng.Clone(w.R[i])
		for _, a := range msgs {
			t.Transition()
			t.Trace()
			if _, err := eng.Proc(c, a.msg); err == nil {
				t.Fail("leaf %d in %s accepts %s of removed leaf %d", i, w.Key(), a.name, z.leaf)
				return
			} else if eng.Panicked(err) {
				t.Fail("leaf %d: %s of removed leaf %d: %v", i, a.name, z.leaf, err)
				return
			}
		}
	}
}

func c13(r *eng.Run) {
	start := func(s ref.Suite, name string) (out []eng.Node) {
		setup(r, fmt.Sprintf("%s/%d", name, s), func(t *eng.T) {
			if w := eng.NewWorld(t, s, gid, name); w != nil {
				out = []eng.Node{{W: w, Path: fmt.Sprintf("%s/s%d", name, s)}}
			}
		})
		return out
	}
	check := func(t *eng.T, from eng.Node, m eng.Move, to *eng.World, b *eng.Built) {
		if to == nil || b == nil || t.Failed() {
			return
		}
		if len(m.Rem) == 0 {
			return
		}
		aftermath(t, from, m.Op, to, b, from.Path+"/"+m.String())
	}
	r.Explore(start(1, "all4"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.AllOps(w, 4, 1, eng.OneFrame)
	}, nil, check)
	for _, s := range suites[1:] {
		r.Explore(start(s, "suite"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 3, 1, eng.OneFrame)
		}, nil, check)
	}
	var wide []eng.Node
	for _, n := range []string{"five", "five-holes", "eight", "refilled", "four-full@odd", "three@bare", "far", "deep"} {
		n := n
		setup(r, "wide/"+n, func(t *eng.T) {
			if w := recipeOf(n).build(t, 1, gid); w != nil {
				wide = append(wide, eng.Node{W: w, Path: "wide/" + n})
			}
		})
	}
	r.Explore(wide, 1, (*eng.World).Shape, func(w *eng.World) (out []eng.Move) {
		for _, m := range eng.SmallOps(w, 10, eng.OneFrame) {
			if len(m.Rem) > 0 {
				out = append(out, m)
			}
		}
		// whole halves
		ms := w.M.Tree.Members()
		out = append(out, eng.Move{Op: eng.Op{By: ms[0], Rem: ms[len(ms)/2:], Path: true}}, eng.Move{Op: eng.Op{By: ms[len(ms)-1], Rem: ms[:len(ms)/2], Path: true, Ref: true}})
		return out
	}, nil, check)
	if r.Thorough() {
		r.Explore(start(1, "frames"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.AllOps(w, 3, 2, eng.AllFrames)
		}, nil, check)
		r.Explore(start(1, "small5"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.SmallOps(w, 5, eng.OneFrame)
		}, nil, check)
	}
}

// aftermath follows a removal for some epochs.
func aftermath(t *eng.T, from eng.Node, o eng.Op, to *eng.World, b *eng.Built, label string) {
	var zs []*removed
	for _, x := range o.Rem {
		z := &removed{leaf: x, sig: from.W.M.SigPriv(x), old: from.W.M}
		if g := from.W.R[x]; g != nil {
			z.g = eng.Clone(g)
			if m, err := eng.Send(z.g, []byte("before")); err == nil {
				z.made = append(z.made, m)
			}
			if _, m, err := eng.InviteRaw(z.g, ref.NewParty(nil, to.M.Suite, label+"/pal", ref.PartyOpts{}).KP.Msg()); err == nil {
				z.made = append(z.made, m)
			}
			for _, p := range b.Proposals {
				eng.Proc(z.g, p)
			}
			for n := 0; n < 2; n++ {
				z.locked(t, b.Res.Msg, "the commit removing it")
			}
			if m, err := eng.Send(z.g, []byte("after")); err == nil {
				z.made = append(z.made, m)
			}
		}
		zs = append(zs, z)
	}
	// a committer that tries to keep the removed member on board by
	// encrypting path secrets to it
	for _, z := range zs {
		if z.g == nil || !o.Path {
			continue
		}
		rng := ref.NewRng("favour", label)
		enc := from.W.M.Tree.Leaves[z.leaf].EncKey
		var list []ref.PropOrRef
		for _, x := range o.Rem {
			list = append(list, ref.PropOrRef{Prop: ref.Remove(x)})
		}
		for n := 0; n < 2; n++ {
			var secret []byte
			res, err := from.W.M.Commit(ref.CommitOpts{Sender: o.By, Path: true, List: list, Rng: ref.NewRng("favour", label, n),
				PathSecret: func(i int, b []byte) []byte {
					if secret == nil {
						secret = b
					}
					return b
				},
				PathPost: func(p *ref.Path) {
					for k := range p.Nodes {
						kem, ct, err := to.M.Suite.SealHPKE(rng, enc, "UpdatePathNode", to.M.Ctx.Enc(), secret)
						if err != nil {
							eng.Harness("%v", err)
						}
						if n == 0 {
							p.Nodes[k].Cts = append(p.Nodes[k].Cts, ref.HPKECt{Kem: kem, Ct: ct})
						} else {
							p.Nodes[k].Cts = append([]ref.HPKECt{{Kem: kem, Ct: ct}}, p.Nodes[k].Cts...)
						}
					}
				}})
			if err != nil {
				eng.Harness("%v", err)
			}
			z.locked(t, res.Msg, "a commit removing it but encrypted to it")
		}
	}
	// without a path the removed members can compute the new secrets
	var list []ref.PropOrRef
	for _, x := range o.Rem {
		list = append(list, ref.PropOrRef{Prop: ref.Remove(x)})
	}
	for n, extra := range [][]ref.PropOrRef{nil, inline(ref.Add(ref.NewParty(to.M.Ring, to.M.Suite, label+"/instead", ref.PartyOpts{}).KP))} {
		res, err := from.W.M.Commit(ref.CommitOpts{Sender: o.By, List: append(extra, list...), Rng: ref.NewRng("pathless", label, n), Frame: ref.Frame{Private: o.Priv}})
		if err != nil {
			eng.Harness("%v", err)
		}
		for _, i := range from.W.Leaves() {
			if i == o.By {
				continue
			}
			t.Transition()
			t.Trace()
			if _, err := eng.Proc(eng.Clone(from.W.R[i]), res.Msg); err == nil {
				t.Fail("leaf %d accepts a removal of %v without path, which keeps no secret from them", i, o.Rem)
				return
			} else if eng.Panicked(err) {
				t.Fail("leaf %d: removal of %v without path: %v", i, o.Rem, err)
				return
			}
		}
	}
	epoch := func(w *eng.World, what string) {
		for _, z := range zs {
			for _, q := range w.M.Tree.Members() {
				z.locked(t, w.M.App(q, []byte("secret"), ref.Frame{Gen: 2}), "a message "+what)
				if t.Failed() {
					return
				}
			}
			z.mute(t, w, label+what)
			if t.Failed() {
				return
			}
		}
	}
	epoch(to, "after its removal")
	if t.Failed() || len(to.R) == 0 {
		return
	}
	to.Complete(t.Run)
	members := to.M.Tree.Members()
	first, last := members[0], members[len(members)-1]
	next := []eng.Move{
		{Op: eng.Op{By: last, Path: true}},
		{Op: eng.Op{By: first, Add: len(o.Rem), Path: true, Priv: true}},
		{Op: eng.Op{By: first, Add: 1}},
	}
	if to.R[last] != nil {
		next = append(next, eng.Move{Op: eng.Op{By: last, Add: len(o.Rem) + 1}, Lib: true})
	}
	for k, m := range next {
		// the quick tier alternates between the futures
		if !t.Thorough() && (k+len(label)+o.By)%len(next) > 1 {
			continue
		}
		nw, _ := to.Apply(t, m, fmt.Sprintf("%s/after%d", label, k))
		if nw == nil || t.Failed() {
			return
		}
		for _, z := range zs {
			for _, p := range nw.Pre {
				z.locked(t, p, "a later proposal")
			}
			z.locked(t, nw.Commit, "a later commit")
		}
		epoch(nw, fmt.Sprintf("after %v", m))
		if t.Failed() {
			return
		}
	}
	// coming back: the new group object works, the old one stays locked out
	z := zs[0]
	pub := from.W.M.Tree.Leaves[z.leaf].SigKey
	back := ref.NewParty(to.M.Ring, to.M.Suite, label+"/back", ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
		kp.Leaf.SigKey, kp.Leaf.Cred = pub, from.W.M.Tree.Leaves[z.leaf].Cred
		kp.Leaf.Caps = from.W.M.Tree.Leaves[z.leaf].Caps
	}})
	back.Priv.Sig = z.sig
	back.KP.Leaf.Sign(to.M.Suite, z.sig, nil, 0)
	back.KP.SignAs(to.M.Suite, z.sig)
	res, err := to.M.Commit(ref.CommitOpts{Sender: first, List: inline(ref.Add(back.KP)), Rng: ref.NewRng("back", label)})
	if err != nil {
		eng.Harness("%v", err)
	}
	for _, i := range to.Leaves() {
		c := eng.Clone(to.R[i])
		t.Transition()
		if _, err := eng.Proc(c, res.Msg); err != nil {
			t.Fail("leaf %d rejects the return of removed leaf %d: %v", i, z.leaf, err)
			return
		}
		for _, m := range z.made {
			if _, err := eng.Proc(c, m); err == nil {
				t.Fail("leaf %d accepts what leaf %d made before it was removed", i, z.leaf)
				return
			}
		}
		if !reads(t, res.Next, i, c, "return") {
			return
		}
	}
	z.locked(t, res.Msg, "the commit adding it again")
	for _, q := range res.Next.Tree.Members() {
		z.locked(t, res.Next.App(q, []byte("secret"), ref.Frame{}), "a message after it was added again")
	}
	wel, err := res.Next.Welcome(ref.WelcomeOpts{Signer: first, Parties: []*ref.KeyPackage{back.KP}, Rng: ref.NewRng("backw", label)})
	if err != nil {
		eng.Harness("%v", err)
	}
	g, err := eng.Join(wel.Msg(), back)
	if err != nil {
		t.Fail("removed leaf %d cannot join again: %v", z.leaf, err)
		return
	}
	reads(t, res.Next, leafOf(res.Next, back), g, "returned")
	t.Sample("removal", label)
}

package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C04"] = check{"model_checking", eng.Meta{
		Rule: "a state is a library group (a member of a group shape, fresh, busy or with proposals pending); a transition is one message it rejects, applied to the same object after all earlier ones; after each the object must be structurally identical to an undisturbed twin or else behave identically in a battery of continuations (reading, sending, following commits, committing the pending proposals, inviting); a trace is one such battery against the reference model",
		Assumptions: []string{
			"structural equality of all data reachable from two groups implies equal behaviour",
			"messages that are accepted are not this property's business",
		},
	}, c04}
}

// continuation is an honest commit and what it leads to.
type continuation struct {
	name string
	msg  []byte
	next *ref.Group
}

// bench is a library group under attack.
type bench struct {
	name   string
	w      *eng.World
	i      int
	base   *mls.Group // undisturbed
	conts  []continuation
	passed []*mls.Group
	runs   int
}

// newBench prepares a member in one of the starting conditions.
func newBench(t *eng.T, w *eng.World, i int, cond string, label string) *bench {
	b := &bench{name: fmt.Sprintf("%s/leaf%d/%s", label, i, cond), w: w, i: i, base: eng.Clone(w.R[i])}
	g := w.M
	oth := others(g.Tree.Members(), i)
	q := oth[0]
	if cond == "busy" {
		for k := 0; k < 3; k++ {
			eng.Send(b.base, []byte("before"))
		}
		p := ref.NewParty(nil, g.Suite, b.name+"/abandoned", ref.PartyOpts{})
		eng.InviteRaw(b.base, p.KP.Msg())
	}
	if cond == "pending" {
		rng := ref.NewRng(b.name)
		var list []ref.PropOrRef
		gens := map[int]uint32{}
		prop := func(sender int, p *ref.Proposal) {
			msg, pend, ng := g.Propose(sender, p, ref.Frame{Private: len(list)%2 == 1, Gen: gens[sender]})
			gens[sender]++
			g = ng
			list = append(list, ref.PropOrRef{Ref: pend.Ref})
			if _, err := eng.Proc(b.base, msg); err != nil {
				t.Count("valid proposal rejected")
			}
		}
		prop(q, ref.Add(ref.NewParty(g.Ring, g.Suite, b.name+"/pending", ref.PartyOpts{}).KP))
		if len(oth) > 1 {
			prop(oth[1], ref.UpdateWith(w.M.UpdateLeaf(oth[1], rng, nil, false)))
		}
		if len(oth) > 2 {
			prop(oth[1], ref.Remove(oth[2]))
		}
		b.commit("pending", g, ref.CommitOpts{Sender: q, List: list, Path: true})
		b.commit("pending-one", g, ref.CommitOpts{Sender: q, List: list[:1]})
	}
	add := ref.NewParty(g.Ring, g.Suite, b.name+"/later", ref.PartyOpts{})
	for _, m := range oth {
		b.commit(fmt.Sprintf("path-%d", m), w.M, ref.CommitOpts{Sender: m, Path: true, Frame: ref.Frame{Private: m%2 == 0}})
	}
	b.commit("add", w.M, ref.CommitOpts{Sender: q, List: inline(ref.Add(add.KP)), Frame: ref.Frame{Private: true, Gen: 1}})
	if len(oth) > 1 {
		b.commit("remove", w.M, ref.CommitOpts{Sender: q, List: inline(ref.Remove(oth[1]), ref.Add(add.KP)), Path: true})
	}
	return b
}

func (b *bench) commit(name string, g *ref.Group, o ref.CommitOpts) {
	o.Rng = ref.NewRng("cont", b.name, name)
	res, err := g.Commit(o)
	if err != nil {
		eng.Harness("%s: %v", name, err)
	}
	b.conts = append(b.conts, continuation{name, res.Msg, res.Next})
}

// battery compares a group that rejected messages with its undisturbed twin.
func (b *bench) battery(t *eng.T, c, twin *mls.Group, extra []continuation, what string) {
	t.Trace()
	t.State()
	g, i := b.w.M, b.i
	n := eng.Clone(c)
	for _, q := range others(g.Tree.Members(), i) {
		for _, gen := range []uint32{3, 0} {
			if data, err := eng.Proc(n, g.App(q, []byte(what), ref.Frame{Gen: gen})); err != nil || string(data) != what {
				t.Fail("%s: leaf %d no longer reads leaf %d: %v", what, i, q, err)
				return
			}
		}
	}
	tw := eng.Clone(twin)
	for k := 0; k < 2; k++ {
		m1, err1 := eng.Send(n, []byte(what))
		m2, err2 := eng.Send(tw, []byte(what))
		if err2 != nil {
			break
		}
		if err1 != nil {
			t.Fail("%s: leaf %d no longer sends: %v", what, i, err1)
			return
		}
		r1, err1 := g.Receive(m1)
		r2, err2 := g.Receive(m2)
		if err2 != nil {
			break
		}
		if err1 != nil || r1.Sender != r2.Sender || r1.Gen != r2.Gen || string(r1.App) != what {
			t.Fail("%s: leaf %d sends something else than before: %v", what, i, err1)
			return
		}
	}
	for _, k := range append(append([]continuation{}, b.conts...), extra...) {
		if _, err := eng.Proc(eng.Clone(twin), k.msg); err != nil {
			t.Count("continuation not available")
			continue
		}
		n := eng.Clone(c)
		if _, err := eng.Proc(n, k.msg); err != nil {
			t.Fail("%s: leaf %d then rejects the valid commit %q: %v", what, i, k.name, err)
			return
		}
		if !reads(t, k.next, i, n, what+" then "+k.name) {
			return
		}
		if (b.runs+i)%4 == 0 {
			follows(t, k.next, i, n, what+" then "+k.name)
		}
	}
	n = eng.Clone(c)
	p := ref.NewParty(g.Ring, g.Suite, "battery/"+b.name, ref.PartyOpts{})
	wel, commit, err := eng.InviteRaw(n, p.KP.Msg())
	if err != nil {
		if _, _, err := eng.InviteRaw(eng.Clone(twin), p.KP.Msg()); err == nil {
			t.Fail("%s: leaf %d no longer invites", what, i)
		}
		return
	}
	next := eng.CheckInvite(t, g, i, wel, commit, []*ref.Party{p}, what)
	if next == nil {
		return
	}
	if _, err := eng.Proc(n, commit); err != nil {
		t.Fail("%s: leaf %d then rejects its own invitation: %v", what, i, err)
		return
	}
	reads(t, next, i, n, what+" then inviting")
}

// salvo is a sequence of messages to be rejected after some accepted ones.
type salvo struct {
	name   string
	pre    [][]byte
	honest []continuation
	shots  []attack
	// later holds, by index of a shot, a commit that must not be accepted
	// just because the shot was delivered
	later map[int][]byte
}

func (b *bench) fire(t *eng.T, s salvo, finish bool) {
	twin := eng.Clone(b.base)
	for _, p := range s.pre {
		eng.Proc(twin, p)
	}
	live := eng.Clone(twin)
	what := b.name + "/" + s.name
	b.passed = nil
	b.runs = 0
	for k, a := range s.shots {
		t.Transition()
		t.Case(a.msg)
		_, err := eng.Proc(live, a.msg)
		if err == nil || eng.Panicked(err) {
			t.Count("not rejected")
			live = eng.Clone(twin)
			continue
		}
		t.Count("rejected")
		if l := s.later[k]; l != nil {
			if _, err := eng.Proc(eng.Clone(live), l); err == nil {
				t.Fail("%s: leaf %d commits the rejected proposal %s", what, b.i, a.name)
				return
			}
		}
		if eng.Same(live, twin) {
			continue
		}
		known := false
		for _, p := range b.passed {
			known = known || eng.Same(live, p)
		}
		if known {
			continue
		}
		b.runs++
		if b.runs > 40 && b.runs%40 != 0 {
			continue
		}
		t.Count("altered but examined")
		b.battery(t, live, twin, s.honest, what+"/"+a.name)
		if t.Failed() {
			return
		}
		b.passed = append(b.passed, eng.Clone(live))
	}
	if finish || !eng.Same(live, twin) {
		b.battery(t, live, twin, s.honest, what+"/all")
	}
}

func c04(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		from  []int
		rich  bool
	}
	confs := []conf{{"pair-path", 1, []int{0, 1}, true}, {"three", 1, []int{0, 2}, true}, {"unmerged", 1, []int{1, 3}, true}, {"five-holes", 1, []int{0, 4}, true}, {"hole", 1, []int{2}, true}, {"three", 2, []int{1}, false}, {"three", 3, []int{1}, false}, {"three", 7, []int{1}, false}, {"three@odd", 1, []int{2}, true}, {"three@bare", 1, []int{1}, true}, {"far", 1, []int{255}, false}}
	if r.Thorough() {
		confs = append(confs, conf{"eight", 1, []int{0, 5}, true}, conf{"refilled", 1, []int{3, 6}, true}, conf{"four-blank", 1, []int{0, 3}, true}, conf{"four-full", 1, []int{1, 2}, true},
			conf{"five", 1, []int{0, 1, 2, 3, 4}, true}, conf{"unmerged", 2, []int{0}, true}, conf{"unmerged", 7, []int{0}, true}, conf{"unmerged", 3, []int{0}, true})
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			c := c
			label := fmt.Sprintf("%s/s%d", c.shape, c.s)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			for fi, from := range c.from {
				from, fi := from, fi
				emitSalvos(w, from, fmt.Sprintf("%s/from%d", label, from), c.rich, func(name string, mk func() []salvo) {
					for k, i := range w.Leaves() {
						i := i
						conds := []string{"plain"}
						if c.rich {
							conds = append(conds, []string{"pending", "busy"}[(k+fi)%2])
						}
						if r.Thorough() {
							conds = []string{"plain", "pending", "busy"}
						}
						for _, cond := range conds {
							cond := cond
							emit(eng.Case{Name: fmt.Sprintf("%s/from%d/%s/leaf%d/%s", label, from, name, i, cond), Run: func(t *eng.T) {
								b := newBench(t, w, i, cond, fmt.Sprintf("%s/from%d", label, from))
								list := mk()
								for n, s := range list {
									b.fire(t, s, n == len(list)-1 || len(s.shots) > 30)
									if t.Failed() {
										return
									}
								}
								t.Sample("salvo", t.Name)
							}})
						}
					}
				})
			}
		}
	})
}

// emitSalvos lists the classes of messages a member must reject.
func emitSalvos(w *eng.World, from int, label string, rich bool, emit func(name string, mk func() []salvo)) {
	g := w.M
	sp := specimens(w, from, label)
	emit("forged", func() (out []salvo) {
		for _, s := range sp {
			out = append(out, salvo{name: s.name, pre: s.pre, shots: forgeries(w, s, label)})
		}
		return out
	})
	emit("wire", func() (out []salvo) {
		for _, s := range sp {
			honest := s.msg()
			v := salvo{name: s.name, pre: s.pre}
			for off := range honest {
				v.shots = append(v.shots, attack{fmt.Sprintf("byte %d", off), nil, flipBit(honest, off, uint(off%8))})
				if off%3 == 0 {
					v.shots = append(v.shots, attack{fmt.Sprintf("cut %d", off), nil, honest[:off]})
				}
			}
			out = append(out, v)
		}
		return out
	})
	emit("proposals", func() []salvo { return forgedProposals(w, from, label) })
	for _, o := range commitKinds(w, from) {
		for _, priv := range []bool{false, true} {
			o := o
			o.Priv, o.RefPriv = priv, priv
			emit("divergent/"+o.String(), func() []salvo {
				honest, res, faults := commitFaults(w, o, label+"/"+o.String())
				v := salvo{name: o.String(), pre: honest.pre, honest: []continuation{{"honest", honest.msg, res.Next}}}
				for _, f := range faults {
					a, _ := f.mk()
					v.shots = append(v.shots, a)
				}
				// the removed, the updated and the committer cannot follow
				v.shots = append(v.shots, honest)
				return []salvo{v}
			})
		}
	}
	if !rich {
		return
	}
	emit("lists", func() (out []salvo) {
		letters := alphabet(w, from, label)
		flat := salvo{name: "inline"}
		n := 0
		one := func(list []letter) {
			n++
			path, byRef := n%4 > 0, n%2 == 0
			if permitted(g, from, list, path) != mustReject {
				return
			}
			name := names(list)
			a, res := framed(g, from, list, path, byRef, n%3 == 0, label+name, nil)
			if res == nil {
				return
			}
			if len(a.pre) > 0 {
				out = append(out, salvo{name: name, pre: a.pre, shots: []attack{a}})
			} else {
				flat.shots = append(flat.shots, a)
			}
		}
		for _, x := range letters {
			one([]letter{x})
			for _, y := range letters {
				one([]letter{x, y})
			}
		}
		return append(out, flat)
	})
	emit("entries", func() (out []salvo) {
		oth := others(g.Tree.Members(), from)
		u := oth[len(oth)-1]
		flat := salvo{name: "inline"}
		one := func(e entry, path, byRef, priv bool) {
			if e.valid {
				return
			}
			a, res := e.commit(g, from, u, path, byRef, priv, label+e.name)
			if res == nil {
				return
			}
			if len(a.pre) > 0 {
				out = append(out, salvo{name: e.name, pre: a.pre, shots: []attack{a}})
			} else {
				flat.shots = append(flat.shots, a)
			}
		}
		for k, e := range addEntries(g, from, false, false, label) {
			one(e, k%2 == 0 || e.hook != nil, k%3 == 0, k%4 < 2)
		}
		for k, e := range updateEntries(g, u, from, false, label) {
			one(e, true, true, k%2 == 0)
		}
		for k, e := range pathEntries(g, from, false, label) {
			one(e, true, false, k%2 == 0)
		}
		return append(out, flat)
	})
	emit("foreign", func() []salvo {
		v := salvo{name: "foreign"}
		add := func(name string, m []byte) { v.shots = append(v.shots, attack{name, nil, m}) }
		res, err := g.Commit(ref.CommitOpts{Sender: from, Path: true, Rng: ref.NewRng("foreign", label)})
		if err != nil {
			eng.Harness("%v", err)
		}
		old := eng.Reseed(g, g.Ctx.Epoch-1, label+"/old")
		otherID := eng.Reseed(g, g.Ctx.Epoch, label+"/other")
		otherID.Ctx.GroupID = []byte("another group")
		same := eng.Reseed(g, g.Ctx.Epoch, label+"/same")
		for _, x := range []struct {
			name string
			g    *ref.Group
		}{{"next", res.Next}, {"previous", old}, {"other", otherID}, {"namesake", same}} {
			w2 := &eng.World{M: x.g}
			for _, s := range specimens(w2, from, label+"/"+x.name) {
				for _, p := range s.pre {
					add(x.name+"/"+s.name+"/pre", p)
				}
				add(x.name+"/"+s.name, s.msg())
			}
		}
		p := ref.NewParty(nil, g.Suite, label+"/kp", ref.PartyOpts{})
		add("key package", p.KP.Msg())
		wel, err := g.Welcome(ref.WelcomeOpts{Signer: from, Parties: []*ref.KeyPackage{p.KP}, Rng: ref.NewRng("w", label)})
		if err == nil {
			add("welcome", wel.Msg())
		}
		add("empty", nil)
		for k := 0; k < 256; k++ {
			add("short", []byte{0, byte(k)})
			add("short", []byte{0, 1, 0, byte(k)})
		}
		add("public application", g.AppPublic(from, []byte("clear"), ref.Frame{}))
		return []salvo{v}
	})
}

func flipBit(b []byte, off int, bit uint) []byte {
	b = append([]byte{}, b...)
	b[off] ^= 1 << bit
	return b
}

// forgedProposals are proposals that must be rejected, with commits by another
// member that refer to them.
func forgedProposals(w *eng.World, from int, label string) []salvo {
	g := w.M
	s := g.Suite
	v := salvo{name: "forged-proposals", later: map[int][]byte{}}
	oth := others(g.Tree.Members(), from)
	q := oth[0]
	_, stranger := s.SigPair(ref.NewRng("stranger", label).Bytes(32))
	old := g.Ctx
	old.Epoch--
	frames := []struct {
		name string
		f    ref.Frame
	}{
		{"stranger", ref.Frame{SignKey: stranger}},
		{"other member", ref.Frame{SignKey: g.SigPriv(q)}},
		{"old context", ref.Frame{SignCtx: &old}},
		{"wire format", ref.Frame{SignWF: 0x7777}},
		{"no tag", ref.Frame{MemberTag: func(b []byte) []byte { return nil }}},
		{"wrong tag", ref.Frame{MemberTag: func(b []byte) []byte { return flipByte(b, 3) }}},
		{"wrong key", ref.Frame{MACKey: make([]byte, s.Nh())}},
	}
	n := 0
	for pi, p := range []*ref.Proposal{
		ref.Add(ref.NewParty(g.Ring, s, label+"/forged", ref.PartyOpts{}).KP),
		ref.Remove(from),
		ref.UpdateWith(g.UpdateLeaf(from, ref.NewRng("fu", label), nil, false)),
	} {
		for _, x := range frames {
			for _, priv := range []bool{false, true} {
				if priv && (x.f.MemberTag != nil || x.f.MACKey != nil) {
					continue
				}
				f := x.f
				f.Private = priv
				msg, pend, ng := g.Propose(from, p, f)
				v.shots = append(v.shots, attack{fmt.Sprintf("%s %d", x.name, pi), nil, msg})
				res, err := ng.Commit(ref.CommitOpts{Sender: q, List: []ref.PropOrRef{{Ref: pend.Ref}}, Path: true, Rng: ref.NewRng("fc", label, n), Frame: ref.Frame{Private: n%2 == 0}})
				if err != nil {
					eng.Harness("%v", err)
				}
				v.later[n] = res.Msg
				n++
			}
		}
	}
	return []salvo{v}
}

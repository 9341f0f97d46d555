package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C05"] = check{"model_checking", eng.Meta{
		Rule: "a state is a library group after a sequence of sends, invitations, failing invitations and receptions (of messages and proposals) on one object; all sequences up to a length are run; a transition is one call; a trace is one continuation after the sequence (every message read, every invitation adopted by creator, member and invitees, a commit of another member adopted) compared with the reference model",
		Assumptions: []string{
			"continuations of one sequence are run on deep copies of the object",
		},
	}, c05}
}

// outstanding is an invitation handed out by the library.
type outstanding struct {
	ps       []*ref.Party
	wel      *mls.Welcome
	raw      []byte // encoding of wel when it was made
	commit   []byte
	snapshot []byte
	kps      []mls.KeyPackage
	kpRaw    [][]byte
}

// prepared is what a sequence of calls on one object left behind.
type prepared struct {
	g        *mls.Group
	texts    [][]byte
	msgs     [][]byte
	snaps    [][]byte
	inv      []outstanding
	received int
	m        *ref.Group      // knows the proposals received
	pending  []ref.PropOrRef // references to them
}

// prep performs the calls in seq on g.
func prep(t *eng.T, w *eng.World, i int, g *mls.Group, seq []byte, label string, pool []*ref.Party) *prepared {
	p := &prepared{g: g, m: w.M}
	oth := others(w.M.Tree.Members(), i)
	next := 0
	for k, c := range seq {
		t.Transition()
		switch c {
		case 's':
			text := []byte(fmt.Sprintf("%s %d", label, k))
			in := append([]byte{}, text...)
			msg, err := eng.Send(g, in)
			if err != nil {
				t.Fail("%s: send %d: %v", label, k, err)
				return nil
			}
			if !eq(in, text) {
				t.Fail("%s: send %d alters its argument", label, k)
			}
			p.texts = append(p.texts, text)
			p.msgs = append(p.msgs, msg)
			p.snaps = append(p.snaps, append([]byte{}, msg...))
		case '1', '2', '3':
			var o outstanding
			for n := 0; n < int(c-'0'); n++ {
				// invitations may overlap in whom they invite
				o.ps = append(o.ps, pool[(next+n)%len(pool)])
			}
			next++
			for _, q := range o.ps {
				kp, err := mls.UnmarshalKeyPackage(q.KP.Msg())
				if err != nil {
					t.Fail("%s: valid key package rejected: %v", label, err)
					return nil
				}
				o.kps = append(o.kps, *kp)
				o.kpRaw = append(o.kpRaw, kp.Bytes())
			}
			wel, commit, err := eng.Invite(g, o.kps)
			if err != nil {
				t.Fail("%s: invitation %d: %v", label, k, err)
				return nil
			}
			o.wel, o.raw = wel, append([]byte{}, wel.Bytes()...)
			o.commit, o.snapshot = commit, append([]byte{}, commit...)
			p.inv = append(p.inv, o)
		case 'f':
			bad := ref.NewParty(nil, w.M.Suite, label+"/bad", ref.PartyOpts{Post: func(kp *ref.KeyPackage) { kp.Signature = flipByte(kp.Signature, 5) }})
			if k%2 == 1 {
				bad = ref.NewParty(nil, otherSuite(w.M.Suite), label+"/bad", ref.PartyOpts{})
			}
			if _, _, err := eng.InviteRaw(g, pool[0].KP.Msg(), bad.KP.Msg()); eng.Panicked(err) {
				t.Fail("%s: invalid invitation %d: %v", label, k, err)
				return nil
			}
		case 'r':
			q := oth[p.received%len(oth)]
			data, err := eng.Proc(g, w.M.App(q, []byte(label), ref.Frame{Gen: uint32(p.received)}))
			if err != nil || string(data) != label {
				t.Fail("%s: reading leaf %d at step %d: %v", label, q, k, err)
				return nil
			}
			p.received++
		case 'p':
			n := len(p.pending)
			q := oth[n%len(oth)]
			guest := ref.NewParty(w.M.Ring, w.M.Suite, fmt.Sprintf("proposed%d", n), ref.PartyOpts{})
			msg, pend, m := p.m.Propose(q, ref.Add(guest.KP), ref.Frame{Private: n%2 == 1, Gen: uint32(n)})
			if _, err := eng.Proc(g, msg); err != nil {
				t.Fail("%s: proposal of leaf %d at step %d: %v", label, q, k, err)
				return nil
			}
			p.m, p.pending = m, append(p.pending, ref.PropOrRef{Ref: pend.Ref})
		}
	}
	return p
}

// settle runs every continuation of a sequence.
func (p *prepared) settle(t *eng.T, w *eng.World, i int, label string, deep bool) {
	m := w.M
	oth := others(m.Tree.Members(), i)
	for k := range p.msgs {
		t.Trace()
		if !eq(p.msgs[k], p.snaps[k]) {
			t.Fail("%s: message %d altered by later calls", label, k)
		}
		rv, err := m.Receive(p.msgs[k])
		if err != nil || rv.Sender != i || !eq(rv.App, p.texts[k]) {
			t.Fail("%s: message %d unreadable: %v", label, k, err)
			return
		}
	}
	if deep && len(oth) > 0 {
		// a library member reads them all, backwards
		if g, ok := w.R[oth[len(oth)-1]]; ok {
			c := eng.Clone(g)
			for k := len(p.msgs) - 1; k >= 0; k-- {
				if data, err := eng.Proc(c, p.msgs[k]); err != nil || !eq(data, p.texts[k]) {
					t.Fail("%s: message %d unreadable for leaf %d: %v", label, k, oth[len(oth)-1], err)
				}
			}
		}
	}
	c := eng.Clone(p.g)
	for _, q := range oth {
		if data, err := eng.Proc(c, m.App(q, []byte(label), ref.Frame{Gen: 9})); err != nil || string(data) != label {
			t.Fail("%s: leaf %d no longer reads leaf %d: %v", label, i, q, err)
			return
		}
	}
	for k, o := range p.inv {
		what := fmt.Sprintf("%s adopting %d", label, k)
		if !eq(o.commit, o.snapshot) || !eq(o.wel.Bytes(), o.raw) {
			t.Fail("%s: altered by later calls", what)
			return
		}
		for n := range o.kps {
			if !eq(o.kps[n].Bytes(), o.kpRaw[n]) {
				t.Fail("%s: key package altered", what)
			}
		}
		next := eng.CheckInvite(t, m, i, o.raw, o.commit, o.ps, what)
		if next == nil {
			return
		}
		c := eng.Clone(p.g)
		if _, err := eng.Proc(c, o.commit); err != nil {
			t.Fail("%s: creator rejects it: %v", what, err)
			return
		}
		if !reads(t, next, i, c, what) {
			return
		}
		if deep {
			follows(t, next, i, c, what)
			for _, q := range oth {
				if g, ok := w.R[q]; ok {
					n := eng.Clone(g)
					if _, err := eng.Proc(n, o.commit); err != nil {
						t.Fail("%s: leaf %d rejects it: %v", what, q, err)
						return
					}
					reads(t, next, q, n, what)
					break
				}
			}
		}
		for n, q := range o.ps {
			kpp, err := eng.KeyPair(q)
			if err != nil {
				t.Fail("%s: %v", what, err)
				return
			}
			g, err := join(o.wel, kpp)
			if err != nil {
				t.Fail("%s: invitee %d cannot join: %v", what, n, err)
				return
			}
			reads(t, next, leafOf(next, q), g, what+" newcomer")
		}
	}
	var list []int
	if len(oth) > 0 {
		list = []int{oth[len(label)%len(oth)]}
		if deep {
			list = oth
		}
	}
	for n, q := range list {
		what := fmt.Sprintf("%s then commit by %d", label, q)
		o := ref.CommitOpts{Sender: q, Path: true, Rng: ref.NewRng(what), Frame: ref.Frame{Private: n%2 == 0, Gen: 99}, List: p.pending}
		if len(oth) > 1 && n%2 == 1 {
			o.List = append(inline(ref.Remove(others(oth, q)[0])), p.pending...)
		}
		res, err := p.m.Commit(o)
		if err != nil {
			eng.Harness("%v", err)
		}
		c := eng.Clone(p.g)
		if _, err := eng.Proc(c, res.Msg); err != nil {
			t.Fail("%s: rejected: %v", what, err)
			return
		}
		if !reads(t, res.Next, i, c, what) {
			return
		}
		if n == 0 {
			follows(t, res.Next, i, c, what)
		}
		// what was prepared for the old epoch is void
		for k, o := range p.inv {
			if _, err := eng.Proc(c, o.commit); err == nil {
				t.Fail("%s: then accepts its own earlier invitation %d", what, k)
			}
		}
	}
}

// join is GroupFromWelcome on an existing Welcome value.
func join(w *mls.Welcome, kpp *mls.KeyPairPackage) (g *mls.Group, err error) {
	defer func() {
		if p := recover(); p != nil {
			g, err = nil, fmt.Errorf("PANIC: %v", p)
		}
	}()
	return mls.GroupFromWelcome(w, kpp)
}

// leafOf finds a party's leaf.
func leafOf(g *ref.Group, p *ref.Party) int {
	for i, l := range g.Tree.Leaves {
		if l != nil && eq(l.EncKey, p.KP.Leaf.EncKey) {
			return i
		}
	}
	return -1
}

// words enumerates all words over an alphabet up to a length.
func words(alphabet string, max int, f func(w []byte)) {
	var rec func(w []byte)
	rec = func(w []byte) {
		f(append([]byte{}, w...))
		if len(w) == max {
			return
		}
		for i := range alphabet {
			rec(append(w, alphabet[i]))
		}
	}
	rec(nil)
}

func c05(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		who   []int
		max   int
	}
	confs := []conf{{"pair-path", 1, []int{0, 1}, 4}, {"three", 1, []int{1}, 4}, {"unmerged", 1, []int{3}, 4}, {"hole", 1, []int{0, 2, 3}, 3}, {"unmerged", 1, []int{0, 1, 2}, 3}, {"five-holes", 1, []int{0, 5}, 3}, {"four-blank", 1, []int{2}, 3},
		{"three", 2, []int{0}, 2}, {"three", 3, []int{0}, 2}, {"three", 7, []int{0}, 2}, {"three@odd", 1, []int{1}, 3}, {"hole@bare", 1, []int{3}, 3}, {"far", 1, []int{257}, 2}, {"deep", 1, []int{1}, 1}}
	if r.Thorough() {
		for k := range confs {
			confs[k].max++
		}
		confs = append(confs, conf{"eight", 1, []int{0, 3, 7}, 4}, conf{"refilled", 1, []int{3, 6}, 4})
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			c := c
			label := fmt.Sprintf("%s/s%d", c.shape, c.s)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			var pool []*ref.Party
			for k := 0; k < 4; k++ {
				pool = append(pool, ref.NewParty(w.M.Ring, c.s, fmt.Sprintf("%s/pool%d", label, k), ref.PartyOpts{}))
			}
			for _, i := range c.who {
				i := i
				g, ok := w.R[i]
				if !ok {
					continue
				}
				n := 0
				words("s12frp", c.max, func(seq []byte) {
					n++
					name := fmt.Sprintf("%s/leaf%d/%s-", label, i, seq)
					deep := n%5 == 0
					emit(eng.Case{Name: name, Run: func(t *eng.T) {
						t.State()
						if p := prep(t, w, i, eng.Clone(g), seq, name, pool); p != nil {
							p.settle(t, w, i, name, deep)
						}
						t.Sample("sequence", name)
					}})
				})
				// long histories
				for k, seq := range []string{repeat("s", 300), repeat("1", 40), repeat("s1r", 30), repeat("ps1", 20), repeat("fs2", 20), repeat("f", 50) + "s1"} {
					seq := seq
					name := fmt.Sprintf("%s/leaf%d/long%d", label, i, k)
					emit(eng.Case{Name: name, Run: func(t *eng.T) {
						t.State()
						if p := prep(t, w, i, eng.Clone(g), []byte(seq), name, pool); p != nil {
							if len(p.inv) > 6 {
								p.inv = append(p.inv[:3:3], p.inv[len(p.inv)-3:]...)
							}
							p.settle(t, w, i, name, false)
						}
					}})
				}
			}
		}
		// a group of one, straight from creation
		for _, s := range suites {
			s := s
			words("s123f", r.Pick(3, 4), func(seq []byte) {
				name := fmt.Sprintf("alone/s%d/%s-", s, seq)
				emit(eng.Case{Name: name, Run: func(t *eng.T) { alone(t, s, seq, name) }})
			})
		}
	})
}

func repeat(s string, n int) (out string) {
	for ; n > 0; n-- {
		out += s
	}
	return out
}

// alone runs a sequence on a freshly created group, of which the model learns
// through the invitations only.
func alone(t *eng.T, s ref.Suite, seq []byte, label string) {
	t.State()
	ring := ref.NewRing()
	me := ref.NewParty(ring, s, "alone/me", ref.PartyOpts{})
	kpp, err := eng.KeyPair(me)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	before := kpp.Public.Bytes()
	g, err := mls.CreateGroup(mls.GroupID("solo"), kpp)
	if err != nil {
		t.Fail("creating a group: %v", err)
		return
	}
	var pool []*ref.Party
	for k := 0; k < 4; k++ {
		pool = append(pool, ref.NewParty(ring, s, fmt.Sprintf("alone/pool%d", k), ref.PartyOpts{}))
	}
	m := ref.CreateGroup(ring, s, []byte("solo"), me, ref.NewRng("alone"))
	w := &eng.World{M: m}
	p := prep(t, w, 0, g, seq, label, pool)
	if p == nil {
		return
	}
	if !eq(kpp.Public.Bytes(), before) || !eq(kpp.Private.EncryptionKey, me.Priv.Enc) || !eq(kpp.Private.SignatureKey, me.Priv.Sig) || !eq(kpp.Private.InitKey, me.Priv.Init) {
		t.Fail("%s: the creator's keys were altered", label)
	}
	for k, o := range p.inv {
		what := fmt.Sprintf("%s adopting %d", label, k)
		t.Trace()
		if !eq(o.commit, o.snapshot) || !eq(o.wel.Bytes(), o.raw) {
			t.Fail("%s: altered by later calls", what)
			return
		}
		pw, err := ref.ParseWelcome(o.raw)
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		j, err := ref.Join(ring, pw, o.ps[0], nil)
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		c := eng.Clone(g)
		if _, err := eng.Proc(c, o.commit); err != nil {
			t.Fail("%s: creator rejects it: %v", what, err)
			return
		}
		if !reads(t, j.Group, 0, c, what) {
			return
		}
		follows(t, j.Group, 0, c, what)
		for _, q := range o.ps {
			kpp, err := eng.KeyPair(q)
			if err != nil {
				t.Fail("%s: %v", what, err)
				return
			}
			n, err := join(o.wel, kpp)
			if err != nil {
				t.Fail("%s: invitee cannot join: %v", what, err)
				return
			}
			reads(t, j.Group, leafOf(j.Group, q), n, what+" newcomer")
		}
	}
	// repeatedly inviting and adopting from the same object
	for n := 0; n < 2; n++ {
		q := pool[n+2]
		if n > 0 {
			q = ref.NewParty(ring, s, label+"/more", ref.PartyOpts{})
		}
		if _, commit, err := eng.InviteRaw(g, q.KP.Msg()); err != nil {
			t.Fail("%s: cannot invite: %v", label, err)
		} else if _, err := eng.Proc(g, commit); err != nil {
			t.Fail("%s: cannot adopt: %v", label, err)
		}
	}
}

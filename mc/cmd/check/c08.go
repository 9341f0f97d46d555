package main

import (
	"fmt"
	"sort"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C08"] = check{"model_checking", eng.Meta{
		Rule: "a state is a tree shape reached by a search over commits; in each, every library member invites one to three newcomers (transitions); a trace is an invitation whose commit and Welcome the reference model decodes to the prescribed state, which every member reaches with the commit and every invitee with the Welcome, and with which nobody else can join",
		Assumptions: []string{
			"members behave the same in two states with the same tree shape, up to the keys involved",
		},
	}, c08}
}

// checkNewMembers compares the refs a Welcome lists with the invitees.
func checkNewMembers(t *eng.T, wel *mls.Welcome, ps []*ref.Party, what string) {
	var got, want []string
	for _, r := range wel.NewMembers() {
		got = append(got, string(r))
	}
	for _, p := range ps {
		want = append(want, string(p.KP.Ref()))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("%s: Welcome lists %x, want %x", what, got, want)
	}
	for _, p := range ps {
		kp, err := mls.UnmarshalKeyPackage(p.KP.Msg())
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		r, err := kp.GenerateRef()
		if err != nil {
			t.Fail("%s: reference: %v", what, err)
			return
		}
		n := 0
		for _, x := range wel.NewMembers() {
			if x.Equal(r) {
				n++
			}
		}
		if n != 1 {
			t.Fail("%s: invitee listed %d times", what, n)
		}
	}
}

// invites lets member i invite ps and follows the invitation through.
func invites(t *eng.T, w *eng.World, i int, ps []*ref.Party, what string, deep bool) {
	t.Transition()
	c := eng.Clone(w.R[i])
	var kps []mls.KeyPackage
	for _, p := range ps {
		kp, err := mls.UnmarshalKeyPackage(p.KP.Msg())
		if err != nil {
			t.Fail("%s: valid key package rejected: %v", what, err)
			return
		}
		kps = append(kps, *kp)
	}
	wel, commit, err := eng.Invite(c, kps)
	if err != nil {
		t.Fail("%s: leaf %d cannot invite %d: %v", what, i, len(ps), err)
		return
	}
	raw := wel.Bytes()
	next := eng.CheckInvite(t, w.M, i, raw, commit, ps, what)
	if next == nil {
		return
	}
	checkNewMembers(t, wel, ps, what)
	again, err := mls.UnmarshalWelcome(raw)
	if err != nil {
		t.Fail("%s: Welcome does not decode: %v", what, err)
		return
	}
	checkNewMembers(t, again, ps, what)
	nw := &eng.World{M: next, R: map[int]*mls.Group{}, Kind: map[int]byte{}}
	for _, q := range w.Leaves() {
		g := c
		if q != i {
			g = eng.Clone(w.R[q])
		}
		if _, err := eng.Proc(g, commit); err != nil {
			t.Fail("%s: leaf %d rejects the invitation of leaf %d: %v", what, q, i, err)
			return
		}
		nw.R[q], nw.Kind[q] = g, w.Kind[q]
	}
	for n, p := range ps {
		kpp, err := eng.KeyPair(p)
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		src := wel
		if n%2 == 0 {
			src = again
		}
		g, err := join(src, kpp)
		if err != nil {
			t.Fail("%s: invitee %d of leaf %d cannot join: %v", what, n, i, err)
			return
		}
		li := leafOf(next, p)
		nw.R[li], nw.Kind[li] = g, 'w'
	}
	members := next.Tree.Members()
	var senders []int
	for _, k := range spread(len(members)) {
		senders = append(senders, members[k])
	}
	nw.Agree(t, what, senders)
	if t.Failed() {
		return
	}
	for n, q := range nw.Leaves() {
		if nw.Kind[q] == 'w' && w.R[q] == nil || q == i {
			if deep || n%3 == 0 {
				nw.Observe(t, q, what)
				follows(t, next, q, nw.R[q], what)
			}
		}
	}
	outsiders(t, w, i, ps, again, what)
}

// outsiders try to join from a Welcome that is not for them.
func outsiders(t *eng.T, w *eng.World, i int, ps []*ref.Party, wel *mls.Welcome, what string) {
	s := w.M.Suite
	victim := ps[len(ps)-1]
	stranger := ref.NewParty(nil, s, "stranger", ref.PartyOpts{})
	// another key package of the invitee, with the same signature key
	second := ref.NewParty(nil, s, "second of "+what, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
		kp.Leaf.SigKey, kp.Leaf.Cred = victim.KP.Leaf.SigKey, victim.KP.Leaf.Cred
	}})
	second.Priv.Sig = victim.Priv.Sig
	second.KP.Leaf.Sign(s, victim.Priv.Sig, nil, 0)
	second.KP.SignAs(s, victim.Priv.Sig)
	// one that differs in the init key only
	reinit := &ref.Party{KP: victim.KP.Copy(), Priv: victim.Priv}
	reinit.KP.InitKey, reinit.Priv.Init = stranger.KP.InitKey, stranger.Priv.Init
	reinit.KP.SignAs(s, victim.Priv.Sig)
	with := func(init []byte) *ref.Party {
		p := &ref.Party{KP: victim.KP, Priv: victim.Priv}
		p.Priv.Init = init
		return p
	}
	own := func(enc, sig []byte) *ref.Party {
		p := &ref.Party{KP: stranger.KP, Priv: stranger.Priv}
		if enc != nil {
			p.Priv.Enc = enc
		}
		if sig != nil {
			p.Priv.Sig = sig
		}
		return p
	}
	tries := []struct {
		name string
		p    *ref.Party
	}{
		{"stranger", stranger},
		{"stranger with the invitee's keys", own(victim.Priv.Enc, victim.Priv.Sig)},
		{"second key package", second},
		{"other init key", reinit},
		{"wrong init secret", with(stranger.Priv.Init)},
		{"encryption key as init secret", with(victim.Priv.Enc)},
		{"init secret of second", with(second.Priv.Init)},
	}
	if len(ps) > 1 {
		tries = append(tries, struct {
			name string
			p    *ref.Party
		}{"other invitee's init secret", with(ps[0].Priv.Init)})
	}
	for _, x := range tries {
		kpp, err := eng.KeyPair(x.p)
		if err != nil {
			eng.Harness("%s: %v", x.name, err)
		}
		t.Transition()
		if _, err := join(wel, kpp); err == nil {
			t.Fail("%s: %s joins", what, x.name)
			return
		}
	}
	// members are not invitees
	for _, m := range w.M.Tree.Members() {
		l := w.M.Tree.Leaves[m]
		enc, sig := w.M.Ring.Enc(l.EncKey), w.M.Ring.Sig(l.SigKey)
		if enc == nil || sig == nil {
			continue
		}
		p := &ref.Party{KP: stranger.KP.Copy(), Priv: ref.Priv{Init: stranger.Priv.Init, Enc: enc, Sig: sig}}
		p.KP.Leaf = l
		p.KP.SignAs(s, sig)
		kpp, err := eng.KeyPair(p)
		if err != nil {
			continue
		}
		t.Transition()
		if _, err := join(wel, kpp); err == nil {
			t.Fail("%s: member %d joins", what, m)
			return
		}
	}
}

// crowdInvited lets member i invite many at once, of whom some join.
func crowdInvited(t *eng.T, w *eng.World, i int, ps []*ref.Party) {
	t.Transition()
	var kps []mls.KeyPackage
	for _, p := range ps {
		kp, err := mls.UnmarshalKeyPackage(p.KP.Msg())
		if err != nil {
			t.Fail("valid key package rejected: %v", err)
			return
		}
		kps = append(kps, *kp)
	}
	wel, commit, err := eng.Invite(w.R[i], kps)
	if err != nil {
		t.Fail("leaf %d cannot invite %d: %v", i, len(ps), err)
		return
	}
	checkNewMembers(t, wel, ps, "crowd")
	next, _, err := w.M.Process(commit)
	if err != nil {
		t.Fail("model rejects the invitation of %d: %v", len(ps), err)
		return
	}
	nw := &eng.World{M: next, R: map[int]*mls.Group{}, Kind: map[int]byte{}}
	for _, q := range w.Leaves() {
		if _, err := eng.Proc(w.R[q], commit); err != nil {
			t.Fail("leaf %d rejects the invitation of %d: %v", q, len(ps), err)
			return
		}
		nw.R[q], nw.Kind[q] = w.R[q], w.Kind[q]
	}
	for _, k := range []int{0, 63, 128, 254, 255, 256} {
		kpp, err := eng.KeyPair(ps[k])
		if err != nil {
			t.Fail("%v", err)
			return
		}
		g, err := join(wel, kpp)
		if err != nil {
			t.Fail("invitee %d of %d cannot join: %v", k, len(ps), err)
			return
		}
		li := leafOf(next, ps[k])
		nw.R[li], nw.Kind[li] = g, 'w'
	}
	nw.Agree(t, "crowd", nw.Leaves())
}

func c08(r *eng.Run) {
	start := func(s ref.Suite, name string) (out []eng.Node) {
		setup(r, fmt.Sprintf("%s/%d", name, s), func(t *eng.T) {
			if w := eng.NewWorld(t, s, gid, name); w != nil {
				out = []eng.Node{{W: w, Path: fmt.Sprintf("%s/s%d", name, s)}}
			}
		})
		return out
	}
	state := func(t *eng.T, n eng.Node) {
		for _, i := range n.W.Leaves() {
			for k := 1; k <= 3; k++ {
				var ps []*ref.Party
				for j := 0; j < k; j++ {
					ps = append(ps, ref.NewParty(n.W.M.Ring, n.W.M.Suite, fmt.Sprintf("%s/%d/%d/%d", n.Path, i, k, j), ref.PartyOpts{}))
				}
				invites(t, n.W, i, ps, fmt.Sprintf("%s leaf %d inviting %d", n.W.Shape(), i, k), false)
				if t.Failed() {
					return
				}
			}
		}
	}
	r.Explore(start(1, "small"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
		return eng.SmallOps(w, r.Pick(4, 5), eng.OneFrame)
	}, state, nil)
	for _, s := range suites[1:] {
		r.Explore(start(s, "suite"), 0, (*eng.World).Shape, func(w *eng.World) []eng.Move {
			return eng.SmallOps(w, 3, eng.OneFrame)
		}, state, nil)
	}
	r.All(func(emit func(eng.Case)) {
		// shapes further out
		for _, x := range []string{"five", "five-holes", "eight", "refilled", "three@odd", "hole@odd", "unmerged@bare"} {
			x := x
			emit(eng.Case{Name: "shape/" + x, Run: func(t *eng.T) {
				t.State()
				if w := recipeOf(x).build(t, 1, gid); w != nil {
					state(t, eng.Node{W: w, Path: "shape/" + x})
				}
			}})
		}
		// many newcomers
		ns := []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 70}
		if r.Thorough() {
			ns = append(ns, 10, 12, 20, 32, 63, 65, 127, 129)
		}
		for _, n := range ns {
			for _, x := range []string{"pair-path", "hole", "five-holes", "eight"} {
				n, x := n, x
				name := fmt.Sprintf("many/%s/%d", x, n)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					t.State()
					w := recipeOf(x).build(t, 1, gid)
					if w == nil {
						return
					}
					var ps []*ref.Party
					for j := 0; j < n; j++ {
						ps = append(ps, ref.NewParty(w.M.Ring, 1, fmt.Sprintf("%s/%d", name, j), ref.PartyOpts{}))
					}
					invites(t, w, w.Leaves()[n%len(w.Leaves())], ps, name, false)
				}})
			}
		}
		emit(eng.Case{Name: "many/257", Run: func(t *eng.T) {
			t.State()
			w := recipeOf("pair-path").build(t, 1, gid)
			if w == nil {
				return
			}
			var ps []*ref.Party
			for j := 0; j < 257; j++ {
				ps = append(ps, ref.NewParty(w.M.Ring, 1, fmt.Sprintf("many/257/%d", j), ref.PartyOpts{}))
			}
			crowdInvited(t, w, 1, ps)
		}})
		// members far apart
		for _, at := range [][]int{{0, 127, 128}, {1, 255, 256}, {2, 257, 300}, {0, 1, 2, 1024}, {1, 65536}, {0, 1, 2, 4, 8, 16, 32, 64}} {
			for _, n := range []int{1, 2} {
				at, n := at, n
				name := fmt.Sprintf("far/%v/%d", at, n)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					t.State()
					w := farWorld(t, 1, at, name)
					if w == nil {
						return
					}
					var ps []*ref.Party
					for j := 0; j < n; j++ {
						ps = append(ps, ref.NewParty(w.M.Ring, 1, fmt.Sprintf("%s/%d", name, j), ref.PartyOpts{}))
					}
					if at[len(at)-1] < 2000 {
						invites(t, w, at[n%len(at)], ps, name, false)
					}
					if n == 1 {
						invites(t, w, at[len(at)-1], ps, name, false)
					}
				}})
			}
		}
		// creators and those they invite invite in turn
		for _, s := range suites {
			for step := 1; step <= 3; step++ {
				s, step := s, step
				name := fmt.Sprintf("turns/s%d/%d", s, step)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					w := eng.NewWorld(t, s, gid, name)
					for k := 0; k < r.Pick(8, 20) && w != nil && !t.Failed(); k++ {
						t.State()
						ls := w.Leaves()
						by := ls[len(ls)-1]
						if k%3 == 2 {
							by = ls[k%len(ls)]
						}
						w = w.StepLib(t, by, step, fmt.Sprintf("%s/%d", name, k))
						if w != nil && k%2 == 0 {
							w.Agree(t, name, nil)
						}
					}
				}})
			}
		}
		// newcomers of all kinds
		kinds := map[string]ref.PartyOpts{
			"key package extension": {Mut: func(kp *ref.KeyPackage) { kp.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("x")}} }},
			"leaf extension": {Mut: func(kp *ref.KeyPackage) {
				kp.Leaf.Exts = []ref.Ext{{Type: 0xff01}}
				kp.Leaf.Caps.Exts = []uint16{0xff01}
			}},
			"capabilities": {Mut: func(kp *ref.KeyPackage) {
				kp.Leaf.Caps.Suites = []uint16{1, 2, 3, 7, 0x1a1a}
				kp.Leaf.Caps.Props = []uint16{9, 0x2a2a}
				kp.Leaf.Caps.Creds = []uint16{2, 1, 0x3a3a}
			}},
			"empty identity":          {Cred: ref.Cred{Type: ref.CredBasic}},
			"long identity":           {Cred: ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 20000)}},
			"identity 63":             {Cred: ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 63)}},
			"identity 64":             {Cred: ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 64)}},
			"identity 16383":          {Cred: ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 16383)}},
			"identity 16384":          {Cred: ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 16384)}},
			"short life":              {Mut: func(kp *ref.KeyPackage) { kp.Leaf.NotAfter = uint64(ref.Now().Unix()) + 7200 }},
			"the identity of another": {Cred: ref.Basic("kinds/same")},
		}
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, s := range suites {
				k, s := k, s
				emit(eng.Case{Name: fmt.Sprintf("kind/%s/s%d", k, s), Run: func(t *eng.T) {
					t.State()
					w := recipeOf("three").build(t, s, gid)
					if w == nil {
						return
					}
					for n := 1; n <= 2; n++ {
						var ps []*ref.Party
						for j := 0; j < n; j++ {
							ps = append(ps, ref.NewParty(w.M.Ring, s, fmt.Sprintf("kind/%s/%d/%d", k, n, j), kinds[k]))
						}
						for _, i := range w.Leaves() {
							invites(t, w, i, ps, k, true)
						}
					}
				}})
			}
		}
		// key packages the library generated itself
		for _, s := range suites {
			s := s
			name := fmt.Sprintf("generated/s%d", s)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				t.State()
				w := recipeOf("three").build(t, s, gid)
				if w == nil {
					return
				}
				for k := 0; k < r.Pick(6, 30); k++ {
					var ps []*ref.Party
					for j := 0; j <= k%3; j++ {
						kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s), mls.NewBasicCredential([]byte(fmt.Sprint("gen", k, j))))
						if err != nil {
							t.Fail("generating: %v", err)
							return
						}
						p, err := eng.Party(kpp)
						if err != nil {
							t.Fail("generated key package: %v", err)
							return
						}
						w.M.Ring.PutEnc(p.KP.Leaf.EncKey, p.Priv.Enc)
						w.M.Ring.PutSig(p.KP.Leaf.SigKey, p.Priv.Sig)
						ps = append(ps, p)
					}
					invites(t, w, w.Leaves()[k%3], ps, name, true)
				}
			}})
		}
	})
}

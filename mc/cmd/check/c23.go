package main

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"math/big"
	"testing/cryptotest"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C23"] = check{"model_checking", eng.Meta{
		Rule: "a state is a word of calls performed by twins: copies of one library group, or groups founded with the same key package and name, which differ in nothing but the randomness they are given; all words up to a length are run and all pairs of twins are compared; a transition is one call; a trace is a message or invitation opened by the reference model to see the values the library drew",
		Assumptions: []string{
			"randomness comes from a fixed stream per case; values that repeat among twins do so because the library does not draw them, or draws too little",
		},
	}, c23}
}

// draws collects the values drawn by twins.
type draws struct {
	t    *eng.T
	what string
	used map[string]string    // key, generation and guard
	kem  map[string]string    // sealings
	r    map[string]string    // signatures by their first half
	at   map[string][4][]byte // bytes of guards seen at a step
}

func newDraws(t *eng.T, what string) *draws {
	return &draws{t, what, map[string]string{}, map[string]string{}, map[string]string{}, map[string][4][]byte{}}
}

// message looks at an encrypted message sent in the epoch of m.
func (d *draws) message(m *ref.Group, msg []byte, who, step string) bool {
	d.t.Trace()
	rv, err := m.Receive(msg)
	if err != nil {
		d.t.Fail("%s: %s %s: unreadable: %v", d.what, who, step, err)
		return false
	}
	if !rv.Priv {
		return true
	}
	d.guard(rv, who, step)
	d.signature(m.Suite, rv.Auth.Sig, who+" "+step)
	return !d.t.Failed()
}

func (d *draws) guard(rv *ref.Received, who, step string) {
	id := fmt.Sprint(rv.Sender, rv.Auth.Content.Type == ref.CTApplication, rv.Gen, rv.Guard)
	if prev := d.used[id]; prev != "" {
		d.t.Fail("%s: %s %s uses the key and nonce of %s", d.what, who, step, prev)
	}
	d.used[id] = who + " " + step
	a := d.at[step]
	for i := range a {
		if bytes.IndexByte(a[i], rv.Guard[i]) < 0 {
			a[i] = append(a[i][:len(a[i]):len(a[i])], rv.Guard[i])
		}
	}
	d.at[step] = a
}

// signature checks that no two different signatures share their random part.
func (d *draws) signature(s ref.Suite, sig []byte, who string) {
	var x struct{ R, S *big.Int }
	if s == 2 || s == 7 {
		if _, err := asn1.Unmarshal(sig, &x); err != nil {
			d.t.Fail("%s: %s: signature: %v", d.what, who, err)
			return
		}
		if prev, ok := d.r[x.R.String()]; ok && prev != x.S.String() {
			d.t.Fail("%s: %s: two signatures with one nonce", d.what, who)
		}
		d.r[x.R.String()] = x.S.String()
	}
}

// welcome looks at how an invitation is sealed.
func (d *draws) welcome(raw []byte, who string) *ref.Welcome {
	d.t.Trace()
	w, err := ref.ParseWelcome(raw)
	if err != nil {
		d.t.Fail("%s: %s: %v", d.what, who, err)
		return nil
	}
	for k, es := range w.Secrets {
		if prev := d.kem[string(es.Ct.Kem)]; prev != "" {
			d.t.Fail("%s: %s seals entry %d like %s", d.what, who, k, prev)
			return nil
		}
		d.kem[string(es.Ct.Kem)] = fmt.Sprintf("%s entry %d", who, k)
	}
	return w
}

// varied checks that every byte of the guards differs among the twins.
func (d *draws) varied() {
	for step, a := range d.at {
		for i, v := range a {
			if len(v) < 2 {
				d.t.Fail("%s: byte %d of the guard is the same for all twins (%s)", d.what, i, step)
				return
			}
		}
	}
}

func c23(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		who   []int
		max   int
	}
	confs := []conf{{"pair-path", 1, []int{0, 1}, 4}, {"three", 1, []int{0, 2}, 3}, {"unmerged", 1, []int{3}, 3}, {"five-holes", 1, []int{1, 5}, 3}, {"refilled", 1, []int{3}, 3},
		{"three", 2, []int{1}, 3}, {"three", 3, []int{2}, 3}, {"three", 7, []int{1}, 2}, {"three@odd", 1, []int{1}, 3}, {"three@bare", 1, []int{0}, 3}, {"far", 1, []int{257}, 2}}
	if r.Thorough() {
		for k := range confs {
			confs[k].max++
		}
	}
	twins := r.Pick(10, 16)
	seed := uint64(0)
	do := func(name string, f func(t *eng.T)) {
		seed++
		n := 5000 + seed
		r.Do(eng.Case{Name: name, Run: func(t *eng.T) {
			cryptotest.SetGlobalRandom(tt, n)
			f(t)
		}})
	}
	newcomers := func(s ref.Suite, label string, n int) (out []*ref.Party) {
		for k := 0; k < n; k++ {
			out = append(out, ref.NewParty(nil, s, fmt.Sprintf("%s/new%d", label, k), ref.PartyOpts{}))
		}
		return out
	}

	// copies of one member, as after restoring a backup
	for _, c := range confs {
		label := fmt.Sprintf("copies/%s/s%d", c.shape, c.s)
		var w *eng.World
		setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
		if w == nil {
			continue
		}
		ps := newcomers(c.s, label, 2)
		for _, i := range c.who {
			if w.R[i] == nil {
				continue
			}
			words("sij", c.max, func(seq []byte) {
				if len(seq) == 0 {
					return
				}
				word := string(seq)
				name := fmt.Sprintf("%s/leaf%d/%s", label, i, word)
				do(name, func(t *eng.T) {
					t.State()
					d := newDraws(t, name)
					for k := 0; k < twins; k++ {
						g := eng.Clone(w.R[i])
						who := fmt.Sprintf("twin %d", k)
						for n, c := range word {
							if !d.call(g, w.M, byte(c), ps, who, fmt.Sprintf("step %d", n)) {
								return
							}
						}
					}
					d.varied()
					t.Sample("word", name)
				})
			})
		}
	}

	// groups founded alike
	for _, s := range suites {
		label := fmt.Sprintf("founded/s%d", s)
		founder := ref.NewParty(nil, s, label+"/founder", ref.PartyOpts{})
		ps := newcomers(s, label, 2)
		words("sij", r.Pick(3, 4), func(seq []byte) {
			word := string(seq)
			if word == "" || word[len(word)-1] == 's' && bytes.IndexByte(seq, 's') == len(seq)-1 && len(seq) > 1 {
				return
			}
			name := label + "/" + word
			do(name, func(t *eng.T) {
				t.State()
				d := newDraws(t, name)
				var groups []*mls.Group
				var said [][]byte
				epochs := map[string]int{}
				for k := 0; k < twins; k++ {
					t.Transition()
					g, err := eng.Create(gid, founder)
					if err != nil {
						t.Fail("%s: %v", name, err)
						return
					}
					groups = append(groups, g)
					who := fmt.Sprintf("twin %d", k)
					for n, c := range word {
						t.Transition()
						if c == 's' {
							msg, err := eng.Send(g, []byte("text"))
							if err != nil {
								t.Fail("%s: %s: %v", name, who, err)
								return
							}
							if n == len(word)-1 || word[n+1:] == "i" || word[n+1:] == "j" {
								said = append(said, msg)
							}
							continue
						}
						invited := ps[:1]
						if c == 'j' {
							invited = ps
						}
						j := d.invite(g, invited, who)
						if j == nil {
							return
						}
						if prev, ok := epochs[string(j.Group.Epoch)]; ok && prev != k {
							t.Fail("%s: twins %d and %d lead to one epoch", name, prev, k)
							return
						}
						epochs[string(j.Group.Epoch)] = k
						if guess := predicted(j); guess != "" {
							t.Fail("%s: %s: the secret of the invitation follows from %s", name, who, guess)
							return
						}
						d.signature(s, j.Info.Signature, who)
					}
				}
				// nobody else reads a founder talking to itself
				for a, msg := range said {
					for b, g := range groups {
						t.Transition()
						data, err := eng.Proc(g, msg)
						if a == b {
							if err != nil || string(data) != "text" {
								t.Fail("%s: twin %d cannot read itself: %v", name, a, err)
								return
							}
						} else if err == nil {
							t.Fail("%s: twin %d reads twin %d", name, b, a)
							return
						} else if eng.Panicked(err) {
							t.Fail("%s: %v", name, err)
							return
						}
					}
				}
				t.Sample("founded", name)
			})
		})
	}

	// with many twins, drawing only part of a secret shows as well
	for _, s := range []ref.Suite{1, 3} {
		s := s
		name := fmt.Sprintf("crowd/s%d", s)
		founder := ref.NewParty(nil, s, name+"/founder", ref.PartyOpts{})
		ps := newcomers(s, name, 1)
		do(name, func(t *eng.T) {
			t.State()
			d := newDraws(t, name)
			hashes := map[string]int{}
			for k := 0; k < r.Pick(1200, 6000) && !r.Done(); k++ {
				t.Transition()
				g, err := eng.Create(gid, founder)
				if err != nil {
					t.Fail("%s: %v", name, err)
					return
				}
				who := fmt.Sprintf("twin %d", k)
				j := d.invite(g, ps, who)
				if j == nil {
					return
				}
				// Everything else being equal and signatures deterministic, the
				// transcript differs by the founder's first epoch only.
				id := string(j.Group.Ctx.CTH)
				if prev, ok := hashes[id]; ok {
					t.Fail("%s: twins %d and %d share their first epoch", name, prev, k)
					return
				}
				hashes[id] = k
			}
		})
	}
	// a long conversation draws every bit of its guards
	for _, s := range suites {
		s := s
		name := fmt.Sprintf("bits/s%d", s)
		do(name, func(t *eng.T) {
			w := recipeOf("three").build(t, s, gid)
			if w == nil {
				return
			}
			t.State()
			g := eng.Clone(w.R[1])
			var ones, zeros [4]byte
			for k := 0; k < 100; k++ {
				t.Transition()
				t.Trace()
				msg, err := eng.Send(g, []byte("x"))
				if err != nil {
					t.Fail("%s: %v", name, err)
					return
				}
				rv, err := w.M.Receive(msg)
				if err != nil {
					t.Fail("%s: %v", name, err)
					return
				}
				for i, b := range rv.Guard {
					ones[i] |= b
					zeros[i] |= ^b
				}
			}
			if ones != zeros {
				t.Fail("%s: bits of the guard are never drawn: %x %x", name, ones, zeros)
			}
		})
	}
}

// call performs one step of a word on a copy of a member.
func (d *draws) call(g *mls.Group, m *ref.Group, c byte, ps []*ref.Party, who, step string) bool {
	d.t.Transition()
	if c == 's' {
		msg, err := eng.Send(g, []byte("text"))
		if err != nil {
			d.t.Fail("%s: %s %s: %v", d.what, who, step, err)
			return false
		}
		return d.message(m, msg, who, step)
	}
	var kps [][]byte
	if ps = ps[:1]; c == 'j' {
		ps = ps[:2]
	}
	for _, p := range ps {
		kps = append(kps, p.KP.Msg())
	}
	wel, commit, err := eng.InviteRaw(g, kps...)
	if err != nil {
		d.t.Fail("%s: %s %s: %v", d.what, who, step, err)
		return false
	}
	return d.message(m, commit, who, step) && d.welcome(wel, who+" "+step) != nil
}

// invite invites from a group the model does not know, and joins.
func (d *draws) invite(g *mls.Group, ps []*ref.Party, who string) *ref.Joined {
	var kps [][]byte
	for _, p := range ps {
		kps = append(kps, p.KP.Msg())
	}
	raw, _, err := eng.InviteRaw(g, kps...)
	if err != nil {
		d.t.Fail("%s: %s: %v", d.what, who, err)
		return nil
	}
	wel := d.welcome(raw, who)
	if wel == nil {
		return nil
	}
	j, err := ref.Join(ref.NewRing(), wel, ps[0], nil)
	if err != nil {
		d.t.Fail("%s: %s: cannot be joined: %v", d.what, who, err)
		return nil
	}
	return j
}

// predicted tries to compute the secret of an invitation into the second epoch
// of a group from what everybody knows.
func predicted(j *ref.Joined) string {
	g := j.Group
	s := g.Suite
	zero := make([]byte, s.Nh())
	for _, x := range []struct {
		what string
		init []byte
	}{
		{"nothing", nil}, {"zeros", zero}, {"ones", bytes.Repeat([]byte{0xff}, s.Nh())}, {"the name of the group", g.Ctx.GroupID},
		{"a group of zeros", s.Derive(zero, "init")}, {"the hash of the tree", g.Ctx.TreeHash}, {"the transcript", g.Ctx.CTH},
		{"a group without secrets", s.Derive(nil, "init")}, {"the confirmation", g.ConfTag},
	} {
		for _, commit := range [][]byte{zero, nil} {
			joiner := s.ExpandLabel(s.Extract(x.init, commit), "joiner", g.Ctx.Enc(), s.Nh())
			if bytes.Equal(joiner, j.Secrets.Joiner) {
				return x.what
			}
		}
	}
	return ""
}

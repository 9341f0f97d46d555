package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C18"] = check{"model_checking", eng.Meta{
		Rule: "a state is a library group after a word of sends, invitations, failed invitations, receptions, rejected messages and epoch changes on one object; all words up to a length are run; a transition is one call; a trace is a produced message opened by the reference model, which must carry the sender's own position and the next unused generation of the ratchet of its kind",
		Assumptions: []string{
			"a failed call may or may not use up a generation",
		},
	}, c18}
}

// ratchets follows the generations one member used.
type ratchets struct {
	m    *ref.Group
	i    int
	next [2]uint32 // application, handshake
	fuzz bool      // a call failed since the last message
	used map[string]bool
}

func (x *ratchets) enter(m *ref.Group) {
	x.m, x.next, x.fuzz, x.used = m, [2]uint32{}, false, map[string]bool{}
}

// saw checks a message the member produced.
func (x *ratchets) saw(t *eng.T, msg []byte, what string) {
	t.Trace()
	rv, err := x.m.Receive(msg)
	if err != nil {
		t.Fail("%s: unreadable: %v", what, err)
		return
	}
	if !rv.Priv {
		return
	}
	k := 0
	if rv.Auth.Content.Type != ref.CTApplication {
		k = 1
	}
	if rv.Sender != x.i {
		t.Fail("%s: sent as leaf %d", what, rv.Sender)
		return
	}
	id := fmt.Sprint(k, rv.Gen)
	if x.used[id] {
		t.Fail("%s: generation %d used twice", what, rv.Gen)
		return
	}
	x.used[id] = true
	if rv.Gen != x.next[k] && !(x.fuzz && rv.Gen > x.next[k] && rv.Gen < x.next[k]+1000) {
		t.Fail("%s: generation %d, want %d", what, rv.Gen, x.next[k])
		return
	}
	x.next[k] = rv.Gen + 1
}

func c18(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		who   []int
		max   int
	}
	confs := []conf{{"pair-path", 1, []int{1}, 5}, {"three", 1, []int{0}, 4}, {"unmerged", 1, []int{0, 1, 2, 3}, 3}, {"hole", 1, []int{0, 2, 3}, 3}, {"five-holes", 1, []int{0, 1, 4, 5}, 3}, {"refilled", 1, []int{3, 6}, 3}, {"eight", 1, []int{0, 7}, 3},
		{"three", 2, []int{1}, 3}, {"three", 3, []int{2}, 3}, {"three", 7, []int{1}, 3}, {"three@odd", 1, []int{1}, 3}, {"three@bare", 1, []int{0}, 3}, {"far", 1, []int{257}, 2}}
	if r.Thorough() {
		for k := range confs {
			confs[k].max++
		}
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			c := c
			label := fmt.Sprintf("%s/s%d", c.shape, c.s)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			for _, i := range c.who {
				i := i
				if w.R[i] == nil {
					continue
				}
				run := func(name string, seq []byte) {
					emit(eng.Case{Name: name, Run: func(t *eng.T) {
						t.State()
						x := &ratchets{i: i}
						x.enter(w.M)
						x.run(t, eng.Clone(w.R[i]), seq, name)
						t.Sample("word", name)
					}})
				}
				words("sifrxac", c.max, func(seq []byte) {
					// only words that end by producing something say anything new
					if n := len(seq); n > 0 && (seq[n-1] == 's' || seq[n-1] == 'i') {
						run(fmt.Sprintf("%s/leaf%d/%s-", label, i, seq), seq)
					}
				})
				for k, seq := range []string{repeat("s", 300), repeat("i", 60), repeat("si", 60), repeat("sa", 5) + repeat("is", 40), repeat("srcs", 20), repeat("siac", 12) + "si", repeat("six", 30)} {
					run(fmt.Sprintf("%s/leaf%d/long%d", label, i, k), []byte(seq))
				}
			}
		}
		// two library members of one group, and a recipient that discards keys
		for _, s := range suites {
			s := s
			name := fmt.Sprintf("all-members/s%d", s)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := recipeOf("five").build(t, s, gid)
				if w == nil {
					return
				}
				keys := map[string]string{}
				for _, i := range w.Leaves() {
					g := eng.Clone(w.R[i])
					for k := 0; k < 40; k++ {
						msg, err := eng.Send(g, []byte("x"))
						if k%4 == 3 {
							_, msg, err = eng.InviteRaw(g, ref.NewParty(nil, s, name, ref.PartyOpts{}).KP.Msg())
						}
						if err != nil {
							t.Fail("leaf %d: %v", i, err)
							return
						}
						rv, err := w.M.Receive(msg)
						if err != nil {
							t.Fail("leaf %d: %v", i, err)
							return
						}
						t.Trace()
						typ := "handshake"
						if rv.App != nil || rv.Auth.Content.Type == ref.CTApplication {
							typ = "application"
						}
						key, _ := ref.RatchetKey(s, ref.LeafSecret(s, s.Derive(w.M.Epoch, "encryption"), w.M.Tree.N, rv.Sender), typ, rv.Gen)
						if prev := keys[string(key)]; prev != "" {
							t.Fail("leaf %d message %d uses the key of %s", i, k, prev)
							return
						}
						keys[string(key)] = fmt.Sprintf("leaf %d message %d", i, k)
					}
				}
			}})
		}
	})
}

func (x *ratchets) run(t *eng.T, g *mls.Group, seq []byte, label string) {
	var last []byte
	var lastNext *ref.Group
	for k, c := range seq {
		if t.Failed() {
			return
		}
		t.Transition()
		what := fmt.Sprintf("%s step %d", label, k)
		oth := others(x.m.Tree.Members(), x.i)
		switch c {
		case 's':
			msg, err := eng.Send(g, []byte(what))
			if err != nil {
				t.Fail("%s: %v", what, err)
				return
			}
			x.saw(t, msg, what)
		case 'i', 'a':
			// a: adopt the latest invitation, making one if there is none
			if c == 'i' || last == nil {
				p := ref.NewParty(x.m.Ring, x.m.Suite, fmt.Sprintf("%s/new%d", label, k), ref.PartyOpts{})
				_, commit, err := eng.InviteRaw(g, p.KP.Msg())
				if err != nil {
					t.Fail("%s: %v", what, err)
					return
				}
				x.saw(t, commit, what)
				if t.Failed() {
					return
				}
				last = commit
				next, _, err := x.m.Process(commit)
				if err != nil {
					t.Fail("%s: %v", what, err)
					return
				}
				lastNext = next
			}
			if c == 'a' {
				if _, err := eng.Proc(g, last); err != nil {
					t.Fail("%s: adopting: %v", what, err)
					return
				}
				x.enter(lastNext)
				last = nil
			}
		case 'f':
			bad := ref.NewParty(nil, x.m.Suite, label+"/bad", ref.PartyOpts{Post: func(kp *ref.KeyPackage) { kp.Signature = flipByte(kp.Signature, 5) }})
			eng.InviteRaw(g, bad.KP.Msg())
			x.fuzz = true
		case 'r':
			// others' use of their ratchets does not move one's own
			for _, q := range oth {
				if _, err := eng.Proc(g, x.m.App(q, []byte("hi"), ref.Frame{Gen: uint32(k)})); err != nil {
					t.Fail("%s: %v", what, err)
					return
				}
			}
		case 'x':
			eng.Proc(g, x.m.App(oth[0], []byte("hi"), ref.Frame{Signed: func(a *ref.Auth) { a.Sig = nil }}))
			eng.Proc(g, nil)
		case 'c':
			q := oth[k%len(oth)]
			res, err := x.m.Commit(ref.CommitOpts{Sender: q, Path: true, Rng: ref.NewRng(what), Frame: ref.Frame{Private: k%2 == 0}})
			if err != nil {
				eng.Harness("%v", err)
			}
			if _, err := eng.Proc(g, res.Msg); err != nil {
				t.Fail("%s: %v", what, err)
				return
			}
			x.enter(res.Next)
			last = nil
		}
	}
}

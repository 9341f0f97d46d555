package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C07"] = check{"model_checking", eng.Meta{
		Rule: "a state is a pair of groups, or of epochs of one group, that coincide in members, keys, positions or identifiers; a transition is one message of the first, verbatim or wrapped again by an insider of the second, offered to a library member of the second, which must refuse it; a trace is a control showing that the message is accepted where it belongs and that the member still follows its own group",
		Assumptions: []string{
			"an insider of both groups can redo membership tags, encryption and confirmation tags but not signatures",
		},
	}, c07}
}

// pairing is a group variant related to a base group of the same members.
type pairing struct {
	name  string
	gid   []byte
	epoch uint64
	label string
	n     int
	exts  []ref.Ext
}

func c07(r *eng.Run) {
	base := []byte("group")
	long := make([]byte, 64)
	pairs := []pairing{
		{"other id", []byte("grouq"), 7, "x", 3, nil},
		{"empty id", nil, 7, "x", 3, nil},
		{"prefix", []byte("grou"), 7, "x", 3, nil},
		{"extended", []byte("group\x00"), 7, "x", 3, nil},
		{"case", []byte("Group"), 7, "x", 3, nil},
		{"long id", long, 7, "x", 3, nil},
		{"longer id", append(append([]byte{}, long...), 0), 7, "x", 3, nil},
		{"reversed", []byte("puorg"), 7, "x", 3, nil},
		{"next epoch", base, 8, "x", 3, nil},
		{"previous epoch", base, 6, "x", 3, nil},
		{"epoch zero", base, 0, "x", 3, nil},
		{"epoch +2^8", base, 7 + 1<<8, "x", 3, nil},
		{"epoch +2^16", base, 7 + 1<<16, "x", 3, nil},
		{"epoch +2^32", base, 7 + 1<<32, "x", 3, nil},
		{"epoch +2^63", base, 7 + 1<<63, "x", 3, nil},
		{"namesake", base, 7, "y", 3, nil},
		{"bigger namesake", base, 7, "x", 4, nil},
		{"pair namesake", base, 7, "x", 2, nil},
		{"extended context", base, 7, "x", 3, []ref.Ext{{Type: 0xff01, Data: []byte("e")}}},
	}
	suiteList := suites[:1]
	if r.Thorough() {
		suiteList = suites
	}
	r.All(func(emit func(eng.Case)) {
		for _, s := range suiteList {
			for _, moved := range []bool{false, true} {
				s, moved := s, moved
				label := fmt.Sprintf("s%d", s)
				if moved {
					label += "-moved"
				}
				ring := ref.NewRing()
				var ps []*ref.Party
				for i := 0; i < 4; i++ {
					ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("c07/%d", i), ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.Caps.Exts = []uint16{0xff01} }}))
				}
				build := func(t *eng.T, p pairing) *eng.World {
					g := ref.CreateGroup(ring, s, p.gid, ps[0], ref.NewRng("c07"))
					g.Tree = g.Tree.Copy()
					for _, q := range ps[1:p.n] {
						g.Tree.AddLeaf(q.KP.Leaf)
					}
					g.Ctx.Exts = p.exts
					w := eng.FromModel(t, eng.Reseed(g, p.epoch, p.label), "c07", ps, nil)
					if w != nil && moved {
						w, _ = w.Step(t, path(1), "c07/same")
						w.Complete(t.Run)
					}
					return w
				}
				var home *eng.World
				setup(r, label, func(t *eng.T) { home = build(t, pairing{"home", base, 7, "x", 3, nil}) })
				if home == nil {
					continue
				}
				for _, p := range pairs {
					p := p
					emit(eng.Case{Name: label + "/" + p.name, Run: func(t *eng.T) {
						away := build(t, p)
						if away == nil {
							return
						}
						t.State()
						crossing(t, home, away, label+"/"+p.name+"/out")
						crossing(t, away, home, label+"/"+p.name+"/in")
					}})
				}
				// pairs of the variants among themselves
				if !moved || r.Thorough() {
					for i := range pairs {
						for j := range pairs {
							a, b := pairs[i], pairs[j]
							if i == j {
								continue
							}
							emit(eng.Case{Name: label + "/" + a.name + " to " + b.name, Run: func(t *eng.T) {
								wa, wb := build(t, a), build(t, b)
								if wa == nil || wb == nil {
									return
								}
								t.State()
								verbatim(t, wa, wb, label)
							}})
						}
					}
				}
			}
		}
		epochs(r, emit)
		backlog(r, emit)
	})
}

// verbatim offers the messages of one group to the members of another.
func verbatim(t *eng.T, from, to *eng.World, label string) {
	for _, i := range to.Leaves() {
		c := eng.Clone(to.R[i])
		for _, q := range from.M.Tree.Members() {
			for _, s := range specimens(from, q, label) {
				for _, m := range append(append([][]byte{}, s.pre...), s.msg()) {
					t.Transition()
					t.Case(m)
					if _, err := eng.Proc(c, m); err == nil {
						t.Fail("%s of leaf %d accepted by leaf %d of the other group", s.name, q, i)
						return
					} else if eng.Panicked(err) {
						t.Fail("%s of leaf %d: leaf %d: %v", s.name, q, i, err)
						return
					}
				}
			}
		}
		if !reads(t, to.M, i, c, label) {
			return
		}
	}
}

// crossing offers messages signed in one group to the members of another,
// verbatim and wrapped again for the other group.
func crossing(t *eng.T, from, to *eng.World, label string) {
	verbatim(t, from, to, label)
	if t.Failed() {
		return
	}
	f, g := from.M, to.M
	for _, q := range g.Tree.Members() {
		if q >= f.Tree.N || f.Tree.Leaves[q] == nil || !eq(f.Tree.Leaves[q].SigKey, g.Tree.Leaves[q].SigKey) {
			continue
		}
		for _, s := range specimens(to, q, label) {
			as := func(c *ref.Content) { c.GroupID, c.Epoch = f.Ctx.GroupID, f.Ctx.Epoch }
			back := func(a *ref.Auth) { a.Content.GroupID, a.Content.Epoch = g.Ctx.GroupID, g.Ctx.Epoch }
			frames := []struct {
				name string
				f    ref.Frame
			}{
				{"signed there", ref.Frame{SignCtx: &f.Ctx, Content: as, Signed: back}},
				{"signed there, header and all", ref.Frame{SignCtx: &f.Ctx, Content: as}},
				{"signed there, tag there", ref.Frame{SignCtx: &f.Ctx, Content: as, Signed: back, MACKey: f.Suite.Derive(f.Epoch, "membership")}},
				{"context of there", ref.Frame{SignCtx: &f.Ctx}},
				{"header of there", ref.Frame{Content: as}},
				{"group of there", ref.Frame{Content: func(c *ref.Content) { c.GroupID = f.Ctx.GroupID }}},
				{"epoch of there", ref.Frame{Content: func(c *ref.Content) { c.Epoch = f.Ctx.Epoch }}},
				{"keys of there", ref.Frame{EncEpoch: f.Epoch, MACKey: f.Suite.Derive(f.Epoch, "membership")}},
				{"tag over context of there", ref.Frame{MACCtx: &f.Ctx}},
			}
			for _, x := range frames {
				if s.priv && x.f.MACCtx != nil || !s.priv && x.name == "keys of there" && eq(f.Epoch, g.Epoch) {
					continue
				}
				if x.f.Content != nil && x.f.SignCtx == nil {
					// an honest message if the field does not differ
					var c ref.Content
					c.GroupID, c.Epoch = g.Ctx.GroupID, g.Ctx.Epoch
					x.f.Content(&c)
					if eq(c.GroupID, g.Ctx.GroupID) && c.Epoch == g.Ctx.Epoch {
						continue
					}
				}
				a := attack{s.name + " " + x.name, s.pre, s.make(x.f)}
				for _, i := range to.Leaves() {
					refuses(t, to, i, a)
				}
			}
			if s.remake != nil {
				// leaves of the path signed for the other group
				if !eq(f.Ctx.GroupID, g.Ctx.GroupID) {
					for _, i := range to.Leaves() {
						a := attack{s.name + " leaf of there", s.pre, s.remake(func(o *ref.CommitOpts) {
							o.LeafGID = append([]byte{}, f.Ctx.GroupID...)
							if o.LeafGID == nil {
								o.LeafGID = []byte{}
							}
						})}
						if s.name == "commit-path-public" || s.name == "commit-path-private" {
							refuses(t, to, i, a)
						}
					}
				}
			}
			// control: it is accepted as made
			for _, i := range to.Leaves() {
				if i == q || s.typ == ref.CTCommit && len(s.pre) > 0 {
					continue
				}
				c := eng.Clone(to.R[i])
				t.Transition()
				if _, err := eng.Proc(c, s.msg()); err != nil {
					t.Fail("%s of leaf %d rejected by leaf %d at home: %v", s.name, q, i, err)
				}
				t.Trace()
			}
			if t.Failed() {
				return
			}
		}
	}
}

// backlog leaves many proposals unused at the end of an epoch, then commits
// each of them in the next.
func backlog(r *eng.Run, emit func(eng.Case)) {
	for _, n := range []int{1, 20, 70, 300} {
		for _, kind := range []string{"path", "add", "one"} {
			n, kind := n, kind
			name := fmt.Sprintf("backlog/%d/%s", n, kind)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := recipeOf("three").build(t, 1, gid)
				if w == nil {
					return
				}
				for _, i := range w.Leaves() {
					w.R[i] = eng.Clone(w.R[i])
				}
				base := w.M
				for k := 0; k < n; k++ {
					msg, _, g := base.Propose(k%2, ref.Remove(2), ref.Frame{Private: k%3 == 0, Gen: uint32(k), AAD: []byte(fmt.Sprint(k))})
					base = g
					for _, i := range w.Leaves() {
						if _, err := eng.Proc(w.R[i], msg); err != nil && i != k%2 {
							t.Fail("leaf %d: proposal %d: %v", i, k, err)
							return
						}
					}
				}
				o := ref.CommitOpts{Sender: 0, Path: true, Rng: ref.NewRng(name), Frame: ref.Frame{Private: true, Gen: uint32(n)}}
				switch kind {
				case "add":
					o.Path = false
					o.List = []ref.PropOrRef{{Prop: ref.Add(ref.NewParty(w.M.Ring, 1, name, ref.PartyOpts{}).KP)}}
				case "one":
					o.List = []ref.PropOrRef{{Ref: base.Pending[n/2].Ref}}
				}
				res, err := base.Commit(o)
				if err != nil {
					eng.Harness("%v", err)
				}
				next := res.Next.Copy()
				t.State()
				pend := base.Pending
				for _, i := range []int{1, 2} {
					if i == 2 && kind == "one" {
						continue
					}
					c := eng.Clone(w.R[i])
					t.Transition()
					if _, err := eng.Proc(c, res.Msg); err != nil {
						t.Fail("leaf %d rejects the commit: %v", i, err)
						return
					}
					sub := &eng.World{M: next, R: map[int]*mls.Group{i: c}}
					for k, p := range pend {
						g := next.Copy()
						g.Pending = pend
						co := ref.CommitOpts{Sender: 0, Path: true, List: []ref.PropOrRef{{Ref: p.Ref}}, Rng: ref.NewRng(name, k)}
						if next.Tree.N <= 2 || next.Tree.Leaves[2] == nil {
							// its effect is past; the reference alone must not be known
							co.Commit = func(c *ref.Commit) { c.Props = []ref.PropOrRef{{Ref: p.Ref}} }
							co.List = nil
						}
						bad, err := g.Commit(co)
						if err != nil {
							eng.Harness("%v", err)
						}
						refuses(t, sub, i, attack{fmt.Sprintf("proposal %d of %d", k, n), nil, bad.Msg})
						if t.Failed() {
							return
						}
					}
					reads(t, next, i, c, "after all")
				}
				t.Sample("backlog", name)
			}})
		}
	}
}

// epochs lets a group advance and offers every message of every epoch to the
// members at every other epoch.
func epochs(r *eng.Run, emit func(eng.Case)) {
	type conf struct {
		shape string
		s     ref.Suite
	}
	confs := []conf{{"pair-path", 1}, {"three", 1}, {"unmerged", 1}, {"hole", 1}, {"five-holes", 1}, {"three", 2}, {"three", 3}, {"three", 7}, {"three@odd", 1}, {"three@bare", 1}, {"far", 1}, {"deep", 1}}
	chains := [][]string{{"path", "add", "lib", "path"}, {"lib", "lib", "add", "upd"}, {"add", "rem", "lib", "path"}}
	if r.Thorough() {
		chains = nil
		words("palur", 4, func(w []byte) {
			if len(w) != 4 {
				return
			}
			var c []string
			for _, b := range w {
				c = append(c, map[byte]string{'p': "path", 'a': "add", 'l': "lib", 'u': "upd", 'r': "rem"}[b])
			}
			chains = append(chains, c)
		})
	}
	for ci, c := range confs {
		for k, chain := range chains {
			c, chain := c, chain
			if r.Thorough() && ci > 1 && k%25 != 0 {
				continue
			}
			name := fmt.Sprintf("epochs/%s/s%d/%d", c.shape, c.s, k)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := recipeOf(c.shape).build(t, c.s, gid)
				if w == nil {
					return
				}
				line := []*eng.World{w}
				var pend []ref.Pending
				for k, kind := range chain {
					members := w.M.Tree.Members()
					by := members[k%len(members)]
					label := fmt.Sprintf("%s/%d", name, k)
					o := eng.Op{By: by, Path: true, Priv: k%2 == 0}
					switch kind {
					case "add":
						o.Add, o.Path = 1, false
					case "upd":
						o.Upd = []int{others(members, by)[0]}
					case "rem":
						if len(members) > 2 {
							o.Rem = []int{others(members, by)[len(members)-2]}
						}
					}
					// proposals that are never committed in their epoch
					for _, i := range w.Leaves() {
						w.R[i] = eng.Clone(w.R[i])
					}
					var stale []ref.Pending
					for n, p := range []*ref.Proposal{
						ref.Add(ref.NewParty(w.M.Ring, c.s, label+"/stale", ref.PartyOpts{}).KP),
						ref.Remove(members[len(members)-1]),
						ref.GCE(),
					} {
						for v, sender := range []int{by, others(members, by)[0]} {
							msg, pd, _ := w.M.Propose(sender, p, ref.Frame{Private: (n+v)%2 == 0, Gen: uint32(20 + n + v), AAD: []byte{byte(k)}})
							stale = append(stale, *pd)
							for _, i := range w.Leaves() {
								eng.Proc(w.R[i], msg)
							}
						}
					}
					pend = append(pend, stale...)
					if kind == "lib" && w.R[by] != nil {
						w = w.StepLib(t, by, 1, label)
					} else {
						w, _ = w.Step(t, o, label)
					}
					if w == nil || t.Failed() {
						return
					}
					w.Complete(t.Run)
					line = append(line, w)
					t.State()
					// each stale proposal, alone, referenced in the new epoch by
					// every member
					for _, i := range w.Leaves() {
						for pi, p := range pend {
							q := others(w.M.Tree.Members(), i)
							sender := q[pi%len(q)]
							if int(p.Prop.Removed) == sender && p.Prop.Type == ref.PropRemove || p.Prop.Type == ref.PropRemove && (int(p.Prop.Removed) >= w.M.Tree.N || w.M.Tree.Leaves[p.Prop.Removed] == nil) {
								continue
							}
							g := w.M.Copy()
							g.Pending = pend
							res, err := g.Commit(ref.CommitOpts{Sender: sender, Path: true, List: []ref.PropOrRef{{Ref: p.Ref}}, Rng: ref.NewRng("stale", label, pi), Frame: ref.Frame{Private: pi%2 == 0}})
							if err != nil {
								eng.Harness("%v", err)
							}
							refuses(t, w, i, attack{fmt.Sprintf("stale proposal %d after %s", pi, kind), nil, res.Msg})
							if t.Failed() {
								return
							}
						}
						reads(t, w.M, i, eng.Clone(w.R[i]), "after "+kind)
					}
				}
				for a := range line {
					for b := range line {
						if a == b {
							continue
						}
						verbatim(t, line[a], line[b], fmt.Sprintf("%s/%d-%d", name, a, b))
						if t.Failed() {
							return
						}
					}
					// commits that happened, to everyone at another epoch
					if a+1 < len(line) {
						for b := range line {
							if a == b {
								continue
							}
							for _, i := range line[b].Leaves() {
								refuses(t, line[b], i, attack{fmt.Sprintf("commit of epoch %d at %d", a, b), line[a+1].Pre, line[a+1].Commit})
							}
						}
					}
				}
				// an insider of a later epoch wraps what was signed earlier
				for a := 0; a+1 < len(line); a++ {
					last := line[len(line)-1]
					sub := &eng.World{M: last.M, R: map[int]*mls.Group{}}
					for k, i := range last.Leaves() {
						if k < 2 {
							sub.R[i] = last.R[i]
						}
					}
					crossing(t, line[a], sub, fmt.Sprintf("%s/wrap%d", name, a))
					if t.Failed() {
						return
					}
				}
			}})
		}
	}
}

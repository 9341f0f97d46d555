package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C06"] = check{"model_checking", eng.Meta{
		Rule: "a state is a group shape with a committer; a transition is a commit with one proposal list offered to one member; the verdict is compared with the rules of RFC 9420 section 12.2 computed independently from the list, and a trace is an accepted commit after which model and member read each other",
		Assumptions: []string{
			"lists with pre-shared keys, context extensions or reinitialisation that obey the rules may be refused or applied as RFC 9420 prescribes",
			"the committer of a forbidden list computes all tags from applying it naively, so that only the rule in question can refuse it",
		},
	}, c06}
}

// letter is an element of the proposal alphabet.
type letter struct {
	name   string
	p      *ref.Proposal
	sender int // -1: the committer, inline
}

// c06Case is a world, a committer and the alphabet relative to it.
type c06Case struct {
	name    string
	w       *eng.World
	by      int
	letters []letter
}

func alphabet(w *eng.World, by int, label string) []letter {
	g := w.M
	s := g.Suite
	var out []letter
	add := func(name string, sender int, p *ref.Proposal) { out = append(out, letter{name, p, sender}) }
	rng := ref.NewRng("alphabet", label)
	members := g.Tree.Members()
	oth := others(members, by)
	n1 := ref.NewParty(g.Ring, s, label+"/n1", ref.PartyOpts{})
	n2 := ref.NewParty(g.Ring, s, label+"/n2", ref.PartyOpts{})
	// a second key package of the first newcomer: same signature key
	n1b := ref.NewParty(g.Ring, s, label+"/n1b", ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.SigKey = n1.KP.Leaf.SigKey }})
	n1b.KP.Leaf.Sign(s, n1.Priv.Sig, nil, 0)
	n1b.KP.SignAs(s, n1.Priv.Sig)
	// someone with the signature key of a present member
	m := oth[0]
	dup := ref.NewParty(g.Ring, s, label+"/dup", ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.SigKey = g.Tree.Leaves[m].SigKey }})
	dup.KP.Leaf.Sign(s, g.SigPriv(m), nil, 0)
	dup.KP.SignAs(s, g.SigPriv(m))
	add("A1", -1, ref.Add(n1.KP))
	add("A2", -1, ref.Add(n2.KP))
	add("A1b", -1, ref.Add(n1b.KP))
	add("Adup", -1, ref.Add(dup.KP))
	for k, u := range oth {
		if k < 2 || k == len(oth)-1 {
			add(fmt.Sprintf("U%d", u), u, ref.UpdateWith(g.UpdateLeaf(u, rng, nil, false)))
		}
	}
	add(fmt.Sprintf("U%d'", oth[0]), oth[0], ref.UpdateWith(g.UpdateLeaf(oth[0], rng, nil, false)))
	add("Ume", by, ref.UpdateWith(g.UpdateLeaf(by, rng, nil, false)))
	add("Uinline", -1, ref.UpdateWith(g.UpdateLeaf(by, rng, nil, false)))
	for k, u := range oth {
		if k < 2 || k == len(oth)-1 {
			add(fmt.Sprintf("R%d", u), -1, ref.Remove(u))
		}
	}
	add(fmt.Sprintf("R%d'", oth[0]), oth[len(oth)-1], ref.Remove(oth[0]))
	add("Rme", -1, ref.Remove(by))
	for i, l := range g.Tree.Leaves {
		if l == nil {
			add("Rvacant", -1, ref.Remove(i))
			break
		}
	}
	add("Rbeyond", -1, ref.Remove(g.Tree.N))
	add("Rhuge", -1, ref.Remove(1<<32-1))
	psk := ref.PSKID{Type: 1, ID: []byte("psk"), Nonce: rng.Bytes(s.Nh()), Material: []byte("material")}
	add("K", -1, ref.PSK(psk))
	add("G", -1, ref.GCE())
	re := &ref.Proposal{Type: ref.PropReInit}
	re.ReInit.GroupID, re.ReInit.Version, re.ReInit.Suite = []byte("next"), 1, uint16(s)
	add("X", -1, re)
	kem, _ := s.KeyPair(rng.Bytes(64))
	add("E", -1, ref.ExternalInit(kem))
	return out
}

const (
	mustReject = iota
	mustAccept
	either
)

// permitted applies the rules of section 12.2 for a commit by a member.
func permitted(g *ref.Group, by int, list []letter, path bool) int {
	touched := map[int]int{}
	verdict := mustAccept
	keys := map[string]int{} // signature keys in the resulting tree
	for _, m := range g.Tree.Members() {
		keys[string(g.Tree.Leaves[m].SigKey)]++
	}
	psks := map[string]int{}
	gce, needsPath := 0, len(list) == 0
	for _, l := range list {
		sender := l.sender
		if sender < 0 {
			sender = by
		}
		switch l.p.Type {
		case ref.PropUpdate:
			if sender == by {
				return mustReject
			}
			touched[sender]++
			needsPath = true
		case ref.PropRemove:
			r := int(l.p.Removed)
			if r == by || r >= g.Tree.N || g.Tree.Leaves[r] == nil {
				return mustReject
			}
			touched[r]++
			keys[string(g.Tree.Leaves[r].SigKey)]--
			needsPath = true
		case ref.PropAdd:
			keys[string(l.p.KP.Leaf.SigKey)]++
		case ref.PropPSK:
			psks[string(l.p.PSK.Enc())]++
			verdict = either
		case ref.PropGCE:
			gce++
			needsPath = true
			verdict = either
		case ref.PropReInit:
			if len(list) > 1 {
				return mustReject
			}
			verdict = either
		case ref.PropExternalInit:
			return mustReject
		}
	}
	for _, n := range touched {
		if n > 1 {
			return mustReject
		}
	}
	for _, n := range psks {
		if n > 1 {
			return mustReject
		}
	}
	for _, n := range keys {
		if n > 1 {
			return mustReject
		}
	}
	if gce > 1 || needsPath && !path {
		return mustReject
	}
	// whether adding back a removed member with its old signature key names
	// the same client is for the application to decide
	for _, l := range list {
		if l.name == "Adup" && verdict == mustAccept {
			verdict = either
		}
	}
	return verdict
}

// framed turns a list of letters into messages. byRef sends every proposal
// that may be sent by another member (or the committer) separately.
func framed(g *ref.Group, by int, list []letter, path, byRef, priv bool, label string, hook func(*ref.CommitOpts)) (attack, *ref.CommitResult) {
	a := attack{name: label}
	base := g
	gens := map[int]uint32{}
	var entries []ref.PropOrRef
	for k, l := range list {
		sender := l.sender
		if sender < 0 && byRef && l.name != "Uinline" {
			sender = g.Tree.Members()[k%len(g.Tree.Members())]
			if l.p.Type == ref.PropUpdate {
				sender = by
			}
		}
		if sender < 0 {
			entries = append(entries, ref.PropOrRef{Prop: l.p})
			continue
		}
		msg, pend, ng := base.Propose(sender, l.p, ref.Frame{Private: priv, Gen: gens[sender]})
		gens[sender]++
		base = ng
		a.pre = append(a.pre, msg)
		entries = append(entries, ref.PropOrRef{Ref: pend.Ref})
	}
	o := ref.CommitOpts{Frame: ref.Frame{Private: priv, Gen: gens[by]}, Sender: by, List: entries, Path: path, Rng: ref.NewRng("c06", label)}
	if hook != nil {
		hook(&o)
	}
	res, err := base.Commit(o)
	if err != nil {
		// not even a naive view exists: fall back to a commit with a tag of
		// the current epoch
		c := ref.Commit{Props: entries}
		a.msg = base.Raw(by, ref.CTCommit, c.Enc(), base.ConfTag, o.Frame)
		return a, nil
	}
	a.msg = res.Msg
	return a, res
}

func names(list []letter) string {
	var s []string
	for _, l := range list {
		s = append(s, l.name)
	}
	return strings.Join(s, ",")
}

func c06(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		by    int
		max   int
	}
	confs := []conf{{"five-holes", 1, 0, 3}, {"pair", 1, 1, 2}, {"three", 1, 2, 2}, {"eight", 1, 5, 2}, {"unmerged", 1, 3, 2}, {"three", 2, 0, 1}, {"three", 3, 0, 1}, {"three", 7, 0, 1}, {"three@odd", 1, 1, 2}, {"hole@bare", 1, 0, 2}, {"far", 1, 255, 2}, {"deep", 1, 1, 1}}
	if r.Thorough() {
		confs = append(confs, conf{"hole", 1, 3, 3}, conf{"four-full", 1, 1, 3}, conf{"unmerged", 1, 0, 3}, conf{"three", 2, 1, 2}, conf{"three", 7, 1, 2}, conf{"eight", 1, 0, 3})
	}
	r.All(func(emit func(eng.Case)) {
		crowds(r, emit)
		for _, c := range confs {
			c := c
			label := fmt.Sprintf("%s/s%d/by%d", c.shape, c.s, c.by)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			r.State()
			letters := alphabet(w, c.by, label)
			var rec func(list []letter)
			rec = func(list []letter) {
				list = append([]letter{}, list...)
				c06List(r, w, c.by, list, label, emit)
				if len(list) == c.max {
					return
				}
				for _, l := range letters {
					// the very same element twice is enumerated too
					rec(append(list, l))
				}
			}
			rec(nil)
			// reversed roles: longer lists of valid elements
			long := []letter{}
			for _, l := range letters {
				if strings.HasPrefix(l.name, "A1") && l.name != "A1" || l.name == "Adup" {
					continue
				}
				if permitted(w.M, c.by, append(append([]letter{}, long...), l), true) == mustAccept {
					long = append(long, l)
				}
			}
			c06List(r, w, c.by, long, label, emit)
			rev := append([]letter{}, long...)
			sort.SliceStable(rev, func(i, j int) bool { return i > j })
			c06List(r, w, c.by, rev, label, emit)
		}
	})
}

// crowds inserts every element of the alphabet into long lists.
func crowds(r *eng.Run, emit func(eng.Case)) {
	for _, n := range []int{10, 20, r.Pick(40, 100)} {
		n := n
		label := fmt.Sprintf("crowd/%d", n)
		var w *eng.World
		setup(r, label, func(t *eng.T) {
			var ps []*ref.Party
			ring := ref.NewRing()
			for i := 0; i < n+8; i++ {
				ps = append(ps, ref.NewParty(ring, 1, fmt.Sprintf("%s/m%d", label, i), ref.PartyOpts{}))
			}
			w = eng.ModelWorldOf(t, ring, 1, gid, label, ps, 3, []int{1, 4, n + 5})
		})
		if w == nil {
			continue
		}
		r.State()
		rng := ref.NewRng(label)
		var base []letter
		for k := 0; k < n; k++ {
			switch m := 5 + k; k % 3 {
			case 0:
				base = append(base, letter{fmt.Sprintf("R%d", m), ref.Remove(m), -1})
			case 1:
				base = append(base, letter{fmt.Sprintf("U%d", m), ref.UpdateWith(w.M.UpdateLeaf(m, rng, nil, false)), m})
			case 2:
				p := ref.NewParty(w.M.Ring, 1, fmt.Sprintf("%s/add%d", label, k), ref.PartyOpts{})
				base = append(base, letter{fmt.Sprintf("A%d", m), ref.Add(p.KP), -1})
			}
		}
		list := func(pos int, l letter) {
			x := append(append(append([]letter{}, base[:pos]...), l), base[pos:]...)
			c06List(r, w, 2, x, fmt.Sprintf("%s/%s at %d", label, l.name, pos), emit)
		}
		c06List(r, w, 2, base, label, emit)
		for _, l := range alphabet(w, 2, label) {
			for _, pos := range []int{0, n / 2, n} {
				list(pos, l)
			}
		}
		for k, l := range base {
			list(n*(1-k*2/n), l)
		}
	}
}

func c06List(r *eng.Run, w *eng.World, by int, list []letter, label string, emit func(eng.Case)) {
	for v := 0; v < 4; v++ {
		path, byRef := v&1 > 0, v&2 > 0
		priv := (len(list)+v)%2 == 0
		if byRef {
			sent := false
			for _, l := range list {
				sent = sent || l.sender < 0
			}
			if !sent {
				continue
			}
		}
		name := fmt.Sprintf("%s/[%s]", label, names(list))
		if path {
			name += "P"
		}
		if byRef {
			name += "R"
		}
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			verdict := permitted(w.M, by, list, path)
			special := false
			gone := map[int]bool{}
			renewed := map[int]bool{by: path}
			for _, l := range list {
				switch l.p.Type {
				case ref.PropPSK, ref.PropGCE:
					special = true
				case ref.PropRemove:
					gone[int(l.p.Removed)] = true
				case ref.PropUpdate:
					renewed[l.sender] = true
				}
			}
			variants := []func(*ref.CommitOpts){nil}
			if special {
				variants = append(variants, func(o *ref.CommitOpts) { o.IgnorePSK, o.IgnoreGCE = true, true })
			}
			for vi, hook := range variants {
				a, res := framed(w.M, by, list, path, byRef, priv, name, hook)
				want := verdict
				if vi > 0 {
					want = mustReject // leaves out what it announces
					for _, l := range list {
						if l.p.Type == ref.PropGCE && len(l.p.Exts) == 0 {
							want = either // nothing to leave out
						}
						if l.p.Type == ref.PropPSK {
							want = mustReject
							break
						}
					}
					if verdict == mustReject {
						want = mustReject
					}
				}
				for _, i := range w.Leaves() {
					switch {
					case want == mustReject || gone[i]:
						refuses(t, w, i, a)
					case renewed[i]:
						// keys are the model's
					case want == mustAccept:
						if c := accepts(t, w, i, a); c != nil && res != nil {
							reads(t, res.Next, i, c, "after commit")
						}
					default:
						c := eng.Clone(w.R[i])
						t.Transition()
						ok := true
						for _, p := range a.pre {
							if _, err := eng.Proc(c, p); err != nil {
								ok = false
							}
						}
						_, err := eng.Proc(c, a.msg)
						if eng.Panicked(err) {
							t.Fail("%s: leaf %d: %v", name, i, err)
						}
						if ok && err == nil && res != nil {
							t.Count("optional accepted")
							reads(t, res.Next, i, c, "after commit")
						} else {
							t.Count("optional refused")
						}
					}
				}
				t.Sample([]string{"reject", "accept", "either"}[want], name)
			}
		}})
	}
}

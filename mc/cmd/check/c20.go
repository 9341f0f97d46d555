package main

import (
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C20"] = check{"model_checking", eng.Meta{
		Rule: "a state is a group shape with a pool of proposals by several members in some framing; a transition is the delivery of the whole pool in one of all orders (or with some of it missing) followed by a commit naming one of all permitted subsets, in both orders; a trace is the comparison of the member with the reference model afterwards",
		Assumptions: []string{
			"proposals in the pool that break a rule of their own may be refused on arrival",
		},
	}, c20}
}

// permutations enumerates all orders of 0..n-1.
func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int{}, p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// pool is a set of proposals made in one epoch.
type pool struct {
	w     *eng.World
	by    int
	label string
	props []letter
}

// sentPool is a pool in a particular framing.
type sentPool struct {
	*pool
	g    *ref.Group // all pending
	msgs [][]byte
	refs [][]byte
	gens map[int]uint32
}

// newPool makes proposals by as many different members as there are.
func newPool(w *eng.World, by int, label string) *pool {
	g := w.M
	oth := others(g.Tree.Members(), by)
	q := oth[0]
	r := oth[len(oth)-1]
	rng := ref.NewRng("pool", label)
	p := &pool{w: w, by: by, label: label}
	add := func(name string, sender int, pr *ref.Proposal) { p.props = append(p.props, letter{name, pr, sender}) }
	n1 := ref.NewParty(g.Ring, g.Suite, label+"/n1", ref.PartyOpts{})
	n2 := ref.NewParty(g.Ring, g.Suite, label+"/n2", ref.PartyOpts{})
	add("A1", q, ref.Add(n1.KP))
	add("A2", r, ref.Add(n2.KP))
	add("U", r, ref.UpdateWith(g.UpdateLeaf(r, rng, nil, true)))
	if len(oth) > 2 {
		add("R", by, ref.Remove(oth[1]))
		add("R'", oth[1], ref.Remove(oth[1]))
	} else {
		add("U'", r, ref.UpdateWith(g.UpdateLeaf(r, rng, nil, false)))
		add("R", q, ref.Remove(r))
	}
	return p
}

func (p *pool) send(mask int) *sentPool {
	s := &sentPool{pool: p, g: p.w.M, gens: map[int]uint32{}}
	for k, l := range p.props {
		f := ref.Frame{Private: mask>>k&1 > 0, AAD: []byte(l.name)}
		if f.Private {
			f.Gen = s.gens[l.sender]
			s.gens[l.sender]++
		}
		msg, pend, ng := s.g.Propose(l.sender, l.p, f)
		s.g = ng
		s.msgs = append(s.msgs, msg)
		s.refs = append(s.refs, pend.Ref)
	}
	return s
}

// subsets lists the permitted choices from the pool, each in both orders.
func (p *pool) subsets() (out [][]int) {
	n := len(p.props)
	for m := 0; m < 1<<n; m++ {
		var idx, rev []int
		var list []letter
		for k := 0; k < n; k++ {
			if m>>k&1 > 0 {
				idx = append(idx, k)
				rev = append([]int{k}, rev...)
				list = append(list, p.props[k])
			}
		}
		if permitted(p.w.M, p.by, list, true) != mustAccept {
			continue
		}
		out = append(out, idx)
		if len(idx) > 1 {
			out = append(out, rev)
		}
	}
	return out
}

func (s *sentPool) commit(set []int, priv bool, hook func(*ref.CommitOpts), name string) *ref.CommitResult {
	o := ref.CommitOpts{Sender: s.by, Path: true, Rng: ref.NewRng("c20", s.label, name, fmt.Sprint(set)), Frame: ref.Frame{Private: priv, Gen: s.gens[s.by]}}
	for _, k := range set {
		o.List = append(o.List, ref.PropOrRef{Ref: s.refs[k]})
	}
	if hook != nil {
		hook(&o)
	}
	res, err := s.g.Commit(o)
	if err != nil {
		eng.Harness("%s: %v", name, err)
	}
	return res
}

// receivers are the members that can follow a commit of the set.
func (p *pool) receivers(set []int) (out []int) {
	for _, i := range p.w.Leaves() {
		ok := i != p.by
		for _, k := range set {
			l := p.props[k]
			if l.p.Type == ref.PropUpdate && l.sender == i || l.p.Type == ref.PropRemove && int(l.p.Removed) == i {
				ok = false
			}
		}
		if ok {
			out = append(out, i)
		}
	}
	return out
}

func (p *pool) name(set []int) (s string) {
	for _, k := range set {
		s += p.props[k].name + ","
	}
	return "[" + s + "]"
}

// deliver offers proposals; a valid one must be accepted.
func (s *sentPool) deliver(t *eng.T, c *mls.Group, i int, order []int, what string) bool {
	for _, k := range order {
		t.Transition()
		if _, err := eng.Proc(c, s.msgs[k]); err != nil {
			if s.props[k].sender == i && s.props[k].p.Type == ref.PropUpdate {
				continue // one's own, for which it has no keys
			}
			t.Fail("%s: leaf %d rejects proposal %s: %v", what, i, s.props[k].name, err)
			return false
		}
	}
	return true
}

func c20(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		by    int
		perms bool
	}
	confs := []conf{{"three", 1, 0, true}, {"five-holes", 1, 4, true}, {"unmerged", 1, 2, true}, {"hole", 1, 3, false}, {"three", 2, 1, false}, {"three", 3, 1, false}, {"three", 7, 1, false}, {"eight", 1, 3, false}, {"three@odd", 1, 1, true}, {"hole@bare", 1, 0, false}, {"far", 1, 255, false}, {"deep", 1, 1, false}}
	if r.Thorough() {
		confs = append(confs, conf{"refilled", 1, 6, true}, conf{"four-full", 1, 1, true}, conf{"hole", 1, 0, true}, conf{"five", 1, 4, true}, conf{"unmerged", 2, 3, true}, conf{"unmerged", 7, 1, true})
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			c := c
			label := fmt.Sprintf("%s/s%d/by%d", c.shape, c.s, c.by)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			p := newPool(w, c.by, label)
			n := len(p.props)
			sets := p.subsets()
			var orders [][]int
			permutations(n, func(o []int) { orders = append(orders, o) })
			for mask := 0; mask < 1<<n; mask++ {
				mask := mask
				if !c.perms && mask%7 != 0 {
					continue
				}
				s := p.send(mask)
				for si, set := range sets {
					set, si := set, si
					r.State()
					name := fmt.Sprintf("%s/framing%d/%s%d", label, mask, p.name(set), si)
					emit(eng.Case{Name: name, Run: func(t *eng.T) {
						res := s.commit(set, (mask+si)%2 == 0, nil, name)
						for _, i := range p.receivers(set) {
							// every arrival order is met with every set; which
							// framing it meets it with rotates
							for k := (mask + si) % (1 << n); k < len(orders); k += 1 << n {
								what := fmt.Sprintf("%s arriving %v", name, orders[k])
								g := eng.Clone(w.R[i])
								if !s.deliver(t, g, i, orders[k], what) {
									return
								}
								t.Transition()
								if _, err := eng.Proc(g, res.Msg); err != nil {
									t.Fail("%s: leaf %d rejects the commit: %v", what, i, err)
									return
								}
								if !reads(t, res.Next, i, g, what) {
									return
								}
								if k%3 == 0 {
									(&eng.World{M: res.Next, R: map[int]*mls.Group{i: g}, Kind: map[int]byte{i: 'x'}}).Observe(t, i, "after")
								}
							}
							s.missing(t, i, set, res, name)
							if t.Failed() {
								return
							}
						}
						t.Sample("commit", name)
					}})
				}
				if mask%8 == 3 {
					emit(eng.Case{Name: fmt.Sprintf("%s/framing%d/altered", label, mask), Run: func(t *eng.T) { s.altered(t, label) }})
					emit(eng.Case{Name: fmt.Sprintf("%s/framing%d/crowd", label, mask), Run: func(t *eng.T) { s.crowd(t, sets, label) }})
					if mask == 3 {
						emit(eng.Case{Name: label + "/many", Run: func(t *eng.T) { many(t, w, c.by, label) }})
					}
					emit(eng.Case{Name: fmt.Sprintf("%s/framing%d/mixed", label, mask), Run: func(t *eng.T) { s.mixed(t, label) }})
					emit(eng.Case{Name: fmt.Sprintf("%s/framing%d/past", label, mask), Run: func(t *eng.T) { s.past(t, sets, label) }})
				}
			}
		}
	})
}

// missing withholds every non-empty part of the referenced proposals.
func (s *sentPool) missing(t *eng.T, i int, set []int, res *ref.CommitResult, name string) {
	for m := 1; m < 1<<len(set); m++ {
		held := map[int]bool{}
		var late []int
		for k, x := range set {
			if m>>k&1 > 0 {
				held[x] = true
				late = append(late, x)
			}
		}
		var early []int
		for k := range s.props {
			if !held[k] {
				early = append(early, k)
			}
		}
		what := fmt.Sprintf("%s without %s", name, s.name(late))
		g := eng.Clone(s.w.R[i])
		if !s.deliver(t, g, i, early, what) {
			return
		}
		for n := 0; n < 2; n++ {
			t.Transition()
			if _, err := eng.Proc(g, res.Msg); err == nil {
				t.Fail("%s: leaf %d accepts the commit", what, i)
				return
			} else if eng.Panicked(err) {
				t.Fail("%s: leaf %d: %v", what, i, err)
				return
			}
		}
		if m%2 == 0 && !reads(t, s.w.M, i, g, what) {
			return
		}
		// nothing but the missing ones helps
		for n, x := range late {
			if n > 0 {
				t.Transition()
				if _, err := eng.Proc(g, res.Msg); err == nil {
					t.Fail("%s: leaf %d accepts the commit too early", what, i)
					return
				}
			}
			if !s.deliver(t, g, i, []int{x}, what) {
				return
			}
		}
		t.Transition()
		if _, err := eng.Proc(g, res.Msg); err != nil {
			t.Fail("%s: leaf %d still rejects the commit afterwards: %v", what, i, err)
			return
		}
		if !reads(t, res.Next, i, g, what) {
			return
		}
	}
}

// altered makes commits whose reference is almost that of a proposal; the
// committer applies the proposal all the same.
func (s *sentPool) altered(t *eng.T, label string) {
	muts := []struct {
		name string
		f    func(b []byte) []byte
	}{
		{"empty", func(b []byte) []byte { return []byte{} }},
		{"short", func(b []byte) []byte { return b[:len(b)-1] }},
		{"half", func(b []byte) []byte { return b[:len(b)/2] }},
		{"first", func(b []byte) []byte { return b[:1] }},
		{"four", func(b []byte) []byte { return b[:4] }},
		{"eight", func(b []byte) []byte { return b[:8] }},
		{"sixteen", func(b []byte) []byte { return b[:16] }},
		{"tail", func(b []byte) []byte { return b[1:] }},
		{"longer", func(b []byte) []byte { return append(append([]byte{}, b...), 0) }},
		{"double", func(b []byte) []byte { return append(append([]byte{}, b...), b...) }},
		{"zero", func(b []byte) []byte { return make([]byte, len(b)) }},
	}
	for k := 0; k < s.g.Suite.Nh(); k++ {
		k := k
		muts = append(muts, struct {
			name string
			f    func(b []byte) []byte
		}{fmt.Sprintf("byte%d", k), func(b []byte) []byte { return flipByte(b, k) }})
	}
	all := []int{}
	for k := range s.props {
		all = append(all, k)
	}
	for k := range s.props {
		if permitted(s.w.M, s.by, []letter{s.props[k]}, true) != mustAccept {
			continue
		}
		for _, m := range muts {
			res := s.commit([]int{k}, k%2 == 0, func(o *ref.CommitOpts) {
				o.Commit = func(c *ref.Commit) { c.Props = []ref.PropOrRef{{Ref: m.f(s.refs[k])}} }
			}, label+m.name)
			for _, i := range s.receivers([]int{k}) {
				g := eng.Clone(s.w.R[i])
				s.deliver(t, g, i, all, label)
				t.Transition()
				if _, err := eng.Proc(g, res.Msg); err == nil {
					t.Fail("reference %s of %s accepted by leaf %d", m.name, s.props[k].name, i)
					return
				} else if eng.Panicked(err) {
					t.Fail("reference %s of %s: leaf %d: %v", m.name, s.props[k].name, i, err)
					return
				}
			}
		}
		// the reference of the same proposal sent in the other framing, or with
		// other data, which never was delivered
		l := s.props[k]
		for n, f := range []ref.Frame{{AAD: []byte(l.name), Private: false}, {AAD: []byte(l.name), Private: true, Gen: 30}, {AAD: []byte("other")}, {AAD: []byte("other"), Private: true, Gen: 31}} {
			_, pend, g := s.g.Propose(l.sender, l.p, f)
			if eq(pend.Ref, s.refs[k]) {
				continue
			}
			res, err := g.Commit(ref.CommitOpts{Sender: s.by, Path: true, List: []ref.PropOrRef{{Ref: pend.Ref}}, Rng: ref.NewRng("alt", label, n)})
			if err != nil {
				eng.Harness("%v", err)
			}
			for _, i := range s.receivers([]int{k}) {
				c := eng.Clone(s.w.R[i])
				s.deliver(t, c, i, all, label)
				t.Transition()
				if _, err := eng.Proc(c, res.Msg); err == nil {
					t.Fail("a never delivered framing %d of %s is accepted by leaf %d", n, l.name, i)
					return
				}
			}
		}
	}
}

// crowd delivers many other proposals as well, valid and not.
func (s *sentPool) crowd(t *eng.T, sets [][]int, label string) {
	m := s.w.M
	oth := others(m.Tree.Members(), s.by)
	var junk [][]byte
	add := func(sender int, p *ref.Proposal, f ref.Frame) {
		msg, _, _ := m.Propose(sender, p, f)
		junk = append(junk, msg)
	}
	psk := ref.PSKID{Type: 1, ID: []byte("psk"), Nonce: make([]byte, m.Suite.Nh())}
	re := &ref.Proposal{Type: ref.PropReInit}
	re.ReInit.GroupID, re.ReInit.Version, re.ReInit.Suite = []byte("next"), 1, uint16(m.Suite)
	bad := ref.NewParty(nil, m.Suite, label+"/bad", ref.PartyOpts{Post: func(kp *ref.KeyPackage) { kp.Signature = nil }})
	for k := 0; k < 40; k++ {
		priv := k%2 == 0
		q := oth[k%len(oth)]
		f := ref.Frame{Private: priv, AAD: []byte{byte(k)}, Gen: uint32(100 + k)}
		switch k % 10 {
		case 0:
			add(q, ref.Remove(s.by), f)
		case 1:
			add(q, ref.Remove(q), f)
		case 2:
			add(q, ref.Add(ref.NewParty(m.Ring, m.Suite, fmt.Sprint(label, "/crowd", k), ref.PartyOpts{}).KP), f)
		case 3:
			add(q, ref.UpdateWith(m.UpdateLeaf(q, ref.NewRng("crowd", k), nil, false)), f)
		case 4:
			add(s.by, ref.UpdateWith(m.UpdateLeaf(s.by, ref.NewRng("crowd", k), nil, false)), f)
		case 5:
			add(q, ref.Add(bad.KP), f)
		case 6:
			add(q, ref.PSK(psk), f)
		case 7:
			add(q, ref.GCE(), f)
		case 8:
			add(q, re, f)
		case 9:
			add(q, ref.Remove(m.Tree.N+5), f)
		}
	}
	for si, set := range sets {
		res := s.commit(set, si%2 == 0, nil, label+"/crowd")
		for _, i := range s.receivers(set) {
			g := eng.Clone(s.w.R[i])
			at := si % (len(junk) + 1)
			for _, b := range junk[:at] {
				t.Transition()
				eng.Proc(g, b)
			}
			all := []int{}
			for k := range s.props {
				all = append(all, k)
			}
			if !s.deliver(t, g, i, all, label) {
				return
			}
			for _, b := range junk[at:] {
				t.Transition()
				eng.Proc(g, b)
			}
			// some arrive once more
			if si%2 == 1 {
				for _, b := range s.msgs {
					eng.Proc(g, b)
				}
			}
			if _, err := eng.Proc(g, res.Msg); err != nil {
				t.Fail("crowd: leaf %d rejects the commit of %s: %v", i, s.name(set), err)
				return
			}
			if !reads(t, res.Next, i, g, "crowd") {
				return
			}
			follows(t, res.Next, i, g, "crowd")
		}
	}
}

// many has a large number of proposals pending, all of them valid, and commits
// the earliest, the latest, ones in between and all additions.
func many(t *eng.T, w *eng.World, by int, label string) {
	const n = 320
	m := w.M
	oth := others(m.Tree.Members(), by)
	q := oth[len(oth)-1]
	out := oth[0]
	if len(oth) < 3 {
		out = q
	}
	type sent struct {
		msg, ref []byte
		add      bool
	}
	var all []sent
	g := m
	rng := ref.NewRng("many", label)
	for k := 0; k < n; k++ {
		var p *ref.Proposal
		f := ref.Frame{Private: k%2 == 0, AAD: []byte(fmt.Sprint(k)), Gen: uint32(k / 2)}
		switch {
		case k%8 == 1 || k == 0:
			p = ref.Add(ref.NewParty(m.Ring, m.Suite, fmt.Sprint(label, "/many", k), ref.PartyOpts{}).KP)
		case k%8 == 5:
			p = ref.UpdateWith(m.UpdateLeaf(q, rng, nil, false))
		default:
			p = ref.Remove(out)
		}
		msg, pend, ng := g.Propose(q, p, f)
		g = ng
		all = append(all, sent{msg, pend.Ref, p.Type == ref.PropAdd})
	}
	for _, i := range w.Leaves() {
		if i == by || i == q || i == out {
			continue
		}
		c := eng.Clone(w.R[i])
		for k, x := range all {
			t.Transition()
			if _, err := eng.Proc(c, x.msg); err != nil {
				t.Fail("leaf %d rejects proposal %d: %v", i, k, err)
				return
			}
		}
		var sets [][]int
		for _, k := range []int{0, 1, 2, 5, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n - 2, n - 1} {
			sets = append(sets, []int{k})
		}
		var adds []int
		for k, x := range all {
			if x.add {
				adds = append(adds, k)
			}
		}
		sets = append(sets, []int{0, 317}, []int{0, 313, 1}, adds)
		for si, set := range sets {
			o := ref.CommitOpts{Sender: by, Path: true, Rng: ref.NewRng("many", label, si)}
			for _, k := range set {
				o.List = append(o.List, ref.PropOrRef{Ref: all[k].ref})
			}
			res, err := g.Commit(o)
			if err != nil {
				eng.Harness("%v", err)
			}
			d := eng.Clone(c)
			t.Transition()
			t.Trace()
			if _, err := eng.Proc(d, res.Msg); err != nil {
				t.Fail("leaf %d with %d proposals pending rejects the commit of %v: %v", i, n, set, err)
				return
			}
			if !reads(t, res.Next, i, d, "many") {
				return
			}
		}
	}
	t.Sample("many", label)
}

// mixed interleaves references with proposals of the committer.
func (s *sentPool) mixed(t *eng.T, label string) {
	m := s.w.M
	a := ref.NewParty(m.Ring, m.Suite, label+"/in1", ref.PartyOpts{})
	b := ref.NewParty(m.Ring, m.Suite, label+"/in2", ref.PartyOpts{})
	tokens := []ref.PropOrRef{{Ref: s.refs[0]}, {Prop: ref.Add(a.KP)}, {Ref: s.refs[1]}, {Prop: ref.Add(b.KP)}, {Ref: s.refs[2]}}
	set := []int{0, 1, 2}
	permutations(len(tokens), func(o []int) {
		if t.Failed() {
			return
		}
		var list []ref.PropOrRef
		for _, k := range o {
			list = append(list, tokens[k])
		}
		res := s.commit(nil, o[0]%2 == 0, func(c *ref.CommitOpts) { c.List = list }, fmt.Sprint(label, "/mixed", o))
		for _, i := range s.receivers(set) {
			g := eng.Clone(s.w.R[i])
			if !s.deliver(t, g, i, []int{2, 1, 0}, label) {
				return
			}
			t.Transition()
			if _, err := eng.Proc(g, res.Msg); err != nil {
				t.Fail("mixed %v: leaf %d rejects the commit: %v", o, i, err)
				return
			}
			reads(t, res.Next, i, g, "mixed")
		}
	})
}

// past refers to proposals of the epoch before.
func (s *sentPool) past(t *eng.T, sets [][]int, label string) {
	m := s.w.M
	all := []int{}
	for k := range s.props {
		all = append(all, k)
	}
	moves := []struct {
		name string
		o    ref.CommitOpts
	}{
		{"path", ref.CommitOpts{Sender: s.by, Path: true}},
		{"add", ref.CommitOpts{Sender: s.by, List: inline(ref.Add(ref.NewParty(m.Ring, m.Suite, label+"/past", ref.PartyOpts{}).KP))}},
		{"some", ref.CommitOpts{Sender: s.by, Path: true, List: []ref.PropOrRef{{Ref: s.refs[0]}}}},
	}
	for _, mv := range moves {
		mv.o.Rng = ref.NewRng("past", label, mv.name)
		mv.o.Frame.Gen = s.gens[s.by]
		res, err := s.g.Commit(mv.o)
		if err != nil {
			eng.Harness("%v", err)
		}
		next := res.Next.Copy()
		next.Pending = append([]ref.Pending{}, s.g.Pending...)
		for si, set := range sets {
			if len(set) == 0 {
				continue
			}
			var list []ref.PropOrRef
			for _, k := range set {
				list = append(list, ref.PropOrRef{Ref: s.refs[k]})
			}
			res2, err := next.Commit(ref.CommitOpts{Sender: s.by, Path: true, List: list, Rng: ref.NewRng("past2", label, si)})
			if err != nil {
				eng.Harness("%v", err)
			}
			for _, i := range s.receivers(set) {
				g := eng.Clone(s.w.R[i])
				if !s.deliver(t, g, i, all, label) {
					return
				}
				if mv.name == "some" && s.props[0].sender == i {
					continue
				}
				if _, err := eng.Proc(g, res.Msg); err != nil {
					t.Fail("past: leaf %d rejects %s: %v", i, mv.name, err)
					return
				}
				t.Transition()
				if _, err := eng.Proc(g, res2.Msg); err == nil {
					t.Fail("past: leaf %d commits %s of the epoch before %s", i, s.name(set), mv.name)
					return
				}
				for _, b := range s.msgs {
					t.Transition()
					if _, err := eng.Proc(g, b); err == nil {
						t.Fail("past: leaf %d accepts a proposal of the epoch before %s", i, mv.name)
						return
					}
				}
				if _, err := eng.Proc(g, res2.Msg); err == nil {
					t.Fail("past: leaf %d commits %s of the epoch before %s", i, s.name(set), mv.name)
					return
				}
				reads(t, res.Next, i, g, "past")
			}
		}
	}
}

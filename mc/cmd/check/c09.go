package main

import (
	"fmt"
	"sort"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C09"] = check{"fault_enumeration", eng.Meta{
		Rule: "one evaluation is a Welcome with one inconsistency offered to its recipient; hashes, tags, signatures and encryption after the point of the fault are recomputed; a Welcome the reference model refuses must be refused; distinct inputs are distinct Welcomes",
		Assumptions: []string{
			"the author of the Welcome knows the group's secrets and, where a fault needs it, the signature keys of the members concerned",
			"altered Welcomes that are still consistent by RFC 9420 (as the reference model decides) are left open",
		},
	}, c09}
}

// scene is an invitation about to be sent.
type scene struct {
	name string
	next *ref.Group
	by   int
	ps   []*ref.Party
	path map[ref.Span][]byte
}

func newScene(g *ref.Group, by, n int, path bool, name string, o ref.CommitOpts) *scene {
	sc := &scene{name: name, by: by}
	var props []*ref.Proposal
	for k := 0; k < n; k++ {
		p := ref.NewParty(g.Ring, g.Suite, fmt.Sprintf("%s/invitee%d", name, k), ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
			kp.Leaf.Caps.Creds = []uint16{ref.CredBasic, ref.CredX509}
		}})
		sc.ps = append(sc.ps, p)
		props = append(props, ref.Add(p.KP))
	}
	o.Sender, o.List, o.Path, o.Rng = by, inline(props...), path, ref.NewRng("scene", name)
	res, err := g.Commit(o)
	if err != nil {
		eng.Harness("%s: %v", name, err)
	}
	sc.next = res.Next
	if path {
		sc.path = res.Secrets
	}
	return sc
}

func (sc *scene) parties() (out []*ref.KeyPackage) {
	for _, p := range sc.ps {
		out = append(out, p.KP)
	}
	return out
}

// me is the recipient that judges: the last invitee.
func (sc *scene) me() *ref.Party { return sc.ps[len(sc.ps)-1] }

// raw makes a Welcome.
func (sc *scene) raw(g *ref.Group, o ref.WelcomeOpts) []byte {
	if g == nil {
		g = sc.next
	}
	if o.Parties == nil {
		o.Parties = sc.parties()
	}
	if o.Rng == nil {
		o.Rng = ref.NewRng("welcome", sc.name)
	}
	if o.Path == nil {
		o.Path = sc.path
	}
	if o.Signer == 0 {
		o.Signer = sc.by
	}
	if o.SignKey == nil {
		o.SignKey = g.Ring.Sig(sc.next.Tree.Leaves[sc.by].SigKey)
	}
	w, err := g.Welcome(o)
	if err != nil {
		eng.Harness("%s: %v", sc.name, err)
	}
	return w.Msg()
}

// judge offers an encoded Welcome to the recipient; it must refuse whatever
// the model refuses.
func (sc *scene) judge(t *eng.T, what string, raw []byte) {
	if t.Failed() {
		return
	}
	bad := false
	if w, err := ref.ParseWelcome(raw); err != nil {
		bad = true
	} else if _, err := ref.Join(ref.NewRing(), w, sc.me(), nil); err != nil {
		bad = true
	}
	_, err := eng.Join(raw, sc.me())
	t.Transition()
	switch {
	case eng.Panicked(err):
		t.Fail("%s: %s: %v at %s", sc.name, what, err, err.(*eng.PanicErr).Where())
	case bad && err == nil:
		t.Fail("%s: %s: joins although the Welcome is inconsistent", sc.name, what)
	case bad:
		t.Case(raw)
		t.Count("refused")
		t.Sample("fault", sc.name+": "+what)
	default:
		t.Count("left open")
	}
}

// honest checks the controls.
func (sc *scene) honest(t *eng.T, what string, raw []byte) {
	g, err := eng.Join(raw, sc.me())
	if err != nil {
		t.Fail("%s: %s: valid Welcome refused: %v", sc.name, what, err)
		return
	}
	t.Count("accepted")
	reads(t, sc.next, leafOf(sc.next, sc.me()), g, sc.name+" "+what)
}

func c09(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
	}
	confs := []conf{{"pair", 1}, {"three", 1}, {"unmerged", 1}, {"hole", 1}, {"five", 1}, {"refilled", 1}, {"eight", 1}, {"three", 2}, {"three", 3}, {"three", 7}, {"three@odd", 1}, {"pair@bare", 1}}
	if r.Thorough() {
		for _, s := range suites {
			for _, x := range recipes {
				confs = append(confs, conf{x.name, s})
			}
		}
	}
	seen := map[conf]bool{}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			if seen[c] {
				continue
			}
			seen[c] = true
			var w *eng.World
			setup(r, fmt.Sprintf("%s/%d", c.shape, c.s), func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			members := w.M.Tree.Members()
			bys := []int{members[0], members[len(members)-1]}
			if r.Thorough() && c.s == 1 {
				bys = members
			}
			for k, by := range bys {
				for v := 0; v < 4; v++ {
					path, n := v&1 > 0, 1+v>>1
					if c.s != 1 && (v == 0 || v == 3 || k > 0) {
						continue
					}
					name := fmt.Sprintf("%s/s%d/by%d/path%v/n%d", c.shape, c.s, by, path, n)
					sc := newScene(w.M, by, n, path, name, ref.CommitOpts{})
					emitScene(r, sc, emit)
					if c.s == 1 {
						emitBytes(r, sc, emit)
					}
					if path {
						ownKeys(w.M, by, n, name, emit)
					}
				}
			}
		}
		for _, n := range []int{20, 40, r.Pick(70, 140)} {
			wide(r, n, emit)
		}
		for _, c := range []struct {
			shape string
			s     ref.Suite
			by, u int
		}{{"three", 1, 0, 1}, {"unmerged", 1, 3, 2}, {"five-holes", 1, 4, 0}, {"eight", 1, 2, 5}, {"three", 2, 1, 0}, {"three", 7, 1, 0}, {"three@odd", 1, 2, 0}} {
			var w *eng.World
			label := fmt.Sprintf("entries/%s/s%d/by%d", c.shape, c.s, c.by)
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w != nil {
				badEntries(r, w.M, c.by, c.u, false, label, emit)
			}
		}
		for _, all := range []bool{true, false} {
			var w *eng.World
			label := fmt.Sprintf("entries/x509-%v", all)
			setup(r, label, func(t *eng.T) { w = credWorld(t, 1, all, label) })
			if w != nil {
				badEntries(r, w.M, 0, 3, all, label, emit)
			}
		}
	})
}

// wideModel is a large group with most of its parent nodes in use, some of them
// with unmerged leaves.
func wideModel(s ref.Suite, n int, label string) *ref.Group {
	ring := ref.NewRing()
	g := ref.CreateGroup(ring, s, gid, ref.NewParty(ring, s, label+"/0", ref.PartyOpts{}), ref.NewRng("create", label))
	for i := 1; i < n-2; i++ {
		g.Tree.AddLeaf(ref.NewParty(ring, s, fmt.Sprintf("%s/%d", label, i), ref.PartyOpts{}).KP.Leaf)
	}
	g = eng.Reseed(g, 7, label)
	commit := func(o ref.CommitOpts) {
		o.Rng = ref.NewRng(label, g.Ctx.Epoch)
		res, err := g.Commit(o)
		if err != nil {
			eng.Harness("%s: %v", label, err)
		}
		g = res.Next
	}
	for k := 0; k < n-2; k++ {
		if k%2 == 0 || k > n-6 {
			commit(ref.CommitOpts{Sender: (k * 7) % (n - 2), Path: true})
		}
	}
	commit(ref.CommitOpts{Sender: 1, List: inline(ref.Remove(n/2), ref.Remove(n-4)), Path: true})
	for k := 0; k < 4; k++ {
		commit(ref.CommitOpts{Sender: 0, List: inline(ref.Add(ref.NewParty(ring, s, fmt.Sprintf("%s/more%d", label, k), ref.PartyOpts{}).KP))})
	}
	return g
}

// wide alters every node of a large tree.
func wide(r *eng.Run, n int, emit func(eng.Case)) {
	label := fmt.Sprintf("wide/%d", n)
	var g *ref.Group
	setup(r, label, func(t *eng.T) { g = wideModel(1, n, label) })
	if g == nil {
		return
	}
	sc := newScene(g, 3, 1, n%4 > 0, label, ref.CommitOpts{})
	emit(eng.Case{Name: label + "/controls", Run: func(t *eng.T) {
		t.State()
		sc.honest(t, "plain", sc.raw(nil, ref.WelcomeOpts{}))
	}})
	tr := sc.next.Tree
	for i := range tr.Leaves {
		i := i
		if tr.Leaves[i] == nil {
			continue
		}
		emit(eng.Case{Name: fmt.Sprintf("%s/leaf%d", label, i), Run: func(t *eng.T) {
			put := func(what string, f func(l *ref.Leaf)) {
				sc.tree(t, fmt.Sprintf("leaf %d: %s", i, what), func(tr *ref.Tree) { tr.Leaves[i] = ed(tr.Leaves[i], f) })
			}
			put("signature", func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, 9) })
			resign := func(l *ref.Leaf) { l.Sign(sc.next.Suite, sc.next.SigPriv(i), sc.next.Ctx.GroupID, uint32(i)) }
			if tr.Leaves[i].Source == ref.SrcCommit {
				put("parent hash", func(l *ref.Leaf) { l.ParentHash = flipByte(l.ParentHash, 3); resign(l) })
				put("no parent hash", func(l *ref.Leaf) { l.ParentHash = nil; resign(l) })
				put("position", func(l *ref.Leaf) { l.Sign(sc.next.Suite, sc.next.SigPriv(i), sc.next.Ctx.GroupID, uint32(i)^1) })
			}
			put("credential", func(l *ref.Leaf) { l.Cred = ref.Cred{Type: ref.CredX509}; resign(l) })
			for _, j := range tr.Members() {
				if j != i && (j+i)%5 == 0 {
					put(fmt.Sprintf("encryption key of %d", j), func(l *ref.Leaf) { l.EncKey = tr.Leaves[j].EncKey; resign(l) })
					put(fmt.Sprintf("signature key of %d", j), func(l *ref.Leaf) {
						l.SigKey = tr.Leaves[j].SigKey
						l.Sign(sc.next.Suite, sc.next.SigPriv(j), sc.next.Ctx.GroupID, uint32(i))
					})
				}
			}
		}})
	}
	var spans []ref.Span
	for sp := range tr.Parents {
		spans = append(spans, sp)
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].Index() < spans[j].Index() })
	for _, sp := range spans {
		sp := sp
		emit(eng.Case{Name: fmt.Sprintf("%s/node%d", label, sp.Index()), Run: func(t *eng.T) {
			put := func(what string, f func(p *ref.Parent)) {
				sc.tree(t, fmt.Sprintf("node %d: %s", sp.Index(), what), func(tr *ref.Tree) {
					p := *tr.Parents[sp]
					p.Unmerged = append([]uint32{}, p.Unmerged...)
					f(&p)
					tr.Parents[sp] = &p
				})
			}
			key, _ := sc.next.Suite.KeyPair(ref.NewRng("wide", sp.Index()).Bytes(64))
			put("key", func(p *ref.Parent) { p.EncKey = key })
			put("parent hash", func(p *ref.Parent) { p.ParentHash = flipByte(p.ParentHash, -1) })
			if len(tr.Parents[sp].Unmerged) > 0 {
				put("unmerged none", func(p *ref.Parent) { p.Unmerged = nil })
				put("unmerged less", func(p *ref.Parent) { p.Unmerged = p.Unmerged[1:] })
			}
			for i := sp.Lo; i < sp.Hi; i++ {
				if i == sp.Lo || i == sp.Hi-1 || (i-sp.Lo)%8 == 3 {
					put(fmt.Sprintf("unmerged also %d", i), func(p *ref.Parent) {
						k := 0
						for k < len(p.Unmerged) && p.Unmerged[k] < uint32(i) {
							k++
						}
						if k < len(p.Unmerged) && p.Unmerged[k] == uint32(i) {
							p.Unmerged = append(p.Unmerged[:k], p.Unmerged[k+1:]...)
						} else {
							p.Unmerged = append(p.Unmerged[:k:k], append([]uint32{uint32(i)}, p.Unmerged[k:]...)...)
						}
					})
				}
			}
			sc.tree(t, fmt.Sprintf("node %d blank", sp.Index()), func(tr *ref.Tree) { delete(tr.Parents, sp) })
			put("key of the root", func(p *ref.Parent) { p.EncKey = tr.Parents[tr.Root()].EncKey; p.ParentHash = flipByte(p.ParentHash, 0) })
		}})
	}
}

// ownKeys lets the committer put a key on its path that does not follow from
// the path secret it gives to the newcomer, with correct parent hashes.
func ownKeys(g *ref.Group, by, n int, name string, emit func(eng.Case)) {
	t := g.Tree.Copy()
	for k := 0; k < n; k++ {
		t.AddLeaf(g.Tree.Leaves[by])
	}
	path, _ := t.FilteredPath(by)
	for k := range path {
		k := k
		emit(eng.Case{Name: fmt.Sprintf("%s/own-key-%d", name, k), Run: func(t *eng.T) {
			key, _ := g.Suite.KeyPair(ref.NewRng("own", k).Bytes(64))
			sc := newScene(g, by, n, true, name, ref.CommitOpts{PathKeys: func(keys [][]byte) { keys[k] = key }})
			sc.judge(t, fmt.Sprintf("node %d of the path has another key", k), sc.raw(nil, ref.WelcomeOpts{}))
		}})
	}
}

// badEntries builds groups with one defective member, then invites someone.
func badEntries(r *eng.Run, g *ref.Group, by, u int, x509 bool, label string, emit func(eng.Case)) {
	run := func(e entry, path bool) {
		name := fmt.Sprintf("%s/%s/%v", label, e.name, path)
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			_, res := e.commit(g, by, u, path, false, false, name)
			if res == nil {
				eng.Harness("%s: cannot be formed", name)
			}
			h := res.Next
			// whoever can still sign invites
			for _, m := range []int{by, h.Tree.Members()[len(h.Tree.Members())-1]} {
				if h.SigPriv(m) == nil {
					continue
				}
				sc := newScene(h, m, 1, false, fmt.Sprintf("%s/%d", name, m), ref.CommitOpts{})
				raw := sc.raw(nil, ref.WelcomeOpts{})
				w, err := ref.ParseWelcome(raw)
				if err != nil {
					eng.Harness("%v", err)
				}
				_, err = ref.Join(ref.NewRing(), w, sc.me(), nil)
				if err == nil && e.valid {
					sc.honest(t, e.name, raw)
				}
				sc.judge(t, "member entry: "+e.name, raw)
			}
		}})
	}
	for _, e := range addEntries(g, by, x509, false, label) {
		run(e, false)
	}
	for _, e := range updateEntries(g, u, by, x509, label) {
		run(e, true)
	}
	for _, e := range pathEntries(g, by, x509, label) {
		run(e, true)
	}
}

func emitScene(r *eng.Run, sc *scene, emit func(eng.Case)) {
	one := func(name string, f func(t *eng.T)) {
		emit(eng.Case{Name: sc.name + "/" + name, Run: f})
	}
	s := sc.next.Suite
	one("controls", func(t *eng.T) {
		t.State()
		sc.honest(t, "plain", sc.raw(nil, ref.WelcomeOpts{}))
		sc.honest(t, "extra extensions", sc.raw(nil, ref.WelcomeOpts{ExtraExt: []ref.Ext{{Type: 0xff0a, Data: []byte("x")}, {Type: 4, Data: []byte("\x20aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")}}}))
	})
	one("info", func(t *eng.T) { infoFaults(t, sc) })
	one("secrets", func(t *eng.T) { secretFaults(t, sc) })
	for i := range sc.next.Tree.Leaves {
		i := i
		one(fmt.Sprintf("leaf%d", i), func(t *eng.T) { leafFaults(t, sc, i) })
	}
	one("swaps", func(t *eng.T) {
		ms := sc.next.Tree.Members()
		for k, i := range ms {
			for _, j := range ms[k+1:] {
				sc.tree(t, fmt.Sprintf("leaves %d and %d exchanged", i, j), func(tr *ref.Tree) {
					tr.Leaves[i], tr.Leaves[j] = tr.Leaves[j], tr.Leaves[i]
				})
			}
		}
	})
	var walk func(sp ref.Span)
	walk = func(sp ref.Span) {
		if sp.Leaf() {
			return
		}
		one(fmt.Sprintf("node%d", sp.Index()), func(t *eng.T) { nodeFaults(t, sc, sp) })
		walk(sp.Left())
		walk(sp.Right())
	}
	walk(sc.next.Tree.Root())
	one("layout", func(t *eng.T) {
		tr := sc.next.Tree
		enc := tr.Enc()
		var body []byte
		if err := ref.Decode(enc, func(r *ref.R) { body = r.Vec() }); err != nil {
			eng.Harness("%v", err)
		}
		lay := func(what string, b []byte) {
			raw := ref.Vec(b)
			sc.judge(t, what, sc.raw(nil, ref.WelcomeOpts{TreeRaw: raw}))
		}
		lay("one trailing blank node", append(append([]byte{}, body...), 0))
		lay("two trailing blank nodes", append(append([]byte{}, body...), 0, 0))
		lay("tree padded with blanks to twice its size", append(append([]byte{}, body...), make([]byte, 4*tr.N-1)...))
		lay("leading blank node", append([]byte{0}, body...))
		lay("empty tree", nil)
		lay("only blanks", make([]byte, 2*tr.N-1))
		for _, k := range []int{1, 2, 3, 7} {
			lay("cut", body[:len(body)-k])
		}
		sc.judge(t, "tree of another group", sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.NewTree(sc.me().KP.Leaf).Enc()}))
		sc.judge(t, "trailing byte", sc.raw(nil, ref.WelcomeOpts{TreeRaw: append(append([]byte{}, enc...), 0)}))
		sc.judge(t, "no tree", sc.raw(nil, ref.WelcomeOpts{NoTree: true}))
		// trees of other sizes, everything recomputed
		sc.tree(t, "twice the size", func(tr *ref.Tree) {
			tr.Leaves = append(append([]*ref.Leaf{}, tr.Leaves...), make([]*ref.Leaf, tr.N)...)
			tr.N *= 2
		})
		stranger := ref.NewParty(nil, s, sc.name+"/stranger", ref.PartyOpts{})
		sc.tree(t, "stranger far right", func(tr *ref.Tree) {
			tr.Leaves = append(append([]*ref.Leaf{}, tr.Leaves...), make([]*ref.Leaf, tr.N)...)
			tr.N *= 2
			tr.Leaves[tr.N-1] = stranger.KP.Leaf
		})
	})
}

// tree offers a Welcome for an altered tree, with everything recomputed.
func (sc *scene) tree(t *eng.T, what string, mut func(tr *ref.Tree)) {
	tr := sc.next.Tree.Copy()
	mut(tr)
	sc.judge(t, what, sc.raw(sc.next.Rebind(tr, nil), ref.WelcomeOpts{}))
}

func leafFaults(t *eng.T, sc *scene, i int) {
	g := sc.next
	s := g.Suite
	old := g.Tree.Leaves[i]
	if old == nil {
		stranger := ref.NewParty(g.Ring, s, fmt.Sprintf("%s/stranger%d", sc.name, i), ref.PartyOpts{})
		sc.tree(t, fmt.Sprintf("stranger at blank leaf %d", i), func(tr *ref.Tree) { tr.Leaves[i] = stranger.KP.Leaf })
		sc.tree(t, fmt.Sprintf("unsigned stranger at blank leaf %d", i), func(tr *ref.Tree) {
			tr.Leaves[i] = ed(stranger.KP.Leaf, func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, 9) })
		})
		for _, j := range g.Tree.Members() {
			sc.tree(t, fmt.Sprintf("copy of leaf %d at blank leaf %d", j, i), func(tr *ref.Tree) { tr.Leaves[i] = g.Tree.Leaves[j] })
		}
		return
	}
	sig := g.SigPriv(i)
	sc.tree(t, fmt.Sprintf("leaf %d missing", i), func(tr *ref.Tree) { tr.Leaves[i] = nil })
	sc.tree(t, fmt.Sprintf("leaf %d missing with its path", i), func(tr *ref.Tree) {
		tr.Leaves[i] = nil
		for _, a := range tr.Ancestors(i) {
			delete(tr.Parents, a)
		}
	})
	type change struct {
		name string
		f    func(l *ref.Leaf)
	}
	newKey, _ := s.KeyPair(ref.NewRng("leafFault", i).Bytes(64))
	newPub, newSig := s.SigPair(ref.NewRng("leafFaultSig", i).Bytes(32))
	changes := []change{
		{"signature first byte", func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, 0) }},
		{"signature last byte", func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, -1) }},
		{"signature empty", func(l *ref.Leaf) { l.Signature = nil }},
		{"signature cut", func(l *ref.Leaf) { l.Signature = l.Signature[:len(l.Signature)-1] }},
		{"signature repeated", func(l *ref.Leaf) { l.Signature = append(append([]byte{}, l.Signature...), l.Signature...) }},
		{"encryption key", func(l *ref.Leaf) { l.EncKey = newKey }},
		{"signature key", func(l *ref.Leaf) { l.SigKey = newPub }},
		{"identity", func(l *ref.Leaf) { l.Cred = ref.Basic("somebody else") }},
		{"parent hash", func(l *ref.Leaf) { l.ParentHash = flipByte(l.ParentHash, 3) }},
		{"no parent hash", func(l *ref.Leaf) { l.ParentHash = nil }},
		{"capabilities", func(l *ref.Leaf) { l.Caps.Props = append([]uint16{0x99}, l.Caps.Props...) }},
		{"no credential types", func(l *ref.Leaf) { l.Caps.Creds = nil }},
		{"extension", func(l *ref.Leaf) { l.Exts = append([]ref.Ext{{Type: 0xff66}}, l.Exts...) }},
		{"lifetime", func(l *ref.Leaf) { l.NotAfter++ }},
		{"source update", func(l *ref.Leaf) { l.Source, l.NotBefore, l.NotAfter, l.ParentHash = ref.SrcUpdate, 0, 0, nil }},
		{"source commit", func(l *ref.Leaf) { l.Source, l.NotBefore, l.NotAfter = ref.SrcCommit, 0, 0 }},
		{"source package", func(l *ref.Leaf) {
			l.Source, l.ParentHash = ref.SrcKeyPackage, nil
			l.NotBefore, l.NotAfter = uint64(ref.Now().Unix()-100), uint64(ref.Now().Unix()+10000)
		}},
	}
	bad := badSigKeys(old.SigKey)
	for _, k := range sortedKeys(bad) {
		changes = append(changes, change{"signature key " + k, func(l *ref.Leaf) { l.SigKey = bad[k] }})
	}
	for _, j := range others(g.Tree.Members(), i) {
		o := g.Tree.Leaves[j]
		changes = append(changes,
			change{fmt.Sprintf("encryption key of leaf %d", j), func(l *ref.Leaf) { l.EncKey = o.EncKey }},
			change{fmt.Sprintf("signature key of leaf %d", j), func(l *ref.Leaf) { l.SigKey = o.SigKey }},
			change{fmt.Sprintf("signature of leaf %d", j), func(l *ref.Leaf) { l.Signature = o.Signature }})
	}
	for sp, p := range g.Tree.Parents {
		p := p
		changes = append(changes, change{fmt.Sprintf("encryption key of node %d", sp.Index()), func(l *ref.Leaf) { l.EncKey = p.EncKey }})
	}
	for _, c := range changes {
		c := c
		sc.tree(t, fmt.Sprintf("leaf %d: %s", i, c.name), func(tr *ref.Tree) { tr.Leaves[i] = ed(old, c.f) })
		// signed again, as the owner or the holder of the new key would
		sc.tree(t, fmt.Sprintf("leaf %d: %s, signed again", i, c.name), func(tr *ref.Tree) {
			tr.Leaves[i] = ed(old, func(l *ref.Leaf) {
				c.f(l)
				key := sig
				if eq(l.SigKey, newPub) {
					key = newSig
				} else if k := g.Ring.Sig(l.SigKey); k != nil {
					key = k
				}
				l.Sign(s, key, g.Ctx.GroupID, uint32(i))
			})
		})
	}
	// signed for another place, group or by another member
	for _, j := range others(g.Tree.Members(), i) {
		if k := g.SigPriv(j); k != nil {
			sc.tree(t, fmt.Sprintf("leaf %d signed by %d", i, j), func(tr *ref.Tree) {
				tr.Leaves[i] = ed(old, func(l *ref.Leaf) { l.Sign(s, k, g.Ctx.GroupID, uint32(i)) })
			})
		}
		sc.tree(t, fmt.Sprintf("leaf %d signed as %d", i, j), func(tr *ref.Tree) {
			tr.Leaves[i] = ed(old, func(l *ref.Leaf) { l.Sign(s, sig, g.Ctx.GroupID, uint32(j)) })
		})
	}
	sc.tree(t, fmt.Sprintf("leaf %d signed for another group", i), func(tr *ref.Tree) {
		tr.Leaves[i] = ed(old, func(l *ref.Leaf) { l.Sign(s, sig, []byte("another"), uint32(i)) })
	})
	// a stranger in its place
	stranger := ref.NewParty(g.Ring, s, fmt.Sprintf("%s/instead%d", sc.name, i), ref.PartyOpts{})
	sc.tree(t, fmt.Sprintf("stranger at leaf %d", i), func(tr *ref.Tree) { tr.Leaves[i] = stranger.KP.Leaf })
}

func nodeFaults(t *eng.T, sc *scene, sp ref.Span) {
	g := sc.next
	s := g.Suite
	idx := sp.Index()
	var below []int
	for i := sp.Lo; i < sp.Hi; i++ {
		if g.Tree.Leaves[i] != nil {
			below = append(below, i)
		}
	}
	key, priv := s.KeyPair(ref.NewRng("nodeFault", idx).Bytes(64))
	g.Ring.PutEnc(key, priv)
	old := g.Tree.Parents[sp]
	if old != nil {
		put := func(what string, f func(p *ref.Parent)) {
			sc.tree(t, fmt.Sprintf("node %d: %s", idx, what), func(tr *ref.Tree) {
				p := *old
				p.Unmerged = append([]uint32{}, old.Unmerged...)
				f(&p)
				tr.Parents[sp] = &p
			})
		}
		sc.tree(t, fmt.Sprintf("node %d blank", idx), func(tr *ref.Tree) { delete(tr.Parents, sp) })
		put("other key", func(p *ref.Parent) { p.EncKey = key })
		put("empty key", func(p *ref.Parent) { p.EncKey = nil })
		put("parent hash altered", func(p *ref.Parent) { p.ParentHash = flipByte(p.ParentHash, 0) })
		put("parent hash altered at the end", func(p *ref.Parent) { p.ParentHash = flipByte(p.ParentHash, -1) })
		put("parent hash missing", func(p *ref.Parent) { p.ParentHash = nil })
		put("parent hash extended", func(p *ref.Parent) { p.ParentHash = append(append([]byte{}, p.ParentHash...), 0) })
		for i := 0; i < g.Tree.N+2; i++ {
			put(fmt.Sprintf("unmerged toggled %d", i), func(p *ref.Parent) {
				var u []uint32
				in, done := false, false
				for _, x := range p.Unmerged {
					if int(x) == i {
						in = true
						continue
					}
					if int(x) > i && !done {
						u, done = append(u, uint32(i)), true
					}
					u = append(u, x)
				}
				if in {
					u = nil
					for _, x := range p.Unmerged {
						if int(x) != i {
							u = append(u, x)
						}
					}
				} else if !done {
					u = append(u, uint32(i))
				}
				p.Unmerged = u
			})
			put(fmt.Sprintf("unmerged also %d", i), func(p *ref.Parent) { p.Unmerged = append(p.Unmerged, uint32(i)) })
		}
		for _, v := range []uint32{1 << 30, 1 << 31, 1<<32 - 1} {
			put(fmt.Sprintf("unmerged %d", v), func(p *ref.Parent) { p.Unmerged = append(p.Unmerged, v) })
		}
		if n := len(old.Unmerged); n > 0 {
			put("unmerged none", func(p *ref.Parent) { p.Unmerged = nil })
			put("unmerged twice", func(p *ref.Parent) { p.Unmerged = append(p.Unmerged[:1:1], p.Unmerged...) })
			put("unmerged reversed", func(p *ref.Parent) {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					p.Unmerged[i], p.Unmerged[j] = p.Unmerged[j], p.Unmerged[i]
				}
			})
		}
		for _, j := range g.Tree.Members() {
			put(fmt.Sprintf("key of leaf %d", j), func(p *ref.Parent) { p.EncKey = g.Tree.Leaves[j].EncKey })
		}
		for o, q := range g.Tree.Parents {
			if o != sp {
				put(fmt.Sprintf("key of node %d", o.Index()), func(p *ref.Parent) { p.EncKey = q.EncKey })
			}
		}
	}
	// A member below plants a node of its own here, and vouches for it with
	// its parent hash. Whether the result is valid depends on what else is
	// below.
	for _, a := range below {
		ph := g.Tree.Leaves[a].ParentHash
		for _, u := range subsets(below, a) {
			for v := 0; v < 3; v++ {
				v := v
				sc.tree(t, fmt.Sprintf("node %d planted by %d over %v (%d)", idx, a, u, v), func(tr *ref.Tree) {
					p := &ref.Parent{EncKey: key, Unmerged: u}
					switch {
					case v == 1:
						p.ParentHash = ph
					case v == 2 && old != nil:
						p.ParentHash = old.ParentHash
					}
					tr.Parents[sp] = p
					// nodes in between go
					for _, x := range tr.Ancestors(a) {
						if x.Hi-x.Lo < sp.Hi-sp.Lo && v != 2 {
							delete(tr.Parents, x)
						}
					}
					sib := sp.Left()
					if sib.Has(a) {
						sib = sp.Right()
					}
					without := map[int]bool{}
					for _, x := range u {
						without[int(x)] = true
					}
					tr.Leaves[a] = ed(tr.Leaves[a], func(l *ref.Leaf) {
						l.Source, l.NotBefore, l.NotAfter = ref.SrcCommit, 0, 0
						l.ParentHash = ref.ParentHash(s, p, tr.Hash(s, sib, without))
						l.Sign(s, g.SigPriv(a), g.Ctx.GroupID, uint32(a))
					})
				})
			}
		}
	}
}

// subsets lists the subsets of v without x; only some of them for large v.
func subsets(v []int, x int) (out [][]uint32) {
	v = others(v, x)
	for m := 0; m < 1<<len(v); m++ {
		var u []uint32
		for k, i := range v {
			if m>>k&1 > 0 {
				u = append(u, uint32(i))
			}
		}
		if len(v) <= 3 || len(u) <= 1 || len(u) >= len(v)-1 {
			out = append(out, u)
		}
	}
	return out
}

func infoFaults(t *eng.T, sc *scene) {
	g := sc.next
	s := g.Suite
	members := g.Tree.Members()
	// the context as stated differs from the one the tag covers
	for _, c := range contexts(g.Ctx) {
		c := c
		sc.judge(t, "context "+c.name, sc.raw(nil, ref.WelcomeOpts{Info: func(i *ref.GroupInfo) { i.Ctx = c.ctx }}))
		sc.judge(t, "unsigned context "+c.name, sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) { i.Ctx = c.ctx }}))
		if !eq(c.ctx.TreeHash, g.Ctx.TreeHash) || c.ctx.Version != 1 || c.ctx.Suite != s {
			// with a tag that covers it
			h := g.Rebind(g.Tree, func(x *ref.Ctx) { *x = c.ctx })
			sc.judge(t, "tagged context "+c.name, sc.raw(h, ref.WelcomeOpts{}))
		}
	}
	tags := map[string]func(b []byte) []byte{
		"first":   func(b []byte) []byte { return flipByte(b, 0) },
		"last":    func(b []byte) []byte { return flipByte(b, -1) },
		"cut":     func(b []byte) []byte { return b[:max(len(b)-1, 0)] },
		"half":    func(b []byte) []byte { return b[:len(b)/2] },
		"empty":   func(b []byte) []byte { return nil },
		"longer":  func(b []byte) []byte { return append(append([]byte{}, b...), 0) },
		"zero":    func(b []byte) []byte { return make([]byte, len(b)) },
		"context": func(b []byte) []byte { return s.MAC(s.Derive(g.Epoch, "confirm"), g.Ctx.Enc()) },
		"key":     func(b []byte) []byte { return s.MAC(s.Derive(g.Epoch, "membership"), g.Ctx.CTH) },
		"interim": func(b []byte) []byte { return s.MAC(s.Derive(g.Epoch, "confirm"), g.Interim) },
	}
	for n, f := range tags {
		f := f
		sc.judge(t, "confirmation tag "+n, sc.raw(nil, ref.WelcomeOpts{Info: func(i *ref.GroupInfo) { i.ConfTag = f(i.ConfTag) }}))
		sc.judge(t, "unsigned confirmation tag "+n, sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) { i.ConfTag = f(i.ConfTag) }}))
		sc.judge(t, "signature "+n, sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) { i.Signature = f(i.Signature) }}))
	}
	_, foreign := s.SigPair(ref.NewRng("foreign").Bytes(32))
	sc.judge(t, "signed by a stranger", sc.raw(nil, ref.WelcomeOpts{SignKey: foreign}))
	for _, m := range members {
		if m == sc.by {
			continue
		}
		if k := g.SigPriv(m); k != nil {
			sc.judge(t, fmt.Sprintf("signed by %d", m), sc.raw(nil, ref.WelcomeOpts{SignKey: k}))
		}
		sc.judge(t, fmt.Sprintf("claimed by %d", m), sc.raw(nil, ref.WelcomeOpts{Info: func(i *ref.GroupInfo) { i.Signer = uint32(m) }}))
		sc.judge(t, fmt.Sprintf("claimed by %d after signing", m), sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) { i.Signer = uint32(m) }}))
	}
	for i := 0; i < 2*g.Tree.N+1; i++ {
		if i < g.Tree.N && g.Tree.Leaves[i] != nil {
			continue
		}
		sc.judge(t, fmt.Sprintf("signer %d is nobody", i), sc.raw(nil, ref.WelcomeOpts{Info: func(x *ref.GroupInfo) { x.Signer = uint32(i) }}))
	}
	for _, v := range []uint32{1 << 24, 1 << 30, 1 << 31, 1<<32 - 1, 1<<31 | uint32(sc.by), 1<<30 | uint32(sc.by)} {
		sc.judge(t, fmt.Sprintf("signer %d is nobody", v), sc.raw(nil, ref.WelcomeOpts{Info: func(x *ref.GroupInfo) { x.Signer = v }}))
	}
	sc.judge(t, "extension added after signing", sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) { i.Exts = append(i.Exts, ref.Ext{Type: 0xff00}) }}))
	sc.judge(t, "extensions removed after signing", sc.raw(nil, ref.WelcomeOpts{ExtraExt: []ref.Ext{{Type: 0xff00}}, Signed: func(i *ref.GroupInfo) { i.Exts = i.Exts[:1] }}))
	for _, label := range []string{"", "LeafNodeTBS", "KeyPackageTBS", "FramedContentTBS"} {
		sc.judge(t, "signed as "+label, sc.raw(nil, ref.WelcomeOpts{Signed: func(i *ref.GroupInfo) {
			i.Signature = s.Sign(g.SigPriv(sc.by), label, i.TBS())
		}}))
	}
}

func secretFaults(t *eng.T, sc *scene) {
	g := sc.next
	s := g.Suite
	last := len(sc.ps) - 1
	sec := func(what string, f func(x *ref.GroupSecrets)) {
		sc.judge(t, what, sc.raw(nil, ref.WelcomeOpts{Secrets: func(i int, x *ref.GroupSecrets) {
			if i == last {
				f(x)
			}
		}}))
	}
	alter := map[string]func(b []byte) []byte{
		"first":  func(b []byte) []byte { return flipByte(b, 0) },
		"last":   func(b []byte) []byte { return flipByte(b, -1) },
		"cut":    func(b []byte) []byte { return b[:max(len(b)-1, 0)] },
		"short":  func(b []byte) []byte { return b[:len(b)/2] },
		"empty":  func(b []byte) []byte { return []byte{} },
		"longer": func(b []byte) []byte { return append(append([]byte{}, b...), 0) },
		"zero":   func(b []byte) []byte { return make([]byte, s.Nh()) },
		"next":   func(b []byte) []byte { return s.Derive(b, "path") },
		"node":   func(b []byte) []byte { return s.Derive(b, "node") },
	}
	for n, f := range alter {
		f := f
		sec("joiner secret "+n, func(x *ref.GroupSecrets) { x.Joiner = f(x.Joiner) })
		sec("path secret "+n, func(x *ref.GroupSecrets) {
			if x.PathSecret == nil {
				x.PathSecret = f(s.Derive(x.Joiner, "unrelated"))
			} else {
				x.PathSecret = f(x.PathSecret)
			}
		})
	}
	for sp, ps := range sc.path {
		sec(fmt.Sprintf("path secret of node %d", sp.Index()), func(x *ref.GroupSecrets) { x.PathSecret = ps })
	}
	for _, k := range []int{1, 2} {
		sec(fmt.Sprintf("%d pre-shared keys", k), func(x *ref.GroupSecrets) {
			for i := 0; i < k; i++ {
				x.PSKs = append(x.PSKs, ref.PSKID{Type: 1, ID: []byte("unknown"), Nonce: make([]byte, s.Nh())})
			}
		})
		sec(fmt.Sprintf("%d branch keys", k), func(x *ref.GroupSecrets) {
			for i := 0; i < k; i++ {
				x.PSKs = append(x.PSKs, ref.PSKID{Type: 2, Usage: 3, GroupID: []byte("unknown"), Nonce: make([]byte, s.Nh())})
			}
		})
	}
	// the path secret comes from another member than the one who signs
	for _, m := range g.Tree.Members() {
		k := g.SigPriv(m)
		if m == sc.by || k == nil || m == leafOf(g, sc.me()) {
			continue
		}
		m := m
		sc.judge(t, fmt.Sprintf("sent by %d", m), sc.raw(nil, ref.WelcomeOpts{SignKey: k, Info: func(i *ref.GroupInfo) { i.Signer = uint32(m) }}))
	}
	// wrong layers
	sc.judge(t, "other context of the secrets", sc.raw(nil, ref.WelcomeOpts{HPKECtx: func(b []byte) []byte { return flipByte(b, 0) }}))
	sc.judge(t, "no context of the secrets", sc.raw(nil, ref.WelcomeOpts{HPKECtx: func(b []byte) []byte { return nil }}))
	sc.judge(t, "other group info key", sc.raw(nil, ref.WelcomeOpts{InfoKey: g.Joiner}))
	sc.judge(t, "other group info key", sc.raw(nil, ref.WelcomeOpts{InfoKey: s.Derive(g.Joiner, "welcome")}))
	for _, v := range []uint16{0, 1, 2, 3, 4, 5, 6, 7, 8, 0xffff} {
		if v != uint16(s) {
			sc.judge(t, fmt.Sprintf("suite %d", v), sc.raw(nil, ref.WelcomeOpts{Welcome: func(w *ref.Welcome) { w.Suite = v }}))
		}
	}
	sc.judge(t, "nobody invited", sc.raw(nil, ref.WelcomeOpts{Welcome: func(w *ref.Welcome) { w.Secrets = nil }}))
	sc.judge(t, "someone else invited", sc.raw(nil, ref.WelcomeOpts{Welcome: func(w *ref.Welcome) {
		w.Secrets[last].NewMember = flipByte(w.Secrets[last].NewMember, 1)
	}}))
	if last > 0 {
		sc.judge(t, "secrets exchanged", sc.raw(nil, ref.WelcomeOpts{Welcome: func(w *ref.Welcome) {
			w.Secrets[0].Ct, w.Secrets[last].Ct = w.Secrets[last].Ct, w.Secrets[0].Ct
		}}))
		sc.judge(t, "names exchanged", sc.raw(nil, ref.WelcomeOpts{Welcome: func(w *ref.Welcome) {
			w.Secrets[0].NewMember, w.Secrets[last].NewMember = w.Secrets[last].NewMember, w.Secrets[0].NewMember
		}}))
	}
	// invited, but not in the tree, or only with another entry
	outsider := ref.NewParty(g.Ring, s, sc.name+"/outsider", ref.PartyOpts{})
	o := &scene{sc.name, sc.next, sc.by, []*ref.Party{outsider}, nil}
	o.judge(t, "own entry missing", o.raw(nil, ref.WelcomeOpts{}))
	// a second package with the keys of a member
	me := sc.me()
	twin := &ref.Party{KP: me.KP.Copy(), Priv: me.Priv}
	twin.KP.Leaf = ed(me.KP.Leaf, func(l *ref.Leaf) { l.NotAfter--; l.Sign(s, me.Priv.Sig, nil, 0) })
	twin.KP.SignAs(s, me.Priv.Sig)
	o = &scene{sc.name, sc.next, sc.by, []*ref.Party{twin}, sc.path}
	o.judge(t, "only an entry with the same keys present", o.raw(nil, ref.WelcomeOpts{}))
	o.judge(t, "only an entry with the same keys present", o.raw(nil, ref.WelcomeOpts{Secrets: func(_ int, x *ref.GroupSecrets) { x.PathSecret = nil }}))
}

// emitBytes enumerates changes of single bytes at each layer.
func emitBytes(r *eng.Run, sc *scene, emit func(eng.Case)) {
	honest := sc.raw(nil, ref.WelcomeOpts{})
	masks := []byte{1, 0x80}
	if r.Thorough() {
		masks = []byte{1, 2, 4, 8, 16, 32, 64, 128}
	}
	chunk := func(name string, n int, f func(t *eng.T, i int)) {
		const size = 64
		for lo := 0; lo < n; lo += size {
			lo := lo
			emit(eng.Case{Name: fmt.Sprintf("%s/%s%d", sc.name, name, lo), Run: func(t *eng.T) {
				for i := lo; i < n && i < lo+size && !t.Failed(); i++ {
					f(t, i)
				}
			}})
		}
	}
	mut := func(b []byte, i int, m byte) []byte {
		b = append([]byte{}, b...)
		b[i] ^= m
		return b
	}
	chunk("cut", len(honest), func(t *eng.T, i int) { sc.judge(t, fmt.Sprintf("cut to %d bytes", i), honest[:i]) })
	if len(sc.ps) > 1 {
		return
	}
	chunk("byte", len(honest), func(t *eng.T, i int) {
		for _, m := range masks {
			sc.judge(t, fmt.Sprintf("byte %d changed by %02x", i, m), mut(honest, i, m))
		}
	})
	var info, secrets []byte
	sc.raw(nil, ref.WelcomeOpts{
		RawInfo: func(b []byte) []byte { info = b; return b },
		RawSec:  func(_ int, b []byte) []byte { secrets = b; return b },
	})
	chunk("info", len(info), func(t *eng.T, i int) {
		for _, m := range masks {
			sc.judge(t, fmt.Sprintf("byte %d of the group info changed by %02x", i, m), sc.raw(nil, ref.WelcomeOpts{RawInfo: func(b []byte) []byte { return mut(b, i, m) }}))
		}
		sc.judge(t, fmt.Sprintf("group info cut to %d bytes", i), sc.raw(nil, ref.WelcomeOpts{RawInfo: func(b []byte) []byte { return b[:i] }}))
	})
	chunk("secrets", len(secrets), func(t *eng.T, i int) {
		for _, m := range masks {
			sc.judge(t, fmt.Sprintf("byte %d of the secrets changed by %02x", i, m), sc.raw(nil, ref.WelcomeOpts{RawSec: func(_ int, b []byte) []byte { return mut(b, i, m) }}))
		}
		sc.judge(t, fmt.Sprintf("secrets cut to %d bytes", i), sc.raw(nil, ref.WelcomeOpts{RawSec: func(_ int, b []byte) []byte { return b[:i] }}))
	})
	tree := sc.next.Tree.Enc()
	chunk("tree", len(tree), func(t *eng.T, i int) {
		for _, m := range masks {
			raw := mut(tree, i, m)
			g := sc.next
			if tr, err := ref.ParseTree(raw); err == nil {
				g = g.Rebind(tr, nil)
			}
			sc.judge(t, fmt.Sprintf("byte %d of the tree changed by %02x", i, m), sc.raw(g, ref.WelcomeOpts{TreeRaw: raw}))
		}
	})
}

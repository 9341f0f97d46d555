package main

import (
	"bytes"
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C14"] = check{"model_checking", eng.Meta{
		Rule: "a state is a group shape with a committer and a kind of commit; a transition is that commit with one divergence between the committer's and the receivers' view of the new epoch, offered to one member; acceptance is only allowed if the member then shares the committer's epoch (a trace: both read each other)",
		Assumptions: []string{
			"the committer's tags and ciphertexts are computed from its own divergent view, as a buggy or malicious member would",
		},
	}, c14}
}

// divergence is one way for the committer's view to differ.
type divergence struct {
	name   string
	reject bool // no receiver can share the committer's epoch
	// who tells, by the index on the committer's path at which a receiver
	// learns its path secret, whether the receiver is able to notice
	who  func(j int) bool
	hook func(o *ref.CommitOpts)
}

func flipByte(b []byte, pos int) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return []byte{1}
	}
	if pos < 0 {
		pos += len(b)
	}
	b[pos%len(b)] ^= 0x40
	return b
}

func divergences(g *ref.Group, by int, path bool, npath int) (out []divergence) {
	s := g.Suite
	add := func(name string, hook func(o *ref.CommitOpts)) { out = append(out, divergence{name, true, nil, hook}) }
	maybe := func(name string, who func(j int) bool, hook func(o *ref.CommitOpts)) {
		out = append(out, divergence{name, false, who, hook})
	}
	for _, c := range contexts(ref.Ctx{}) {
		name := c.name
		add("context-"+name, func(o *ref.CommitOpts) {
			o.NextCtx = func(c *ref.Ctx) {
				for _, n := range contexts(*c) {
					if n.name == name {
						*c = n.ctx
						return
					}
				}
			}
		})
		if path {
			add("encryption-context-"+name, func(o *ref.CommitOpts) {
				o.EncCtx = func(c *ref.Ctx) {
					for _, n := range contexts(*c) {
						if n.name == name {
							*c = n.ctx
							return
						}
					}
				}
			})
		}
	}
	add("context-old-tree", func(o *ref.CommitOpts) { o.NextCtx = func(c *ref.Ctx) { c.TreeHash = g.Ctx.TreeHash } })
	add("context-old-transcript", func(o *ref.CommitOpts) { o.NextCtx = func(c *ref.Ctx) { c.CTH = g.Ctx.CTH } })
	add("context-old", func(o *ref.CommitOpts) { o.NextCtx = func(c *ref.Ctx) { *c = g.Ctx } })
	if path {
		add("encryption-context-old", func(o *ref.CommitOpts) { o.EncCtx = func(c *ref.Ctx) { *c = g.Ctx } })
		add("encryption-context-old-tree", func(o *ref.CommitOpts) { o.EncCtx = func(c *ref.Ctx) { c.TreeHash = g.Ctx.TreeHash } })
	}
	sec := func(name string, f func(init, commit, psk *[]byte)) {
		add("secret-"+name, func(o *ref.CommitOpts) { o.Secrets = f })
	}
	for _, pos := range []int{0, -1} {
		pos := pos
		sec(fmt.Sprintf("init-%d", pos), func(i, c, p *[]byte) { *i = flipByte(*i, pos) })
		sec(fmt.Sprintf("commit-%d", pos), func(i, c, p *[]byte) { *c = flipByte(*c, pos) })
		sec(fmt.Sprintf("psk-%d", pos), func(i, c, p *[]byte) { *p = flipByte(*p, pos) })
	}
	sec("init-zero", func(i, c, p *[]byte) { *i = make([]byte, s.Nh()) })
	sec("init-epoch", func(i, c, p *[]byte) { *i = g.Epoch })
	sec("init-joiner", func(i, c, p *[]byte) { *i = g.Joiner })
	sec("swapped", func(i, c, p *[]byte) { *i, *c = *c, *i })
	sec("psk-external", func(i, c, p *[]byte) { *p = s.Extract(make([]byte, s.Nh()), []byte("known to some")) })
	if path {
		sec("commit-zero", func(i, c, p *[]byte) { *c = make([]byte, s.Nh()) })
		sec("commit-next", func(i, c, p *[]byte) { *c = s.Derive(*c, "path") })
	} else {
		sec("commit-random", func(i, c, p *[]byte) { *c = ref.NewRng("cs").Bytes(s.Nh()) })
		sec("commit-empty-hash", func(i, c, p *[]byte) { *c = s.Hash() })
	}
	interim := func(name string, f func(h *[]byte)) {
		add("transcript-"+name, func(o *ref.CommitOpts) { o.Interim = f })
	}
	interim("flipped", func(h *[]byte) { *h = flipByte(*h, 0) })
	interim("last", func(h *[]byte) { *h = flipByte(*h, -1) })
	interim("empty", func(h *[]byte) { *h = nil })
	interim("confirm", func(h *[]byte) { *h = g.Ctx.CTH })
	interim("zero", func(h *[]byte) { *h = make([]byte, len(*h)) })
	interim("repeated", func(h *[]byte) { *h = s.Hash(*h, ref.Vec(g.ConfTag)) })
	tag := func(name string, f func(b []byte) []byte) {
		add("tag-"+name, func(o *ref.CommitOpts) { o.ConfTag = f })
	}
	tag("flipped", func(b []byte) []byte { return flipByte(b, 0) })
	tag("last", func(b []byte) []byte { return flipByte(b, -1) })
	tag("empty", func(b []byte) []byte { return []byte{} })
	tag("short", func(b []byte) []byte { return b[:1] })
	tag("truncated", func(b []byte) []byte { return b[:len(b)-1] })
	tag("extended", func(b []byte) []byte { return append(append([]byte{}, b...), 0) })
	tag("zero", func(b []byte) []byte { return make([]byte, len(b)) })
	tag("current", func(b []byte) []byte { return g.ConfTag })
	// trees that differ from what the commit says
	for _, m := range g.Tree.Members() {
		m := m
		if m == by {
			continue
		}
		add(fmt.Sprintf("tree-leaf-%d", m), func(o *ref.CommitOpts) {
			o.TreeMut = func(t *ref.Tree) {
				if m < t.N && t.Leaves[m] != nil {
					l := t.Leaves[m].Copy()
					l.Signature = flipByte(l.Signature, 3)
					t.Leaves[m] = l
				} else {
					l := t.Leaves[by].Copy()
					l.Signature = flipByte(l.Signature, 3)
					t.Leaves[by] = l
				}
			}
		})
	}
	add("tree-unmerged", func(o *ref.CommitOpts) {
		o.TreeMut = func(t *ref.Tree) {
			first := ref.Span{Lo: -1}
			for sp := range t.Parents {
				if first.Lo < 0 || sp.Index() < first.Index() {
					first = sp
				}
			}
			if first.Lo >= 0 {
				c := *t.Parents[first]
				if len(c.Unmerged) > 0 {
					c.Unmerged = nil
				} else {
					m := first.Lo
					for t.Leaves[m] == nil {
						m++
					}
					c.Unmerged = []uint32{uint32(m)}
				}
				t.Parents[first] = &c
				return
			}
			l := t.Leaves[by].Copy()
			l.Signature = flipByte(l.Signature, 3)
			t.Leaves[by] = l
		}
	})
	add("tree-larger", func(o *ref.CommitOpts) {
		o.TreeMut = func(t *ref.Tree) {
			t.Leaves = append(append([]*ref.Leaf{}, t.Leaves...), make([]*ref.Leaf, t.N)...)
			t.N *= 2
		}
	})
	if path {
		for k := 0; k < npath; k++ {
			k := k
			here := func(j int) bool { return j == k }
			below := func(j int) bool { return j <= k }
			maybe(fmt.Sprintf("path-secret-%d", k), here, func(o *ref.CommitOpts) {
				o.PathSecret = func(i int, b []byte) []byte {
					if i == k {
						return flipByte(b, 5)
					}
					return b
				}
			})
			maybe(fmt.Sprintf("path-secret-next-%d", k), here, func(o *ref.CommitOpts) {
				o.PathSecret = func(i int, b []byte) []byte {
					if i == k {
						return s.Derive(b, "path")
					}
					return b
				}
			})
			maybe(fmt.Sprintf("path-secret-short-%d", k), here, func(o *ref.CommitOpts) {
				o.PathSecret = func(i int, b []byte) []byte {
					if i == k {
						return b[:len(b)-1]
					}
					return b
				}
			})
			for n, f := range map[string]func(b []byte) []byte{
				"long":  func(b []byte) []byte { return append(append([]byte{}, b...), 1) },
				"twice": func(b []byte) []byte { return append(append([]byte{}, b...), b...) },
				"empty": func(b []byte) []byte { return nil },
			} {
				f := f
				maybe(fmt.Sprintf("path-secret-%s-%d", n, k), here, func(o *ref.CommitOpts) {
					o.PathSecret = func(i int, b []byte) []byte {
						if i == k {
							return f(b)
						}
						return b
					}
				})
			}
			maybe(fmt.Sprintf("path-key-%d", k), below, func(o *ref.CommitOpts) {
				o.PathKeys = func(keys [][]byte) {
					pub, priv := s.KeyPair(ref.NewRng("pk", k).Bytes(64))
					g.Ring.PutEnc(pub, priv)
					keys[k] = pub
				}
			})
			maybe(fmt.Sprintf("path-count-less-%d", k), here, func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) {
					if len(p.Nodes[k].Cts) > 0 {
						p.Nodes[k].Cts = p.Nodes[k].Cts[1:]
					}
				}
			})
			maybe(fmt.Sprintf("path-count-none-%d", k), here, func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) { p.Nodes[k].Cts = nil }
			})
			maybe(fmt.Sprintf("path-order-%d", k), nil, func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) {
					c := p.Nodes[k].Cts
					for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
						c[i], c[j] = c[j], c[i]
					}
				}
			})
			maybe(fmt.Sprintf("path-ciphertext-%d", k), here, func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) {
					for i := range p.Nodes[k].Cts {
						p.Nodes[k].Cts[i].Ct = flipByte(p.Nodes[k].Cts[i].Ct, i)
					}
				}
			})
			maybe(fmt.Sprintf("path-kem-%d", k), here, func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) {
					for i := range p.Nodes[k].Cts {
						p.Nodes[k].Cts[i].Kem = flipByte(p.Nodes[k].Cts[i].Kem, 2)
					}
				}
			})
			add(fmt.Sprintf("path-missing-%d", k), func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) { p.Nodes = append(append([]ref.PathNode{}, p.Nodes[:k]...), p.Nodes[k+1:]...) }
			})
			add(fmt.Sprintf("path-extra-%d", k), func(o *ref.CommitOpts) {
				o.PathPost = func(p *ref.Path) {
					nodes := append([]ref.PathNode{}, p.Nodes[:k]...)
					pub, _ := s.KeyPair(ref.NewRng("extra", k).Bytes(64))
					nodes = append(nodes, ref.PathNode{EncKey: pub, Cts: p.Nodes[k].Cts})
					p.Nodes = append(nodes, p.Nodes[k:]...)
				}
			})
		}
		add("path-extra-top", func(o *ref.CommitOpts) {
			o.PathPost = func(p *ref.Path) {
				pub, _ := s.KeyPair(ref.NewRng("extra", "top").Bytes(64))
				p.Nodes = append(p.Nodes, ref.PathNode{EncKey: pub})
			}
		})
		add("parent-hash", func(o *ref.CommitOpts) { o.LeafPre = func(l *ref.Leaf) { l.ParentHash = flipByte(l.ParentHash, 0) } })
		add("parent-hash-empty", func(o *ref.CommitOpts) {
			o.LeafPre = func(l *ref.Leaf) {
				if len(l.ParentHash) == 0 {
					l.ParentHash = []byte{0}
				} else {
					l.ParentHash = nil
				}
			}
		})
	}
	return out
}

// kinds of honest commits by a member, as operations.
func commitKinds(w *eng.World, by int) (out []eng.Op) {
	oth := others(w.M.Tree.Members(), by)
	out = append(out, eng.Op{By: by, Add: 1}, eng.Op{By: by, Path: true}, eng.Op{By: by, Add: 2, Path: true})
	if len(oth) > 0 {
		out = append(out, eng.Op{By: by, Rem: oth[:1], Path: true}, eng.Op{By: by, Upd: oth[len(oth)-1:], Path: true})
	}
	if len(oth) > 1 {
		out = append(out, eng.Op{By: by, Upd: oth[:1], Rem: oth[1:2], Add: 1, Path: true, Ref: true})
	}
	if len(oth) == 2 && by == 0 && w.M.Suite == 1 {
		// long lists
		out = append(out, eng.Op{By: by, Add: 12, Path: true}, eng.Op{By: by, Add: 40}, eng.Op{By: by, Add: 20, Rem: oth[:1], Path: true})
	}
	return out
}

// lists turns an operation into the entries of a commit.
func (c *opMessages) prepare(w *eng.World, o eng.Op, label string) {
	g := w.M
	rng := ref.NewRng("prep", label)
	gens := map[int]uint32{}
	propose := func(sender int, p *ref.Proposal) {
		msg, pend, ng := g.Propose(sender, p, ref.Frame{Private: o.RefPriv, Gen: gens[sender]})
		gens[sender]++
		g = ng
		c.pre = append(c.pre, msg)
		c.list = append(c.list, ref.PropOrRef{Ref: pend.Ref})
	}
	for _, u := range o.Upd {
		propose(u, ref.UpdateWith(w.M.UpdateLeaf(u, rng, nil, false)))
	}
	for _, x := range o.Rem {
		if o.Ref {
			propose(o.By, ref.Remove(x))
		} else {
			c.list = append(c.list, ref.PropOrRef{Prop: ref.Remove(x)})
		}
	}
	for k := 0; k < o.Add; k++ {
		p := ref.NewParty(g.Ring, g.Suite, fmt.Sprintf("%s/add%d", label, k), ref.PartyOpts{})
		c.list = append(c.list, ref.PropOrRef{Prop: ref.Add(p.KP)})
	}
	c.base, c.gen = g, gens[o.By]
}

type opMessages struct {
	pre  [][]byte
	list []ref.PropOrRef
	base *ref.Group
	gen  uint32
}

func c14(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		by    []int
	}
	confs := []conf{{"pair-path", 1, []int{0, 1}}, {"three", 1, []int{0, 2}}, {"unmerged", 1, []int{1, 3}}, {"five-holes", 1, []int{4}}, {"eight", 1, []int{5}}, {"three", 3, []int{1}}, {"three", 2, []int{1}}, {"three", 7, []int{1}}, {"three@odd", 1, []int{1}}, {"three@bare", 1, []int{0}}, {"far", 1, []int{255}}, {"deep", 1, []int{0}}}
	if r.Thorough() {
		confs = append(confs, conf{"hole", 1, []int{0, 2, 3}}, conf{"refilled", 1, []int{0, 3, 6}}, conf{"four-blank", 1, []int{0, 1, 2, 3}}, conf{"unmerged", 2, []int{0, 3}}, conf{"unmerged", 7, []int{0, 3}}, conf{"eight", 3, []int{0, 7}}, conf{"five", 1, []int{0, 1, 2, 3, 4}})
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			c := c
			var w *eng.World
			label := fmt.Sprintf("%s/s%d", c.shape, c.s)
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil {
				continue
			}
			for _, by := range c.by {
				for k, o := range commitKinds(w, by) {
					for _, priv := range []bool{false, true} {
						if c.shape == "deep" && priv != (k%2 == 0) {
							continue
						}
						o := o
						o.Priv, o.RefPriv = priv, priv
						c14Commit(r, w, o, label, emit)
					}
				}
			}
		}
	})
}

// fault is a commit made with one divergence.
type fault struct {
	name   string
	reject bool
	who    func(j int) bool
	mk     func() (attack, *ref.CommitResult)
}

// commitFaults lists the divergences of a commit, which itself is returned
// first. The messages to offer beforehand are the same for all of them.
func commitFaults(w *eng.World, o eng.Op, label string) (honest attack, hres *ref.CommitResult, out []fault) {
	var m opMessages
	m.prepare(w, o, label)
	mk := func(name string, hook func(*ref.CommitOpts)) (attack, *ref.CommitResult) {
		// the more a commit adds, the more data it carries along
		co := ref.CommitOpts{Frame: ref.Frame{Private: o.Priv, Gen: m.gen, AAD: bytes.Repeat([]byte{7}, 20*o.Add)}, Sender: o.By, List: m.list, Path: o.Path, Rng: ref.NewRng("c14", label)}
		if hook != nil {
			hook(&co)
		}
		res, err := m.base.Commit(co)
		if err != nil {
			eng.Harness("%s: %v", label, err)
		}
		return attack{name, m.pre, res.Msg}, res
	}
	honest, hres = mk("honest", nil)
	npath := 0
	if hres.Path != nil {
		npath = len(hres.Path.Nodes)
	}
	try := func(name string, reject bool, hook func(*ref.CommitOpts)) {
		out = append(out, fault{name, reject, nil, func() (attack, *ref.CommitResult) { return mk(name, hook) }})
	}
	for _, d := range divergences(m.base, o.By, o.Path, npath) {
		try(d.name, d.reject, d.hook)
		out[len(out)-1].who = d.who
	}
	// a commit that names other proposals than the committer applied
	if len(m.list) > 0 && (o.Path || len(m.list) > 1) {
		try("proposal-dropped", true, func(co *ref.CommitOpts) {
			co.Commit = func(c *ref.Commit) { c.Props = c.Props[:len(c.Props)-1] }
		})
	}
	extra := ref.NewParty(w.M.Ring, w.M.Suite, label+"/unexpected", ref.PartyOpts{})
	try("proposal-added", true, func(co *ref.CommitOpts) {
		co.Commit = func(c *ref.Commit) {
			c.Props = append(append([]ref.PropOrRef{}, c.Props...), ref.PropOrRef{Prop: ref.Add(extra.KP)})
		}
	})
	if o.Path {
		try("path-omitted", true, func(co *ref.CommitOpts) { co.PathSkip = true })
	}
	// effects the library cannot reproduce
	psk := ref.PSKID{Type: 1, ID: []byte("id"), Nonce: make([]byte, w.M.Suite.Nh()), Material: []byte("m")}
	res := ref.PSKID{Type: 2, Usage: 1, GroupID: gid, Epoch: w.M.Ctx.Epoch - 1, Nonce: make([]byte, w.M.Suite.Nh()), Material: []byte("m")}
	for _, x := range []struct {
		name string
		p    *ref.Proposal
	}{{"psk", ref.PSK(psk)}, {"resumption", ref.PSK(res)}, {"extensions", ref.GCE(ref.Ext{Type: 0xff11, Data: []byte("new")})}} {
		x := x
		if x.name == "extensions" && !o.Path {
			continue
		}
		list := func(co *ref.CommitOpts) {
			co.List = append(append([]ref.PropOrRef{}, m.list...), ref.PropOrRef{Prop: x.p})
		}
		try("effect-"+x.name, false, list)
		try("effect-ignored-"+x.name, true, func(co *ref.CommitOpts) {
			list(co)
			co.IgnorePSK, co.IgnoreGCE = true, true
		})
	}
	if len(m.base.Ctx.Exts) == 0 && o.Path {
		try("effect-empty-extensions", false, func(co *ref.CommitOpts) {
			co.List = append(append([]ref.PropOrRef{}, m.list...), ref.PropOrRef{Prop: ref.GCE()})
		})
	}
	return honest, hres, out
}

func c14Commit(r *eng.Run, w *eng.World, o eng.Op, label string, emit func(eng.Case)) {
	r.State()
	label += "/" + o.String()
	honest, hres, faults := commitFaults(w, o, label)
	emit(eng.Case{Name: label + "/honest", Run: func(t *eng.T) {
		for _, i := range w.Leaves() {
			if has(o.Rem, i) || has(o.Upd, i) || i == o.By && o.Path {
				continue
			}
			if c := accepts(t, w, i, honest); c != nil {
				reads(t, hres.Next, i, c, "honest")
				follows(t, hres.Next, i, c, "honest")
			}
		}
	}})
	for _, f := range faults {
		emit(eng.Case{Name: label + "/" + f.name, Run: func(t *eng.T) {
			a, res := f.mk()
			if eq(a.msg, honest.msg) {
				t.Count("no divergence")
				return
			}
			for _, i := range w.Leaves() {
				if f.reject || f.who != nil && f.who(pathIndex(hres.Next, o.By, i)) {
					refuses(t, w, i, a)
					continue
				}
				c := eng.Clone(w.R[i])
				t.Transition()
				t.Case(a.msg)
				for _, p := range a.pre {
					eng.Proc(c, p)
				}
				_, err := eng.Proc(c, a.msg)
				if eng.Panicked(err) {
					t.Fail("%s: leaf %d: %v", f.name, i, err)
				} else if err == nil {
					t.Count("unaffected member follows")
					reads(t, res.Next, i, c, f.name)
					follows(t, res.Next, i, c, f.name)
				} else {
					t.Count("refused")
				}
			}
			t.Sample("divergence", t.Name)
		}})
	}
}

// pathIndex is the index on the committer's path at which a member learns its
// path secret, -1 if it does not.
func pathIndex(g *ref.Group, by, i int) int {
	if i == by {
		return -1
	}
	_, copath := g.Tree.FilteredPath(by)
	for j, c := range copath {
		if c.Has(i) {
			return j
		}
	}
	return -1
}

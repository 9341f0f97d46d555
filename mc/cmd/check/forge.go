package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

// specimen is an honest message of some kind with the means to remake it in an
// altered way.
type specimen struct {
	name string
	pre  [][]byte
	priv bool
	typ  uint8
	from int
	// make frames the same content again under the given hooks
	make func(f ref.Frame) []byte
	// remake also alters the commit itself; nil unless a commit
	remake func(o func(*ref.CommitOpts)) []byte
}

func (s specimen) msg() []byte { return s.make(ref.Frame{}) }

// specimens are honest messages of every kind by the given sender in a world.
func specimens(w *eng.World, from int, label string) (out []specimen) {
	g := w.M
	members := g.Tree.Members()
	target := -1 // someone to remove
	for _, m := range members {
		if m != from {
			target = m
		}
	}
	merge := func(f ref.Frame, priv bool) ref.Frame {
		f.Private = priv
		return f
	}
	out = append(out, specimen{name: "application", priv: true, typ: ref.CTApplication, from: from, make: func(f ref.Frame) []byte {
		if f.AAD == nil {
			f.AAD = []byte("ad")
		}
		return g.App(from, []byte("payload"), f)
	}})
	newcomer := ref.NewParty(g.Ring, g.Suite, label+"/newcomer", ref.PartyOpts{})
	for _, priv := range []bool{false, true} {
		priv := priv
		suffix := "-public"
		if priv {
			suffix = "-private"
		}
		props := map[string]*ref.Proposal{"add": ref.Add(newcomer.KP)}
		if target >= 0 {
			props["remove"] = ref.Remove(target)
		}
		props["update"] = ref.UpdateWith(g.UpdateLeaf(from, ref.NewRng("upd", label), nil, false))
		for _, k := range []string{"add", "remove", "update"} {
			if p := props[k]; p != nil {
				out = append(out, specimen{name: "proposal-" + k + suffix, priv: priv, typ: ref.CTProposal, from: from, make: func(f ref.Frame) []byte {
					msg, _, _ := g.Propose(from, p, merge(f, priv))
					return msg
				}})
			}
		}
		commit := func(name string, base *ref.Group, pre [][]byte, list []ref.PropOrRef, path bool) {
			mk := func(f ref.Frame, hook func(*ref.CommitOpts)) []byte {
				o := ref.CommitOpts{Frame: merge(f, priv), Sender: from, List: list, Path: path, Rng: ref.NewRng("commit", label, name)}
				if hook != nil {
					hook(&o)
				}
				res, err := base.Commit(o)
				if err != nil {
					eng.Harness("%s: %v", name, err)
				}
				return res.Msg
			}
			out = append(out, specimen{name: name + suffix, pre: pre, priv: priv, typ: ref.CTCommit, from: from,
				make:   func(f ref.Frame) []byte { return mk(f, nil) },
				remake: func(h func(*ref.CommitOpts)) []byte { return mk(ref.Frame{}, h) },
			})
		}
		commit("commit-add", g, nil, inline(ref.Add(newcomer.KP)), false)
		if len(members) > 1 {
			commit("commit-path", g, nil, nil, true)
		}
		if len(members) > 2 {
			// a removal by another member, by reference
			prop := members[0]
			if prop == from {
				prop = members[1]
			}
			pm, pend, ng := g.Propose(prop, ref.Remove(target), ref.Frame{Private: !priv, Gen: 7})
			commit("commit-ref", ng, [][]byte{pm}, []ref.PropOrRef{{Ref: pend.Ref}}, true)
		}
	}
	return out
}

// forgeries lists the ways to forge a specimen structurally: every hash, tag
// and key that is not the forged one is right.
func forgeries(w *eng.World, s specimen, label string) (out []attack) {
	g := w.M
	suite := g.Suite
	members := g.Tree.Members()
	add := func(name string, f ref.Frame) {
		out = append(out, attack{s.name + "/" + name, s.pre, s.make(f)})
	}
	other := members[0]
	if other == s.from {
		other = members[1]
	}
	u32 := func(i int) *uint32 { v := uint32(i); return &v }

	// signature by someone else
	_, fresh := suite.SigPair(ref.NewRng("fresh", label).Bytes(32))
	add("signed-by-stranger", ref.Frame{SignKey: fresh})
	for _, m := range members {
		if m != s.from {
			add(fmt.Sprintf("signed-by-leaf-%d", m), ref.Frame{SignKey: g.SigPriv(m)})
		}
	}
	// signature malformed
	muts := map[string]func(b []byte) []byte{
		"empty":    func(b []byte) []byte { return nil },
		"short":    func(b []byte) []byte { return b[:len(b)-1] },
		"long":     func(b []byte) []byte { return append(append([]byte{}, b...), 0) },
		"zero":     func(b []byte) []byte { return make([]byte, len(b)) },
		"first":    func(b []byte) []byte { return b[:1] },
		"reversed": func(b []byte) []byte { return reversed(b) },
	}
	names := []string{"empty", "short", "long", "zero", "first", "reversed"}
	for _, k := range names {
		m := muts[k]
		add("signature-"+k, ref.Frame{Signed: func(a *ref.Auth) { a.Sig = m(a.Sig) }})
	}
	// signature under another label or wire format
	for _, l := range []string{"GroupInfoTBS", "LeafNodeTBS", "KeyPackageTBS", "framedContentTBS", "FramedContentTBM"} {
		add("label-"+l, ref.Frame{SignLabel: l})
	}
	wf := uint16(ref.WFPublic)
	if !s.priv {
		wf = ref.WFPrivate
	}
	add("signed-for-other-wire-format", ref.Frame{SignWF: wf})
	add("signed-for-wire-format-0", ref.Frame{SignWF: 0x7777})
	// signature over another context
	for _, c := range contexts(g.Ctx) {
		c := c
		add("signed-context-"+c.name, ref.Frame{SignCtx: &c.ctx})
	}
	// content replaced after signing
	for _, c := range []struct {
		name string
		f    func(c *ref.Content)
	}{
		{"sender", func(c *ref.Content) { c.Sender = uint32(other) }},
		{"aad", func(c *ref.Content) { c.AAD = append([]byte("x"), c.AAD...) }},
		{"aad-empty", func(c *ref.Content) { c.AAD = []byte{} }},
		{"group", func(c *ref.Content) { c.GroupID = []byte("another") }},
		{"epoch", func(c *ref.Content) { c.Epoch++ }},
		{"epoch-high", func(c *ref.Content) { c.Epoch += 1 << 32 }},
	} {
		c := c
		if c.name == "aad-empty" && s.typ != ref.CTApplication {
			continue
		}
		add("unsigned-"+c.name, ref.Frame{Signed: func(a *ref.Auth) { c.f(&a.Content) }})
	}
	// correctly made for another group or epoch, but under this one's keys
	for name, f := range map[string]func(c *ref.Content){
		"group":          func(c *ref.Content) { c.GroupID = append([]byte("z"), c.GroupID...) },
		"group-longer":   func(c *ref.Content) { c.GroupID = append(append([]byte{}, c.GroupID...), 0) },
		"group-shorter":  func(c *ref.Content) { c.GroupID = c.GroupID[:max(0, len(c.GroupID)-1)] },
		"epoch-next":     func(c *ref.Content) { c.Epoch++ },
		"epoch-previous": func(c *ref.Content) { c.Epoch-- },
		"epoch-high":     func(c *ref.Content) { c.Epoch += 1 << 32 },
		"epoch-max":      func(c *ref.Content) { c.Epoch = 1<<64 - 1 },
		"epoch-zero":     func(c *ref.Content) { c.Epoch = 0 },
	} {
		if name == "group-shorter" && len(g.Ctx.GroupID) == 0 || name == "epoch-zero" && g.Ctx.Epoch == 0 {
			continue
		}
		add("signed-"+name, ref.Frame{Content: f})
	}
	// application payload or proposal replaced after signing
	switch s.typ {
	case ref.CTApplication:
		for _, b := range [][]byte{[]byte("payloae"), []byte("payloa"), {}, []byte("payload\x00")} {
			b := b
			add(fmt.Sprintf("unsigned-payload-%x", b), ref.Frame{Signed: func(a *ref.Auth) { a.Content.Body = ref.Vec(b) }})
		}
	case ref.CTProposal:
		for _, m := range members {
			b := ref.Remove(m).Enc()
			if m != s.from {
				add(fmt.Sprintf("unsigned-removal-%d", m), ref.Frame{Signed: func(a *ref.Auth) {
					if eq(a.Content.Body, b) {
						a.Sig = nil
					}
					a.Content.Body = b
				}})
			}
		}
	}
	if s.typ == ref.CTCommit {
		// confirmation tag; insiders can recompute the membership tag
		for _, k := range names {
			m := muts[k]
			out = append(out, attack{s.name + "/confirmation-" + k, s.pre, s.remake(func(o *ref.CommitOpts) {
				o.ConfTag = func(tag []byte) []byte { return m(tag) }
			})})
		}
		out = append(out, attack{s.name + "/confirmation-of-old-epoch", s.pre, s.remake(func(o *ref.CommitOpts) {
			o.ConfTag = func(tag []byte) []byte { return g.ConfTag }
		})})
	}
	// sender types without membership
	for _, st := range []uint8{ref.SenderExternal, ref.SenderNewProp, ref.SenderNewCommit, 0, 5} {
		st := st
		if s.priv {
			continue
		}
		add(fmt.Sprintf("sender-type-%d", st), ref.Frame{Content: func(c *ref.Content) { c.SenderType = st }})
	}
	// positions without a member
	for _, p := range []int{g.Tree.N - 1, g.Tree.N, 2*g.Tree.N - 1, 2 * g.Tree.N, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		p := uint32(p)
		if int(p) < g.Tree.N && g.Tree.Leaves[p] != nil {
			continue
		}
		add(fmt.Sprintf("position-%d", p), ref.Frame{Content: func(c *ref.Content) { c.Sender = p }})
		add(fmt.Sprintf("position-%d-stranger", p), ref.Frame{SignKey: fresh, Content: func(c *ref.Content) { c.Sender = p }})
	}
	for p := range g.Tree.Leaves {
		p := uint32(p)
		if g.Tree.Leaves[p] == nil {
			add(fmt.Sprintf("vacant-%d", p), ref.Frame{SignKey: fresh, Content: func(c *ref.Content) { c.Sender = p }})
		}
	}
	if s.priv {
		add("private-as-other-sender", ref.Frame{SDLeaf: u32(other), KeyLeaf: &other})
		add("private-sender-data-other", ref.Frame{SDLeaf: u32(other)})
		add("private-key-of-other", ref.Frame{KeyLeaf: &other})
		add("private-sender-data-generation", ref.Frame{SDGen: u32(1)})
		add("private-generation-key", ref.Frame{Gen: 1, SDGen: u32(0)})
		label := "application"
		if s.typ == ref.CTApplication {
			label = "handshake"
		}
		add("private-wrong-ratchet", ref.Frame{KeyLabel: label})
		add("private-no-ratchet", ref.Frame{KeyLabel: "x"})
		add("private-wrong-epoch-secret", ref.Frame{EncEpoch: ref.NewRng("e").Bytes(suite.Nh())})
		add("private-guard-mismatch", ref.Frame{Guard: [4]byte{1, 2, 3, 4}, SDRaw: ref.Cat(ref.U32(uint32(s.from)), ref.U32(0), []byte{1, 2, 3, 5})})
		add("private-sender-data-short", ref.Frame{SDRaw: ref.Cat(ref.U32(uint32(s.from)), ref.U32(0), []byte{0, 0, 0})})
		add("private-sender-data-long", ref.Frame{SDRaw: ref.Cat(ref.U32(uint32(s.from)), ref.U32(0), []byte{0, 0, 0, 0, 0})})
		add("private-sender-data-empty", ref.Frame{SDRaw: []byte{}})
		add("private-padding-1", ref.Frame{Pad: 1, PadByte: 1})
		add("private-padding-end", ref.Frame{Pad: 9, PlainMut: func(b []byte) []byte { b[len(b)-1] = 0x80; return b }})
		add("private-padding-first", ref.Frame{Pad: 9, PlainMut: func(b []byte) []byte { b[len(b)-9] = 1; return b }})
		add("private-plaintext-short", ref.Frame{PlainMut: func(b []byte) []byte { return b[:len(b)-1] }})
		add("private-plaintext-empty", ref.Frame{PlainMut: func(b []byte) []byte { return nil }})
		for _, typ := range []uint8{0, 1, 2, 3, 4, 255} {
			typ := typ
			if typ != s.typ {
				add(fmt.Sprintf("private-type-%d", typ), ref.Frame{Wire: func(m *ref.PrivMsg) { m.Type = typ }})
				add(fmt.Sprintf("private-content-type-%d", typ), ref.Frame{Signed: func(a *ref.Auth) { a.Content.Type = typ }})
			}
		}
		for name, f := range map[string]func(m *ref.PrivMsg){
			"group": func(m *ref.PrivMsg) { m.GroupID = append([]byte("z"), m.GroupID...) },
			"epoch": func(m *ref.PrivMsg) { m.Epoch ^= 1 },
			"aad":   func(m *ref.PrivMsg) { m.AAD = append([]byte("z"), m.AAD...) },
			"sd":    func(m *ref.PrivMsg) { m.EncSD = nil },
			"ct":    func(m *ref.PrivMsg) { m.Ct = nil },
			"swap":  func(m *ref.PrivMsg) { m.Ct, m.EncSD = m.EncSD, m.Ct },
		} {
			add("private-wire-"+name, ref.Frame{Wire: f})
		}
	} else {
		for _, k := range names {
			m := muts[k]
			add("membership-"+k, ref.Frame{MemberTag: m})
		}
		for name, key := range map[string][]byte{
			"confirm": suite.Derive(g.Epoch, "confirm"),
			"init":    g.Init,
			"epoch":   g.Epoch,
			"joiner":  g.Joiner,
			"fresh":   ref.NewRng("k").Bytes(suite.Nh()),
			"zero":    make([]byte, suite.Nh()),
			"empty":   {},
		} {
			add("membership-key-"+name, ref.Frame{MACKey: key})
		}
		for _, c := range contexts(g.Ctx) {
			c := c
			add("membership-context-"+c.name, ref.Frame{MACCtx: &c.ctx})
		}
	}
	return out
}

type namedCtx struct {
	name string
	ctx  ref.Ctx
}

// contexts are the ways a group context can differ in one field.
func contexts(c ref.Ctx) (out []namedCtx) {
	add := func(name string, f func(c *ref.Ctx)) {
		n := c
		if f(&n); !eq(n.Enc(), c.Enc()) {
			out = append(out, namedCtx{name, n})
		}
	}
	flip := func(b []byte) []byte {
		b = append([]byte{}, b...)
		if len(b) == 0 {
			return []byte{1}
		}
		b[len(b)-1] ^= 1
		return b
	}
	add("version", func(c *ref.Ctx) { c.Version = 2 })
	add("suite", func(c *ref.Ctx) { c.Suite ^= 2 })
	add("group", func(c *ref.Ctx) { c.GroupID = flip(c.GroupID) })
	add("group-empty", func(c *ref.Ctx) { c.GroupID = nil })
	add("epoch-next", func(c *ref.Ctx) { c.Epoch++ })
	add("epoch-previous", func(c *ref.Ctx) { c.Epoch-- })
	add("epoch-high", func(c *ref.Ctx) { c.Epoch += 1 << 32 })
	add("tree", func(c *ref.Ctx) { c.TreeHash = flip(c.TreeHash) })
	add("tree-empty", func(c *ref.Ctx) { c.TreeHash = nil })
	add("transcript", func(c *ref.Ctx) { c.CTH = flip(c.CTH) })
	add("transcript-empty", func(c *ref.Ctx) { c.CTH = nil })
	add("extensions", func(c *ref.Ctx) { c.Exts = append([]ref.Ext{{Type: 0xff09, Data: []byte("e")}}, c.Exts...) })
	add("extensions-none", func(c *ref.Ctx) { c.Exts = nil })
	add("extensions-last", func(c *ref.Ctx) { c.Exts = c.Exts[:max(0, len(c.Exts)-1)] })
	add("extensions-data", func(c *ref.Ctx) {
		c.Exts = append([]ref.Ext{}, c.Exts...)
		for i := range c.Exts {
			c.Exts[i].Data = flip(c.Exts[i].Data)
		}
	})
	return out
}

func reversed(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

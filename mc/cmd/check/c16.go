package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C16"] = check{"fault_enumeration", eng.Meta{
		Rule: "one evaluation is a commit introducing one member entry (by addition, update or path) with one defect or one valid peculiarity, offered to one member; distinct inputs are distinct commit messages",
		Assumptions: []string{
			"the committer applies the defective entry and computes every hash, tag and ciphertext from the result, so that only the entry's defect can be the reason for refusal",
			"entries with malformed encryption keys, and requirements stated by context extensions, are left open",
		},
	}, c16}
}

// entry is a member entry with its verdict.
type entry struct {
	name  string
	valid bool
	kp    *ref.KeyPackage // additions
	party *ref.Party
	leaf  *ref.Leaf // updates
	hook  func(o *ref.CommitOpts)
	with  []*ref.Proposal // proposals that must accompany it
}

// commit makes the commit that introduces the entry.
func (e entry) commit(g *ref.Group, by, u int, path, byRef, priv bool, name string) (attack, *ref.CommitResult) {
	var list []letter
	for k, p := range e.with {
		list = append(list, letter{fmt.Sprintf("with%d", k), p, -1})
	}
	switch {
	case e.kp != nil:
		list = append(list, letter{e.name, ref.Add(e.kp), -1})
	case e.leaf != nil:
		list = append(list, letter{e.name, ref.UpdateWith(e.leaf), u})
	}
	return framed(g, by, list, path, byRef, priv, name, e.hook)
}

func ed(l *ref.Leaf, f func(*ref.Leaf)) *ref.Leaf { c := l.Copy(); f(c); return c }

// contents lists changes to the content of an entry, before it is signed.
// They are valid or not whatever the way the entry enters the group.
func contents(g *ref.Group, self int, x509 bool) (out []struct {
	name  string
	valid bool
	f     func(l *ref.Leaf)
}) {
	add := func(name string, valid bool, f func(l *ref.Leaf)) {
		list := func(l *ref.Leaf) {
			f(l)
			for _, e := range l.Exts {
				if valid {
					l.Caps.Exts = append(l.Caps.Exts, e.Type)
				}
			}
		}
		if name == "application-id" {
			list = f
		}
		out = append(out, struct {
			name  string
			valid bool
			f     func(l *ref.Leaf)
		}{name, valid, list})
	}
	both := []uint16{ref.CredBasic, ref.CredX509}
	add("plain", true, func(l *ref.Leaf) {})
	add("x509", x509, func(l *ref.Leaf) {
		l.Cred = ref.Cred{Type: ref.CredX509, Certs: [][]byte{[]byte("cert"), []byte("issuer")}}
		l.Caps.Creds = both
	})
	add("x509-only-self", x509, func(l *ref.Leaf) {
		l.Cred = ref.Cred{Type: ref.CredX509, Certs: [][]byte{[]byte("cert")}}
		l.Caps.Creds = []uint16{ref.CredX509, ref.CredBasic, ref.CredX509}
	})
	add("x509-not-by-self", false, func(l *ref.Leaf) {
		l.Cred = ref.Cred{Type: ref.CredX509, Certs: [][]byte{[]byte("cert")}}
		l.Caps.Creds = []uint16{ref.CredBasic}
	})
	add("credential-not-by-self", false, func(l *ref.Leaf) { l.Caps.Creds = []uint16{ref.CredX509} })
	add("no-credentials", false, func(l *ref.Leaf) { l.Caps.Creds = nil })
	add("repeated-other-credential", false, func(l *ref.Leaf) {
		l.Caps.Creds = []uint16{ref.CredX509, ref.CredX509, ref.CredX509, ref.CredX509, ref.CredX509, ref.CredX509, ref.CredX509}
	})
	add("more-credentials", true, func(l *ref.Leaf) { l.Caps.Creds = []uint16{0x0a0a, ref.CredBasic, 0xf000, ref.CredX509, ref.CredBasic} })
	add("extension-unlisted", false, func(l *ref.Leaf) { l.Exts = []ref.Ext{{Type: 0xff21, Data: []byte("x")}} })
	add("extension-second-unlisted", false, func(l *ref.Leaf) {
		l.Caps.Exts = []uint16{0xff21}
		l.Exts = []ref.Ext{{Type: 0xff21, Data: []byte("x")}, {Type: 0xff22, Data: []byte("y")}}
	})
	add("extension-listed", true, func(l *ref.Leaf) {
		l.Caps.Exts = []uint16{0xff22, 0xff21}
		l.Exts = []ref.Ext{{Type: 0xff21, Data: []byte("x")}}
	})
	add("extension-only-as-proposal", false, func(l *ref.Leaf) {
		l.Caps.Props = []uint16{0xff21}
		l.Exts = []ref.Ext{{Type: 0xff21, Data: []byte("x")}}
	})
	add("application-id", true, func(l *ref.Leaf) { l.Exts = []ref.Ext{{Type: ref.ExtApplicationID, Data: []byte("\x03app")}} })
	add("capabilities", true, func(l *ref.Leaf) {
		l.Caps.Versions = []uint16{0x0a0a, 1, 2}
		l.Caps.Suites = []uint16{uint16(g.Suite), 0xffff, 1, 2, 3}
		l.Caps.Exts = []uint16{0x1a1a, 0xff11}
		l.Caps.Props = []uint16{0x2a2a, 8}
	})
	add("identity-empty", true, func(l *ref.Leaf) { l.Cred = ref.Cred{Type: ref.CredBasic} })
	add("identity-long", true, func(l *ref.Leaf) { l.Cred = ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 16384)} })
	for _, k := range sortedKeys(badSigKeys(g.Tree.Leaves[g.Tree.Members()[0]].SigKey)) {
		k := k
		add("signature-key-"+k, false, func(l *ref.Leaf) { l.SigKey = badSigKeys(l.SigKey)[k] })
	}
	for _, m := range g.Tree.Members() {
		m := m
		if m == self {
			continue
		}
		add(fmt.Sprintf("identity-of-%d", m), true, func(l *ref.Leaf) { l.Cred = g.Tree.Leaves[m].Cred })
		add(fmt.Sprintf("encryption-key-of-%d", m), false, func(l *ref.Leaf) { l.EncKey = g.Tree.Leaves[m].EncKey })
	}
	return out
}

// badSigKeys are encodings that are not the public key of any signer.
func badSigKeys(pub []byte) map[string][]byte {
	out := map[string][]byte{
		"empty":   {},
		"one":     pub[:1],
		"short":   pub[:len(pub)-1],
		"headed":  append([]byte{0}, pub...),
		"long":    append(append([]byte{}, pub...), 0),
		"doubled": append(append([]byte{}, pub...), pub...),
		"zero":    make([]byte, len(pub)),
	}
	if len(pub) != 32 && len(pub) != 57 {
		out["point"] = pub[1:]
		out["not a point"] = flipByte(pub, -1)
		out["compressed"] = append([]byte{2 | pub[len(pub)-1]&1}, pub[1:(len(pub)+1)/2]...)
		out["hybrid"] = append([]byte{6 | pub[len(pub)-1]&1}, pub[1:]...)
	}
	return out
}

// populated lists the parent nodes holding a key that remain when the paths of
// the given leaves are replaced.
func populated(g *ref.Group, blank ...int) (out []ref.Span) {
	var walk func(sp ref.Span)
	walk = func(sp ref.Span) {
		if sp.Leaf() {
			return
		}
		keep := g.Tree.Parents[sp] != nil
		for _, b := range blank {
			keep = keep && !(sp.Lo <= b && b < sp.Hi)
		}
		if keep {
			out = append(out, sp)
		}
		walk(sp.Left())
		walk(sp.Right())
	}
	walk(ref.Span{Lo: 0, Hi: g.Tree.N})
	return out
}

// sigOwners gives the members whose signature keys an entry could copy.
func sigOwners(g *ref.Group, self int) []int { return others(g.Tree.Members(), self) }

// richly fills everything optional in the key package an entry starts from.
func richly(f func(kp *ref.KeyPackage)) func(kp *ref.KeyPackage) {
	return func(kp *ref.KeyPackage) {
		kp.Leaf.Cred = ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 200)}
		kp.Leaf.Exts = []ref.Ext{{Type: ref.ExtApplicationID, Data: make([]byte, 70)}}
		kp.Leaf.Caps.Props = []uint16{0x0a0a, 8}
		kp.Leaf.Caps.Exts = []uint16{0x1a1a}
		kp.Exts = []ref.Ext{{Type: 0xff03, Data: []byte("kp")}, {Type: 0xff04}}
		if f != nil {
			f(kp)
		}
		kp.Leaf.Caps.Exts = append(kp.Leaf.Caps.Exts, 0xff03, 0xff04)
	}
}

func addEntries(g *ref.Group, by int, x509, rich bool, label string) (out []entry) {
	s := g.Suite
	if rich {
		label += "/rich"
	}
	mk := func(name string, valid bool, o ref.PartyOpts) *entry {
		if rich {
			name, o.Mut = "rich-"+name, richly(o.Mut)
		}
		p := ref.NewParty(g.Ring, s, label+"/"+name, o)
		out = append(out, entry{name: "add-" + name, valid: valid, kp: p.KP, party: p})
		return &out[len(out)-1]
	}
	for _, c := range contents(g, -1, x509) {
		c := c
		mk(c.name, c.valid, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { c.f(kp.Leaf) }})
	}
	for _, sp := range populated(g) {
		key := g.Tree.Parents[sp].EncKey
		mk(fmt.Sprintf("encryption-key-of-node-%d", sp.Index()), false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.EncKey = key }})
	}
	for _, m := range sigOwners(g, -1) {
		e := mk(fmt.Sprintf("signature-key-of-%d", m), false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.SigKey = g.Tree.Leaves[m].SigKey }})
		e.kp.Leaf.Sign(s, g.SigPriv(m), nil, 0)
		e.kp.SignAs(s, g.SigPriv(m))
	}
	leaf := func(name string, f func(l *ref.Leaf)) { mk("leaf-"+name, false, ref.PartyOpts{Leaf: f}) }
	post := func(name string, f func(kp *ref.KeyPackage)) { mk("package-"+name, false, ref.PartyOpts{Post: f}) }
	_, foreign := s.SigPair(ref.NewRng("foreign", label).Bytes(32))
	for _, pos := range []int{0, 20, -1} {
		pos := pos
		leaf(fmt.Sprintf("signature-flip%d", pos), func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, pos) })
		post(fmt.Sprintf("signature-flip%d", pos), func(kp *ref.KeyPackage) { kp.Signature = flipByte(kp.Signature, pos) })
	}
	leaf("signature-empty", func(l *ref.Leaf) { l.Signature = nil })
	post("signature-empty", func(kp *ref.KeyPackage) { kp.Signature = nil })
	leaf("signature-short", func(l *ref.Leaf) { l.Signature = l.Signature[:len(l.Signature)-1] })
	post("signature-short", func(kp *ref.KeyPackage) { kp.Signature = kp.Signature[:len(kp.Signature)-1] })
	leaf("signature-foreign", func(l *ref.Leaf) { l.Sign(s, foreign, nil, 0) })
	post("signature-foreign", func(kp *ref.KeyPackage) { kp.SignAs(s, foreign) })
	leaf("signature-by-committer", func(l *ref.Leaf) { l.Sign(s, g.SigPriv(by), nil, 0) })
	post("signature-by-committer", func(kp *ref.KeyPackage) { kp.SignAs(s, g.SigPriv(by)) })
	leaf("signature-of-other-leaf", func(l *ref.Leaf) { l.Signature = g.Tree.Leaves[by].Signature })
	leaf("content-identity", func(l *ref.Leaf) { l.Cred = ref.Basic("someone else") })
	leaf("content-lifetime", func(l *ref.Leaf) { l.NotAfter++ })
	leaf("content-capabilities", func(l *ref.Leaf) { l.Caps.Props = []uint16{9} })
	leaf("content-extension", func(l *ref.Leaf) { l.Exts = []ref.Ext{{Type: ref.ExtApplicationID}} })
	leaf("content-encryption-key", func(l *ref.Leaf) { l.EncKey, _ = s.KeyPair(ref.NewRng("ck", label).Bytes(64)) })
	post("content-init-key", func(kp *ref.KeyPackage) { kp.InitKey, _ = s.KeyPair(ref.NewRng("ik", label).Bytes(64)) })
	post("content-extension", func(kp *ref.KeyPackage) { kp.Exts = []ref.Ext{{Type: ref.ExtApplicationID}} })
	free := g.Tree.Copy().AddLeaf(g.Tree.Leaves[by])
	for _, src := range []uint8{ref.SrcUpdate, ref.SrcCommit} {
		src := src
		for _, idx := range []int{free, 0} {
			e := mk(fmt.Sprintf("source-%d-at-%d", src, idx), false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
				kp.Leaf.Source = src
				kp.Leaf.NotBefore, kp.Leaf.NotAfter = 0, 0
			}})
			e.kp.Leaf.Sign(s, e.party.Priv.Sig, g.Ctx.GroupID, uint32(idx))
			e.kp.SignAs(s, e.party.Priv.Sig)
		}
	}
	for _, v := range []uint16{0, 2, 0x0100, 0xffff} {
		v := v
		mk(fmt.Sprintf("version-%d", v), false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Version = v }})
	}
	for _, v := range []ref.Suite{0, 1, 2, 3, 4, 7, 0x0100, 0xffff} {
		v := v
		if v == s {
			continue
		}
		mk(fmt.Sprintf("suite-%d", v), false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Suite = v; kp.Leaf.Caps.Suites = []uint16{uint16(s), uint16(v)} }})
	}
	mk("init-key-is-encryption-key", false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.InitKey = kp.Leaf.EncKey }})
	mk("package-extension", true, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
		kp.Leaf.Caps.Exts = []uint16{0xff07}
		kp.Exts = []ref.Ext{{Type: 0xff07, Data: []byte("kp")}}
	}})
	// two newcomers sharing a key
	p1 := ref.NewParty(g.Ring, s, label+"/twin", ref.PartyOpts{})
	e := mk("twin-encryption-key", false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.EncKey = p1.KP.Leaf.EncKey }})
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	e = mk("twin-signature-key", false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.SigKey = p1.KP.Leaf.SigKey }})
	e.kp.Leaf.Sign(s, p1.Priv.Sig, nil, 0)
	e.kp.SignAs(s, p1.Priv.Sig)
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	e = mk("twin-identity", true, ref.PartyOpts{Cred: p1.KP.Leaf.Cred})
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	// key of the lowest node on the committer's new path
	e = mk("encryption-key-of-new-node", false, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.EncKey = pathKey(s, label) }})
	e.hook = func(o *ref.CommitOpts) { o.Rng = ref.NewRng(label) }
	return out
}

// pathKey is the key of the lowest node of a path whose secrets start from the
// given seed.
func pathKey(s ref.Suite, seed string) []byte {
	pub, _ := s.KeyPair(s.Derive(ref.NewRng(seed).Bytes(s.Nh()), "node"))
	return pub
}

func updateEntries(g *ref.Group, u, by int, x509 bool, label string) (out []entry) {
	s := g.Suite
	rng := ref.NewRng("c16u", label)
	sig := g.SigPriv(u)
	add := func(name string, valid bool, l *ref.Leaf) *entry {
		out = append(out, entry{name: "update-" + name, valid: valid, leaf: l})
		return &out[len(out)-1]
	}
	fresh := func(f func(l *ref.Leaf)) *ref.Leaf { return g.UpdateLeaf(u, rng, f, false) }
	for _, c := range contents(g, u, x509) {
		add(c.name, c.valid, fresh(c.f))
	}
	add("new-signature-key", true, g.UpdateLeaf(u, rng, nil, true))
	add("encryption-key-unchanged", false, fresh(func(l *ref.Leaf) { l.EncKey = g.Tree.Leaves[u].EncKey }))
	for _, sp := range populated(g, u, by) {
		key := g.Tree.Parents[sp].EncKey
		add(fmt.Sprintf("encryption-key-of-node-%d", sp.Index()), false, fresh(func(l *ref.Leaf) { l.EncKey = key }))
	}
	for _, m := range sigOwners(g, u) {
		m := m
		l := fresh(func(l *ref.Leaf) { l.SigKey = g.Tree.Leaves[m].SigKey })
		l.Sign(s, g.SigPriv(m), g.Ctx.GroupID, uint32(u))
		add(fmt.Sprintf("signature-key-of-%d", m), false, l)
		add(fmt.Sprintf("signed-by-%d", m), false, ed(fresh(nil), func(l *ref.Leaf) { l.Sign(s, g.SigPriv(m), g.Ctx.GroupID, uint32(u)) }))
		add(fmt.Sprintf("index-%d", m), false, ed(fresh(nil), func(l *ref.Leaf) { l.Sign(s, sig, g.Ctx.GroupID, uint32(m)) }))
	}
	for _, pos := range []int{0, 20, -1} {
		add(fmt.Sprintf("signature-flip%d", pos), false, ed(fresh(nil), func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, pos) }))
	}
	add("signature-empty", false, ed(fresh(nil), func(l *ref.Leaf) { l.Signature = nil }))
	for _, id := range otherIDs(g.Ctx.GroupID) {
		add(fmt.Sprintf("group-%q", id), false, ed(fresh(nil), func(l *ref.Leaf) { l.Sign(s, sig, id, uint32(u)) }))
	}
	add("index-beyond", false, ed(fresh(nil), func(l *ref.Leaf) { l.Sign(s, sig, g.Ctx.GroupID, uint32(g.Tree.N+u)) }))
	add("index-high", false, ed(fresh(nil), func(l *ref.Leaf) { l.Sign(s, sig, g.Ctx.GroupID, uint32(u)|1<<24) }))
	add("content-identity", false, ed(fresh(nil), func(l *ref.Leaf) { l.Cred = ref.Basic("someone else") }))
	add("content-capabilities", false, ed(fresh(nil), func(l *ref.Leaf) { l.Caps.Props = []uint16{9} }))
	add("content-extension", false, ed(fresh(nil), func(l *ref.Leaf) { l.Exts = []ref.Ext{{Type: ref.ExtApplicationID}} }))
	add("source-package", false, fresh(func(l *ref.Leaf) {
		l.Source, l.NotBefore, l.NotAfter = ref.SrcKeyPackage, uint64(ref.Now().Unix()-1000), uint64(ref.Now().Unix()+100000)
	}))
	l := fresh(func(l *ref.Leaf) {
		l.Source, l.NotBefore, l.NotAfter = ref.SrcKeyPackage, uint64(ref.Now().Unix()-1000), uint64(ref.Now().Unix()+100000)
	})
	l.Sign(s, sig, nil, 0)
	add("source-package-plain", false, l)
	add("source-commit", false, fresh(func(l *ref.Leaf) { l.Source = ref.SrcCommit }))
	add("source-commit-hash", false, fresh(func(l *ref.Leaf) { l.Source, l.ParentHash = ref.SrcCommit, make([]byte, s.Nh()) }))
	add("current-leaf", false, g.Tree.Leaves[u])
	p1 := ref.NewParty(g.Ring, s, label+"/newcomer", ref.PartyOpts{})
	e := add("encryption-key-of-newcomer", false, fresh(func(l *ref.Leaf) { l.EncKey = p1.KP.Leaf.EncKey }))
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	l = fresh(func(l *ref.Leaf) { l.SigKey = p1.KP.Leaf.SigKey })
	l.Sign(s, p1.Priv.Sig, g.Ctx.GroupID, uint32(u))
	e = add("signature-key-of-newcomer", false, l)
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	e = add("encryption-key-of-new-node", false, fresh(func(l *ref.Leaf) { l.EncKey = pathKey(s, label) }))
	e.hook = func(o *ref.CommitOpts) { o.Rng = ref.NewRng(label) }
	pl := fresh(nil)
	e = add("encryption-key-of-new-leaf", false, pl)
	e.hook = func(o *ref.CommitOpts) { o.LeafPre = func(l *ref.Leaf) { l.EncKey = pl.EncKey } }
	return out
}

func pathEntries(g *ref.Group, by int, x509 bool, label string) (out []entry) {
	s := g.Suite
	sig := g.SigPriv(by)
	add := func(name string, valid bool, hook func(o *ref.CommitOpts)) *entry {
		out = append(out, entry{name: "path-" + name, valid: valid, hook: hook})
		return &out[len(out)-1]
	}
	pre := func(f func(l *ref.Leaf)) func(o *ref.CommitOpts) {
		return func(o *ref.CommitOpts) { o.LeafPre = f }
	}
	post := func(f func(l *ref.Leaf)) func(o *ref.CommitOpts) {
		return func(o *ref.CommitOpts) { o.LeafPost = f }
	}
	for _, c := range contents(g, by, x509) {
		add(c.name, c.valid, pre(c.f))
	}
	add("new-signature-key", true, func(o *ref.CommitOpts) { o.NewSig = true })
	add("encryption-key-unchanged", false, pre(func(l *ref.Leaf) { l.EncKey = g.Tree.Leaves[by].EncKey }))
	for _, sp := range populated(g, by) {
		key := g.Tree.Parents[sp].EncKey
		add(fmt.Sprintf("encryption-key-of-node-%d", sp.Index()), false, pre(func(l *ref.Leaf) { l.EncKey = key }))
	}
	for _, m := range sigOwners(g, by) {
		m := m
		add(fmt.Sprintf("signature-key-of-%d", m), false, func(o *ref.CommitOpts) {
			o.LeafPre = func(l *ref.Leaf) { l.SigKey = g.Tree.Leaves[m].SigKey }
			o.LeafKey = g.SigPriv(m)
		})
		add(fmt.Sprintf("signed-by-%d", m), false, func(o *ref.CommitOpts) { o.LeafKey = g.SigPriv(m) })
		add(fmt.Sprintf("index-%d", m), false, func(o *ref.CommitOpts) { x := uint32(m); o.LeafIdx = &x })
	}
	for _, x := range []uint32{uint32(g.Tree.N + by), uint32(by) | 1<<24} {
		x := x
		add(fmt.Sprintf("index-%d", x), false, func(o *ref.CommitOpts) { o.LeafIdx = &x })
	}
	for _, id := range otherIDs(g.Ctx.GroupID) {
		id := id
		add(fmt.Sprintf("group-%q", id), false, func(o *ref.CommitOpts) { o.LeafGID = id })
	}
	for _, pos := range []int{0, 20, -1} {
		pos := pos
		add(fmt.Sprintf("signature-flip%d", pos), false, post(func(l *ref.Leaf) { l.Signature = flipByte(l.Signature, pos) }))
	}
	add("signature-empty", false, post(func(l *ref.Leaf) { l.Signature = nil }))
	add("content-identity", false, post(func(l *ref.Leaf) { l.Cred = ref.Basic("someone else") }))
	add("content-capabilities", false, post(func(l *ref.Leaf) { l.Caps.Props = []uint16{9} }))
	add("content-extension", false, post(func(l *ref.Leaf) { l.Exts = []ref.Ext{{Type: ref.ExtApplicationID}} }))
	add("content-encryption-key", false, post(func(l *ref.Leaf) { l.EncKey, _ = s.KeyPair(ref.NewRng("ck", label).Bytes(64)) }))
	add("parent-hash-unsigned", false, post(func(l *ref.Leaf) {
		l.ParentHash = append([]byte{}, l.ParentHash...)
		l.ParentHash = flipByte(l.ParentHash, 0)
	}))
	for _, pos := range []int{0, -1} {
		pos := pos
		add(fmt.Sprintf("parent-hash-flip%d", pos), false, pre(func(l *ref.Leaf) { l.ParentHash = flipByte(l.ParentHash, pos) }))
	}
	add("parent-hash-zero", false, pre(func(l *ref.Leaf) { l.ParentHash = make([]byte, s.Nh()) }))
	add("parent-hash-old", false, pre(func(l *ref.Leaf) {
		h := g.Tree.Leaves[by].ParentHash
		if len(h) == 0 {
			h = []byte{1}
		}
		l.ParentHash = h
	}))
	add("parent-hash-empty", false, pre(func(l *ref.Leaf) {
		if len(l.ParentHash) > 0 {
			l.ParentHash = nil
		} else {
			l.ParentHash = []byte{0}
		}
	}))
	add("parent-hash-longer", false, pre(func(l *ref.Leaf) { l.ParentHash = append(append([]byte{}, l.ParentHash...), 0) }))
	add("parent-hash-truncated", false, pre(func(l *ref.Leaf) {
		if len(l.ParentHash) > 0 {
			l.ParentHash = l.ParentHash[:len(l.ParentHash)-1]
		} else {
			l.ParentHash = []byte{0}
		}
	}))
	add("source-update", false, pre(func(l *ref.Leaf) { l.Source = ref.SrcUpdate }))
	add("source-package", false, pre(func(l *ref.Leaf) {
		l.Source, l.NotBefore, l.NotAfter = ref.SrcKeyPackage, uint64(ref.Now().Unix()-1000), uint64(ref.Now().Unix()+100000)
	}))
	add("source-package-plain", false, func(o *ref.CommitOpts) {
		o.LeafPre = func(l *ref.Leaf) {
			l.Source, l.NotBefore, l.NotAfter = ref.SrcKeyPackage, uint64(ref.Now().Unix()-1000), uint64(ref.Now().Unix()+100000)
		}
		o.LeafPost = func(l *ref.Leaf) { l.Sign(s, sig, nil, 0) }
	})
	add("source-update-as-package", false, func(o *ref.CommitOpts) {
		o.LeafPre = func(l *ref.Leaf) { l.Source = ref.SrcUpdate }
		o.LeafPost = func(l *ref.Leaf) { l.Sign(s, sig, nil, 0) }
	})
	// the new leaf shares the key of one of the new nodes
	add("encryption-key-of-new-node", false, func(o *ref.CommitOpts) {
		var key []byte
		o.PathKeys = func(k [][]byte) { key = k[0] }
		o.LeafPre = func(l *ref.Leaf) { l.EncKey = key }
	})
	add("encryption-key-of-new-root", false, func(o *ref.CommitOpts) {
		var key []byte
		o.PathKeys = func(k [][]byte) { key = k[len(k)-1] }
		o.LeafPre = func(l *ref.Leaf) { l.EncKey = key }
	})
	p1 := ref.NewParty(g.Ring, s, label+"/newcomer", ref.PartyOpts{})
	e := add("encryption-key-of-newcomer", false, pre(func(l *ref.Leaf) { l.EncKey = p1.KP.Leaf.EncKey }))
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	e = add("signature-key-of-newcomer", false, func(o *ref.CommitOpts) {
		o.LeafPre = func(l *ref.Leaf) { l.SigKey = p1.KP.Leaf.SigKey }
		o.LeafKey = p1.Priv.Sig
	})
	e.with = []*ref.Proposal{ref.Add(p1.KP)}
	// nodes of the path repeating keys
	for _, m := range g.Tree.Members() {
		key := g.Tree.Leaves[m].EncKey
		add(fmt.Sprintf("node-key-of-leaf-%d", m), false, func(o *ref.CommitOpts) { o.PathKeys = func(k [][]byte) { k[0] = key } })
	}
	for _, sp := range populated(g, by) {
		key := g.Tree.Parents[sp].EncKey
		add(fmt.Sprintf("node-key-of-node-%d", sp.Index()), false, func(o *ref.CommitOpts) { o.PathKeys = func(k [][]byte) { k[len(k)-1] = key } })
	}
	return out
}

func c16(r *eng.Run) {
	type conf struct {
		shape string
		s     ref.Suite
		by, u int
	}
	confs := []conf{{"three", 1, 0, 1}, {"five-holes", 1, 4, 0}, {"eight", 1, 2, 5}, {"unmerged", 1, 3, 2}, {"unmerged", 1, 0, 3}, {"three", 3, 1, 2}, {"three", 2, 2, 0}, {"three", 7, 1, 0}, {"three@ctx", 1, 1, 0}, {"three@bare", 1, 0, 2}, {"far", 1, 257, 1}, {"deep", 1, 1, 2}, {"four-full@odd", 1, 0, 1}, {"four-full@odd", 1, 2, 0}}
	if r.Thorough() {
		for _, sh := range []string{"pair", "three", "hole", "four-full", "five", "refilled", "eight"} {
			rec := recipeOf(sh)
			for by := 0; by < rec.n; by++ {
				confs = append(confs, conf{sh, 1, by, (by + 1) % rec.n})
			}
		}
		confs = append(confs, conf{"five-holes", 2, 0, 4}, conf{"five-holes", 3, 0, 4}, conf{"five-holes", 7, 0, 4})
	}
	r.All(func(emit func(eng.Case)) {
		for _, c := range confs {
			label := fmt.Sprintf("%s/s%d/by%d", c.shape, c.s, c.by)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(c.shape).build(t, c.s, gid) })
			if w == nil || w.M.Tree.Leaves[c.by] == nil || w.M.Tree.Leaves[c.u] == nil {
				continue
			}
			r.State()
			c16World(w, c.by, c.u, false, label, emit)
		}
		for _, all := range []bool{true, false} {
			all := all
			label := fmt.Sprintf("x509-%v", all)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = credWorld(t, 1, all, label) })
			if w != nil {
				c16World(w, 0, 3, all, label, emit)
				c16World(w, 2, 0, all, label+"/2", emit)
			}
		}
		emit(eng.Case{Name: "twin-paths", Run: func(t *eng.T) { twinPaths(t) }})
	})
}

// credWorld is a group whose members have both kinds of credentials; if all is
// false, one of them does not know X.509 (and nobody uses it).
func credWorld(t *eng.T, s ref.Suite, all bool, label string) *eng.World {
	ring := ref.NewRing()
	var ps []*ref.Party
	for i := 0; i < 4; i++ {
		o := ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
			kp.Leaf.Caps.Creds = []uint16{ref.CredX509, ref.CredBasic, ref.CredX509}
			if !all && i == 1 {
				kp.Leaf.Caps.Creds = []uint16{ref.CredBasic}
			}
		}}
		if all && i == 2 {
			o.Cred = ref.Cred{Type: ref.CredX509, Certs: [][]byte{[]byte("c1"), []byte("c2")}}
		}
		ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/%d", label, i), o))
	}
	w := eng.ModelWorldOf(t, ring, s, gid, label, ps, 3, nil)
	if w == nil {
		return nil
	}
	w, _ = w.Step(t, path(3), label+"/path")
	w.Complete(t.Run)
	return w
}

func c16World(w *eng.World, by, u int, x509 bool, label string, emit func(eng.Case)) {
	g := w.M
	// in the mixed group the first contents are judged with X.509 members
	// present: an entry without X.509 support is invalid there
	needs509 := false
	for _, m := range g.Tree.Members() {
		if g.Tree.Leaves[m].Cred.Type == ref.CredX509 {
			needs509 = true
		}
	}
	fix := func(e entry) entry {
		if needs509 {
			var l *ref.Leaf
			switch {
			case e.kp != nil:
				l = e.kp.Leaf
			case e.leaf != nil:
				l = e.leaf
			}
			if l != nil {
				ok := false
				for _, c := range l.Caps.Creds {
					ok = ok || c == ref.CredX509
				}
				e.valid = e.valid && ok
			}
			for _, p := range e.with {
				if p.KP != nil {
					e.valid = false // newcomers with default capabilities
				}
			}
		}
		return e
	}
	var crowd []*ref.Proposal
	if label == "three/s1/by0" {
		for k := 0; k < 20; k++ {
			crowd = append(crowd, ref.Add(ref.NewParty(g.Ring, g.Suite, fmt.Sprintf("%s/crowd%d", label, k), ref.PartyOpts{}).KP))
		}
	}
	var run func(e entry, path, byRef, priv bool)
	run = func(e entry, path, byRef, priv bool) {
		name := fmt.Sprintf("%s/%s", label, e.name)
		if path {
			name += "P"
		}
		if byRef {
			name += "R"
		}
		if priv {
			name += "E"
		}
		if path && replaced(g, e, by) {
			return // the path renews the key in question: left open
		}
		if crowd != nil && len(e.with) < len(crowd) {
			// the same at the end of a long list
			defer func(e entry) {
				e.name += "/crowd"
				e.with = append(append([]*ref.Proposal{}, crowd...), e.with...)
				run(e, path, byRef, priv)
			}(e)
		}
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			a, res := e.commit(g, by, u, path, byRef, priv, name)
			if res == nil {
				eng.Harness("%s: cannot be formed", name)
			}
			for _, i := range w.Leaves() {
				if !e.valid {
					refuses(t, w, i, a)
					continue
				}
				if e.leaf != nil && i == u || path && i == by {
					continue
				}
				if c := accepts(t, w, i, a); c != nil {
					t.Case(a.msg)
					reads(t, res.Next, i, c, e.name)
				}
			}
			t.Sample(map[bool]string{true: "valid", false: "defect"}[e.valid], name)
		}})
	}
	for k, e := range append(addEntries(g, by, x509, false, label), addEntries(g, by, x509, true, label)...) {
		e := fix(e)
		if e.hook == nil {
			run(e, false, false, k%2 == 0)
		}
		run(e, true, false, k%2 == 1)
		run(e, true, true, k%2 == 0)
		if e.hook == nil {
			run(e, false, true, k%2 == 1)
			c16Invite(w, e, by, label, emit)
		}
	}
	for k, e := range updateEntries(g, u, by, x509, label) {
		e := fix(e)
		run(e, true, true, k%2 == 0)
	}
	for k, e := range pathEntries(g, by, x509, label) {
		run(e, true, false, k%2 == 0)
		run(e, true, false, k%2 == 1)
	}
}

// replaced tells whether the entry's encryption key is only in use at nodes the
// committer's path gives new keys.
func replaced(g *ref.Group, e entry, by int) bool {
	var key []byte
	switch {
	case e.kp != nil:
		key = e.kp.Leaf.EncKey
	case e.leaf != nil:
		key = e.leaf.EncKey
	}
	if key == nil || len(e.with) > 0 {
		return false
	}
	if eq(key, g.Tree.Leaves[by].EncKey) {
		return true
	}
	for sp, p := range g.Tree.Parents {
		if sp.Lo <= by && by < sp.Hi && eq(key, p.EncKey) {
			return true
		}
	}
	return false
}

// c16Invite lets a library member invite the entry.
func c16Invite(w *eng.World, e entry, by int, label string, emit func(eng.Case)) {
	emit(eng.Case{Name: fmt.Sprintf("%s/invite-%s", label, e.name), Run: func(t *eng.T) {
		t.Transition()
		var kps [][]byte
		for _, p := range e.with {
			kps = append(kps, p.KP.Msg())
		}
		kps = append(kps, e.kp.Msg())
		_, msg, err := eng.InviteRaw(eng.Clone(w.R[by]), kps...)
		if err != nil {
			if eng.Panicked(err) || e.valid {
				t.Fail("invite %s: %v", e.name, err)
			}
			t.Count("invitation refused")
			return
		}
		a := attack{name: "invite " + e.name, msg: msg}
		for _, i := range w.Leaves() {
			if e.valid {
				accepts(t, w, i, a)
			} else {
				refuses(t, w, i, a)
			}
		}
	}})
}

// twinPaths has a second committer repeat the path secrets of a first, so that
// consistent paths in different subtrees lead to equal keys.
func twinPaths(t *eng.T) {
	for _, s := range suites {
		for _, sh := range []string{"four-full", "eight", "five"} {
			w := recipeOf(sh).build(t, s, gid)
			if w == nil {
				return
			}
			t.State()
			n := len(w.M.Tree.Members())
			for _, pair := range [][2]int{{0, n - 1}, {n - 1, 0}, {1, n / 2}, {n / 2, 1}} {
				a, b := pair[0], pair[1]
				if a == b {
					continue
				}
				mk := func(g *ref.Group, by int, seed, leaf string) *ref.CommitResult {
					pub, priv := s.KeyPair(ref.NewRng("leaf", leaf, by).Bytes(64))
					g.Ring.PutEnc(pub, priv)
					res, err := g.Commit(ref.CommitOpts{Sender: by, Path: true, Rng: ref.NewRng("twin", seed), LeafPre: func(l *ref.Leaf) { l.EncKey = pub }})
					if err != nil {
						eng.Harness("twin: %v", err)
					}
					return res
				}
				first := mk(w.M, a, "x", "first")
				for _, seed := range []string{"x", "y"} {
					second := mk(first.Next, b, seed, "second")
					same := false
					seen := map[string]bool{}
					for _, p := range second.Next.Tree.Parents {
						same = same || seen[string(p.EncKey)]
						seen[string(p.EncKey)] = true
					}
					for _, i := range w.Leaves() {
						if i == a || i == b {
							continue
						}
						c := accepts(t, w, i, attack{name: "first path", msg: first.Msg})
						if c == nil {
							continue
						}
						t.Transition()
						t.Case(second.Msg)
						_, err := eng.Proc(c, second.Msg)
						// repeating only keys that are replaced is left open
						if eng.Panicked(err) || same && err == nil || seed == "y" && err != nil {
							t.Fail("suite %d %s: second path by %d after %d (repeating keys: %v): leaf %d: %v", s, sh, b, a, same, i, err)
						}
						t.Count(fmt.Sprintf("twin %v", same))
					}
				}
			}
		}
	}
}

// otherIDs are identifiers close to the given one.
func otherIDs(id []byte) (out [][]byte) {
	last := append([]byte{}, id...)
	if len(id) > 0 {
		last[len(id)-1] ^= 1
		out = append(out, []byte{}, id[:len(id)-1], last)
	}
	return append(out, append(append([]byte{}, id...), 0), append([]byte{0}, id...), []byte("b group"))
}

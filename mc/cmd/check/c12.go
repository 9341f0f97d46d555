package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C12"] = check{"fault_enumeration", eng.Meta{
		Rule: "one evaluation is a hostile input given to an exported function, followed by ordinary calls when it was accepted: every call must return; a panic, a call that does not return within 90 s, exhaustion of stack or memory, and allocations beyond 64 MB plus 1000 times the input are violations; distinct inputs are distinct byte strings",
		Assumptions: []string{
			"inside messages are correctly signed, tagged and encrypted by a member of the group after they have been altered",
			"messages of high generations are exempt from the bound on allocations, not from the others",
		},
	}, c12}
}

// hostile runs inputs through the library. Allocations are measured when
// nothing else runs.
type hostile struct {
	r       *eng.Run
	measure bool
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// call gives input to the library by f and tells whether it was accepted.
func (h *hostile) call(t *eng.T, what string, input []byte, f func() error) bool {
	if t.Failed() {
		return false
	}
	t.Transition()
	t.Case(input)
	var before uint64
	if h.measure {
		before = allocated()
	}
	err := eng.Guarded(f)
	if h.measure {
		if n := allocated() - before; n > 64<<20+1000*uint64(len(input)) {
			t.Fail("%s: %d bytes of input make the library allocate %d bytes", what, len(input), n)
		}
		t.Count("allocations measured")
	}
	if eng.Panicked(err) {
		t.Fail("%s: %v at %s", what, err, err.(*eng.PanicErr).Where())
	}
	if err != nil {
		t.Count("refused")
	} else {
		t.Count("accepted")
	}
	return err == nil
}

// pkg decodes a key package and uses it.
func (h *hostile) pkg(t *eng.T, what string, raw []byte, w *eng.World) {
	var kp *mls.KeyPackage
	if !h.call(t, what, raw, func() (err error) { kp, err = mls.UnmarshalKeyPackage(raw); return err }) {
		return
	}
	h.call(t, what+" (reference)", raw, func() error {
		kp.Bytes()
		ref, err := kp.GenerateRef()
		if err == nil {
			ref.Equal(ref)
		}
		return err
	})
	if w == nil {
		return
	}
	c := eng.Clone(w.R[w.Leaves()[0]])
	var wel *mls.Welcome
	var commit []byte
	if h.call(t, what+" (invite)", raw, func() (err error) { wel, commit, err = c.CreateWelcome([]mls.KeyPackage{*kp}); return err }) {
		h.call(t, what+" (Welcome)", raw, func() error { wel.Bytes(); wel.NewMembers(); return nil })
		for _, i := range w.Leaves()[:2] {
			d := c
			if i != w.Leaves()[0] {
				d = eng.Clone(w.R[i])
			}
			if h.call(t, what+" (commit)", commit, func() error { _, err := d.UnmarshalAndProcessMessage(commit); return err }) {
				h.use(t, what, d, w.M.Suite)
			}
		}
	}
}

// use makes ordinary calls.
func (h *hostile) use(t *eng.T, what string, g *mls.Group, s ref.Suite) {
	q := &hostile{r: h.r}
	q.call(t, what+" (send afterwards)", nil, func() error { _, err := g.CreateApplicationMessage([]byte("x")); return err })
	kp, err := mls.UnmarshalKeyPackage(afterwards(s))
	if err != nil {
		t.Fail("key package: %v", err)
		return
	}
	q.call(t, what+" (invite afterwards)", nil, func() error {
		_, commit, err := g.CreateWelcome([]mls.KeyPackage{*kp})
		if err == nil {
			_, err = g.UnmarshalAndProcessMessage(commit)
		}
		return err
	})
}

var (
	afterMu sync.Mutex
	after   = map[ref.Suite][]byte{}
)

// afterwards is an ordinary key package.
func afterwards(s ref.Suite) []byte {
	afterMu.Lock()
	defer afterMu.Unlock()
	if after[s] == nil {
		after[s] = ref.NewParty(nil, s, "afterwards", ref.PartyOpts{}).KP.Msg()
	}
	return after[s]
}

// msg delivers a message to a member, then follow-ups.
func (h *hostile) msg(t *eng.T, w *eng.World, i int, what string, pre [][]byte, msg []byte, after ...[]byte) {
	c := eng.Clone(w.R[i])
	for _, p := range pre {
		h.call(t, what+" (before)", p, func() error { _, err := c.UnmarshalAndProcessMessage(p); return err })
	}
	if h.call(t, what, msg, func() error { _, err := c.UnmarshalAndProcessMessage(msg); return err }) {
		for _, a := range after {
			h.call(t, what+" (next)", a, func() error { _, err := c.UnmarshalAndProcessMessage(a); return err })
		}
		h.use(t, what, c, w.M.Suite)
	}
}

// wel offers a Welcome.
func (h *hostile) wel(t *eng.T, sc *scene, what string, raw []byte) {
	var w *mls.Welcome
	if !h.call(t, what, raw, func() (err error) { w, err = mls.UnmarshalWelcome(raw); return err }) {
		return
	}
	h.call(t, what+" (members)", raw, func() error { w.Bytes(); w.NewMembers(); return nil })
	kpp, err := eng.KeyPair(sc.me())
	if err != nil {
		t.Fail("%s: own key package: %v", what, err)
		return
	}
	var g *mls.Group
	if h.call(t, what+" (join)", raw, func() (err error) { g, err = mls.GroupFromWelcome(w, kpp); return err }) {
		h.use(t, what, g, sc.next.Suite)
	}
}

// hostileKeys are public keys no honest member has.
func hostileKeys(s ref.Suite, real []byte) map[string][]byte {
	out := map[string][]byte{"all-ones": bytes.Repeat([]byte{0xff}, len(real)), "zero": make([]byte, len(real)), "one": append(make([]byte, len(real)-1), 1)}
	for _, n := range []int{0, 1, 2, 16, 31, 32, 33, 48, 56, 64, 65, 66, 97, 133, 1000} {
		b := bytes.Repeat([]byte{4}, n)
		copy(b, real)
		if n != len(real) {
			out[fmt.Sprintf("length-%d", n)] = b
		}
	}
	out["low-order"] = append([]byte{1}, make([]byte, len(real)-1)...)
	low := []byte{0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00}
	out["order-8"] = low
	out["off-curve"] = flipByte(real, -1)
	if len(real) == 65 {
		out["compressed"] = append([]byte{2 + real[64]&1}, real[1:33]...)
		out["hybrid"] = append([]byte{6 + real[64]&1}, real[1:]...)
		out["infinity"] = []byte{0}
	}
	return out
}

func order(m map[string][]byte) (out []string) {
	w := map[string]*eng.World{}
	for k := range m {
		w[k] = nil
	}
	return keys(w)
}

// numbers are 32-bit values around every power of two.
func numbers(n int) (out []uint32) {
	for v := 0; v <= 4*n+2; v++ {
		out = append(out, uint32(v))
	}
	for k := uint(6); k <= 32; k++ {
		for d := -2; d <= 2; d++ {
			if v := int64(1)<<k + int64(d); v < 1<<32 {
				out = append(out, uint32(v))
			}
		}
	}
	return out
}

func c12(r *eng.Run) {
	part := func(h *hostile, emit func(eng.Case)) {
		for _, s := range suites {
			for k, sh := range []string{"three", "pair", "five-holes", "unmerged", "pair@odd"} {
				if s != 1 && k > 0 && !r.Thorough() || h.measure && (k > 0 || s == 7 || s != 1 && !r.Thorough()) {
					continue
				}
				var w *eng.World
				setup(r, fmt.Sprintf("%s/%d", sh, s), func(t *eng.T) { w = recipeOf(sh).build(t, s, gid) })
				if w == nil {
					continue
				}
				label := fmt.Sprintf("%s/s%d", sh, s)
				if h.measure {
					label = "memory/" + label
				}
				all := s == 1 && k == 0 || r.Thorough()
				c12Packages(h, w, label, all, emit)
				c12Proposals(h, w, label, all, emit)
				c12Paths(h, w, label, emit)
				c12Frames(h, w, label, emit)
				c12Contents(h, w, label, all, emit)
				c12Welcomes(h, w, label, all, emit)
			}
		}
	}
	r.All(func(emit func(eng.Case)) {
		c12Suites(&hostile{r: r}, emit)
		part(&hostile{r: r}, emit)
	})
	h := &hostile{r: r, measure: true}
	c12Lengths(h)
	c12Bulk(h)
	part(h, func(c eng.Case) { r.Do(c) })
}

// c12Suites tries every cipher suite number.
func c12Suites(h *hostile, emit func(eng.Case)) {
	p := ref.NewParty(nil, 1, "c12/suites", ref.PartyOpts{})
	var w *eng.World
	setup(h.r, "suites", func(t *eng.T) { w = recipeOf("pair").build(t, 1, gid) })
	if w == nil {
		return
	}
	sc := newScene(w.M, 0, 1, true, "suites", ref.CommitOpts{})
	wel := sc.raw(nil, ref.WelcomeOpts{})
	bulk(emit, "suites", 65536, 1024, func(t *eng.T, v int) {
		what := fmt.Sprintf("cipher suite %d", v)
		h.call(t, what, ref.U16(uint16(v)), func() error {
			_ = mls.CipherSuite(v).String()
			_ = mls.CipherSuite(v).Supported()
			return nil
		})
		if v > 8 && v != 65535 {
			h.call(t, what+" (generate)", ref.U16(uint16(v)), func() error {
				_, err := mls.GenerateKeyPairPackage(mls.CipherSuite(v), mls.NewBasicCredential([]byte("x")))
				return err
			})
		}
		if v < 64 || v%251 == 0 || v > 65530 {
			kp := p.KP.Copy()
			kp.Suite = ref.Suite(v)
			h.pkg(t, what+" in a key package", kp.Msg(), w)
			kp.SignAs(1, p.Priv.Sig)
			h.pkg(t, what+" in a signed key package", kp.Msg(), w)
			h.wel(t, sc, what+" in a Welcome", ref.Cat(wel[:4], ref.U16(uint16(v)), wel[6:]))
			// a group created from it
			h.call(t, what+" (create)", kp.Msg(), func() error {
				k, err := mls.UnmarshalKeyPackage(kp.Msg())
				if err != nil {
					return err
				}
				g, err := mls.CreateGroup(gid, &mls.KeyPairPackage{Public: *k, Private: mls.PrivateKeyPackage{InitKey: p.Priv.Init, EncryptionKey: p.Priv.Enc, SignatureKey: p.Priv.Sig}})
				if err == nil {
					_, err = g.CreateApplicationMessage([]byte("x"))
				}
				return err
			})
		}
	})
}

var bytesTried = []byte{0, 1, 2, 3, 4, 5, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xfe, 0xff}

// windows overwrites every run of four bytes with extreme numbers, and every
// byte with boundary values.
func windows(b []byte, i int, f func(what string, raw []byte)) {
	for _, v := range bytesTried {
		if b[i] != v {
			c := append([]byte{}, b...)
			c[i] = v
			f(fmt.Sprintf("byte %d set to %d", i, v), c)
		}
	}
	if i+4 <= len(b) {
		for _, v := range []uint32{0, 0x7fffffff, 0x80000000, 0xbfffffff, 0xffffffff} {
			c := append([]byte{}, b...)
			copy(c[i:], ref.U32(v))
			f(fmt.Sprintf("bytes %d to %d set to %08x", i, i+3, v), c)
		}
	}
}

// c12Packages gives altered key packages to whoever takes key packages.
func c12Packages(h *hostile, w *eng.World, label string, all bool, emit func(eng.Case)) {
	s := w.M.Suite
	p := ref.NewParty(nil, s, "c12/"+label, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
		kp.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("ab")}}
		kp.Leaf.Caps.Exts = []uint16{0xff02}
		kp.Leaf.Exts = []ref.Ext{{Type: 0xff02}}
	}})
	raw := p.KP.Msg()
	// sign whatever can still be read
	resigned := func(b []byte) []byte {
		kp, err := ref.ParseKeyPackage(b)
		if err != nil {
			return nil
		}
		kp.Leaf.Sign(s, p.Priv.Sig, nil, 0)
		kp.SignAs(s, p.Priv.Sig)
		return kp.Msg()
	}
	try := func(t *eng.T, what string, b []byte) {
		h.pkg(t, "key package: "+what, b, w)
		if c := resigned(b); c != nil {
			h.pkg(t, "signed key package: "+what, c, w)
		}
	}
	emit(eng.Case{Name: label + "/package/edits", Run: func(t *eng.T) {
		t.State()
		edits(layout(ref.MessageLayout(raw)), raw, func(what string, b []byte) { try(t, what, b) })
	}})
	if all && !h.measure {
		bulk(emit, label+"/package/byte", len(raw), 8, func(t *eng.T, i int) {
			windows(raw, i, func(what string, b []byte) { try(t, what, b) })
			try(t, "cut", raw[:i:i])
		})
	}
	emit(eng.Case{Name: label + "/package/keys", Run: func(t *eng.T) {
		ks := hostileKeys(s, p.KP.InitKey)
		for _, k := range order(ks) {
			key := ks[k]
			for f, field := range []string{"init", "encryption", "signature"} {
				q := ref.NewParty(nil, s, "c12/"+label, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
					switch f {
					case 0:
						kp.InitKey = key
					case 1:
						kp.Leaf.EncKey = key
					case 2:
						kp.Leaf.SigKey = key
					}
				}})
				t.Sample("key", field+" "+k)
				h.pkg(t, fmt.Sprintf("%s key %s", field, k), q.KP.Msg(), w)
			}
			// signatures of all lengths
			h.pkg(t, "signature "+k, ref.NewParty(nil, s, "c12/"+label, ref.PartyOpts{Post: func(kp *ref.KeyPackage) { kp.Signature = key }}).KP.Msg(), w)
			h.pkg(t, "leaf signature "+k, ref.NewParty(nil, s, "c12/"+label, ref.PartyOpts{Leaf: func(l *ref.Leaf) { l.Signature = key }}).KP.Msg(), w)
		}
		for _, x := range []struct{ a, b uint64 }{{0, 0}, {1<<64 - 1, 0}, {0, 1<<64 - 1}, {1 << 63, 1<<63 + 5}, {1<<63 - 1, 1 << 63}, {1<<64 - 1, 1<<64 - 1}} {
			h.pkg(t, fmt.Sprintf("lifetime %d-%d", x.a, x.b), ref.NewParty(nil, s, "c12/"+label, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
				kp.Leaf.NotBefore, kp.Leaf.NotAfter = x.a, x.b
			}}).KP.Msg(), w)
		}
	}})
	// the creator of a group may be given odd private keys by its own storage;
	// its public part may come from elsewhere
	emit(eng.Case{Name: label + "/package/create", Run: func(t *eng.T) {
		edits(layout(ref.MessageLayout(raw)), raw, func(what string, b []byte) {
			h.call(t, "create: "+what, b, func() error {
				kp, err := mls.UnmarshalKeyPackage(b)
				if err != nil {
					return err
				}
				_, err = mls.CreateGroup(gid, &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{InitKey: p.Priv.Init, EncryptionKey: p.Priv.Enc, SignatureKey: p.Priv.Sig}})
				return err
			})
		})
	}})
}

// c12Proposals commits hostile proposals, whether inline or by reference.
func c12Proposals(h *hostile, w *eng.World, label string, all bool, emit func(eng.Case)) {
	g := w.M
	s := g.Suite
	members := g.Tree.Members()
	from := members[1]
	to := others(members, from)
	if !all || h.measure {
		to = to[:1]
	}
	// raw commits a body for which no honest commit exists
	raw := func(body []byte, priv bool) []byte {
		return g.Raw(from, ref.CTCommit, body, make([]byte, s.Nh()), ref.Frame{Private: priv})
	}
	one := func(t *eng.T, what string, p *ref.Proposal) {
		var path *ref.Path
		if res, err := g.Commit(ref.CommitOpts{Sender: from, Path: true, Rng: ref.NewRng("c12", what)}); err == nil {
			path = res.Path
		}
		pm, pend, ng := g.Propose(from, p, ref.Frame{})
		pp, ppend, _ := g.Propose(from, p, ref.Frame{Private: true, Gen: 3})
		for _, i := range to {
			for k, list := range [][]ref.PropOrRef{inline(p), {{Ref: pend.Ref}}, {{Ref: ppend.Ref}}, inline(p, p)} {
				pre := [][]byte{nil, pm, pp, nil}[k]
				var pres [][]byte
				if pre != nil {
					pres = [][]byte{pre}
				}
				for _, pa := range []*ref.Path{nil, path} {
					h.msg(t, w, i, fmt.Sprintf("%s, way %d", what, k), pres, raw((&ref.Commit{Props: list, Path: pa}).Enc(), k == 1))
				}
			}
			// with the tags a naive member would compute, when there are any
			guarded(func() error {
				for _, path := range []bool{false, true} {
					res, err := ng.Commit(ref.CommitOpts{Sender: from, List: []ref.PropOrRef{{Ref: pend.Ref}}, Path: path, Rng: ref.NewRng("c12n", what)})
					if err != nil {
						return err
					}
					h.msg(t, w, i, what+", naive", [][]byte{pm}, res.Msg)
				}
				return nil
			})
		}
	}
	emit(eng.Case{Name: label + "/proposal/remove", Run: func(t *eng.T) {
		t.State()
		for _, v := range numbers(g.Tree.N) {
			one(t, fmt.Sprintf("removal of %d", v), &ref.Proposal{Type: ref.PropRemove, Removed: v})
		}
	}})
	emit(eng.Case{Name: label + "/proposal/other", Run: func(t *eng.T) {
		for v := 0; v < 70; v++ {
			for _, b := range [][]byte{{}, {0}, {1, 2, 3, 4}, ref.Vec([]byte("abc"))} {
				one(t, fmt.Sprintf("proposal type %d", v), &ref.Proposal{Type: uint16(v), Raw: b})
			}
		}
		one(t, "proposal type 65535", &ref.Proposal{Type: 65535, Raw: []byte{}})
		for _, n := range []int{0, 1, 31, 32, 33, 64, 300} {
			one(t, fmt.Sprintf("pre-shared key nonce of %d", n), ref.PSK(ref.PSKID{Type: 1, ID: make([]byte, n), Nonce: make([]byte, n)}))
			one(t, fmt.Sprintf("resumption nonce of %d", n), ref.PSK(ref.PSKID{Type: 2, Usage: 3, GroupID: make([]byte, n), Epoch: 1<<64 - 1, Nonce: make([]byte, n)}))
			one(t, fmt.Sprintf("external init of %d", n), ref.ExternalInit(make([]byte, n)))
			one(t, fmt.Sprintf("extension of %d", n), ref.GCE(ref.Ext{Type: uint16(n), Data: make([]byte, n)}))
			for typ := uint16(0); typ < 8; typ++ {
				one(t, fmt.Sprintf("extension %d of %d", typ, n), ref.GCE(ref.Ext{Type: typ, Data: make([]byte, n)}, ref.Ext{Type: typ}))
			}
		}
	}})
	emit(eng.Case{Name: label + "/proposal/leaf", Run: func(t *eng.T) {
		ks := hostileKeys(s, g.Tree.Leaves[from].EncKey)
		for _, k := range order(ks) {
			key := ks[k]
			l := g.UpdateLeaf(from, ref.NewRng("c12", k), func(l *ref.Leaf) { l.EncKey = key }, false)
			one(t, "update with encryption key "+k, ref.UpdateWith(l))
			l = g.UpdateLeaf(from, ref.NewRng("c12", k), func(l *ref.Leaf) { l.SigKey = key }, false)
			one(t, "update with signature key "+k, ref.UpdateWith(l))
			for f := 0; f < 3; f++ {
				kp := ref.NewParty(nil, s, "c12/add/"+k, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
					*[]*[]byte{&kp.InitKey, &kp.Leaf.EncKey, &kp.Leaf.SigKey}[f] = key
				}}).KP
				one(t, fmt.Sprintf("addition with key %d %s", f, k), ref.Add(kp))
			}
		}
		for src := 0; src < 5; src++ {
			l := g.UpdateLeaf(from, ref.NewRng("c12", src), func(l *ref.Leaf) { l.Source = uint8(src) }, false)
			one(t, fmt.Sprintf("update with source %d", src), ref.UpdateWith(l))
			one(t, fmt.Sprintf("addition with source %d", src), ref.Add(ref.NewParty(nil, s, "c12/src", ref.PartyOpts{Mut: func(kp *ref.KeyPackage) { kp.Leaf.Source = uint8(src) }}).KP))
		}
		// leaves of other members, and updates by each of them in one commit
		for _, m := range members {
			one(t, fmt.Sprintf("update with leaf %d", m), ref.UpdateWith(g.Tree.Leaves[m]))
		}
	}})
	emit(eng.Case{Name: label + "/proposal/lists", Run: func(t *eng.T) {
		for _, body := range [][]byte{
			(&ref.Commit{}).Enc(),
			ref.Cat(ref.Vec(nil), []byte{2}),
			ref.Cat(ref.Vec(bytes.Repeat([]byte{2, 0}, 50)), []byte{0}),
			(&ref.Commit{Props: []ref.PropOrRef{{Ref: make([]byte, 32)}}}).Enc(),
			(&ref.Commit{Props: []ref.PropOrRef{{Ref: []byte{}}}}).Enc(),
			(&ref.Commit{Props: []ref.PropOrRef{{Ref: make([]byte, 5000)}}}).Enc(),
		} {
			for _, i := range to {
				h.msg(t, w, i, "commit body", nil, raw(body, false))
				h.msg(t, w, i, "commit body", nil, raw(body, true))
			}
		}
		// everybody is removed, in every order
		var ps []*ref.Proposal
		for _, m := range members {
			ps = append(ps, ref.Remove(m))
		}
		for k := 0; k <= len(ps); k++ {
			for _, i := range to {
				h.msg(t, w, i, "removals", nil, raw((&ref.Commit{Props: inline(ps[:k]...)}).Enc(), false))
				h.msg(t, w, i, "removals", nil, raw((&ref.Commit{Props: inline(ps[k:]...)}).Enc(), false))
			}
		}
	}})
}

// c12Paths commits hostile update paths.
func c12Paths(h *hostile, w *eng.World, label string, emit func(eng.Case)) {
	g := w.M
	s := g.Suite
	members := g.Tree.Members()
	for _, from := range []int{members[0], members[len(members)-1]} {
		from := from
		name := fmt.Sprintf("%s/path/by%d", label, from)
		each := func(t *eng.T, what string, o ref.CommitOpts) {
			o.Sender, o.Path, o.Rng = from, true, ref.NewRng("c12p", what)
			for k, list := range [][]ref.PropOrRef{nil, inline(ref.Add(ref.NewParty(g.Ring, s, "c12/path", ref.PartyOpts{}).KP))} {
				o.List = list
				o.Private = k == 1
				res, err := g.Commit(o)
				if err != nil {
					t.Count("not formed")
					continue
				}
				for _, i := range others(members, from) {
					h.msg(t, w, i, what, nil, res.Msg)
				}
			}
		}
		emit(eng.Case{Name: name + "/nodes", Run: func(t *eng.T) {
			t.State()
			for n := 0; n < 6; n++ {
				for _, body := range []int{0, 1, 5} {
					n, body := n, body
					each(t, fmt.Sprintf("%d nodes with %d secrets", n, body), ref.CommitOpts{PathPost: func(p *ref.Path) {
						var ns []ref.PathNode
						for k := 0; k < n; k++ {
							pn := ref.PathNode{}
							if len(p.Nodes) > 0 {
								pn = p.Nodes[k%len(p.Nodes)]
							}
							for len(pn.Cts) > body {
								pn.Cts = pn.Cts[:len(pn.Cts)-1]
							}
							for len(pn.Cts) < body {
								pn.Cts = append(append([]ref.HPKECt{}, pn.Cts...), ref.HPKECt{Kem: make([]byte, 32), Ct: make([]byte, 48)})
							}
							ns = append(ns, pn)
						}
						p.Nodes = ns
					}})
				}
			}
		}})
		emit(eng.Case{Name: name + "/keys", Run: func(t *eng.T) {
			ks := hostileKeys(s, g.Tree.Leaves[from].EncKey)
			for _, k := range order(ks) {
				key := ks[k]
				each(t, "leaf key "+k, ref.CommitOpts{LeafPre: func(l *ref.Leaf) { l.EncKey = key }})
				each(t, "leaf signature key "+k, ref.CommitOpts{LeafPre: func(l *ref.Leaf) { l.SigKey = key }})
				each(t, "leaf parent hash "+k, ref.CommitOpts{LeafPre: func(l *ref.Leaf) { l.ParentHash = key }})
				each(t, "leaf signature "+k, ref.CommitOpts{LeafPost: func(l *ref.Leaf) { l.Signature = key }})
				for n := 0; n < 3; n++ {
					n := n
					at := func(f func(pn *ref.PathNode)) func(p *ref.Path) {
						return func(p *ref.Path) {
							if n < len(p.Nodes) {
								f(&p.Nodes[n])
							}
						}
					}
					each(t, fmt.Sprintf("node %d key %s", n, k), ref.CommitOpts{PathPost: at(func(pn *ref.PathNode) { pn.EncKey = key })})
					each(t, fmt.Sprintf("node %d own key %s", n, k), ref.CommitOpts{PathKeys: func(keys [][]byte) {
						if n < len(keys) {
							keys[n] = key
						}
					}})
					each(t, fmt.Sprintf("node %d encapsulated keys %s", n, k), ref.CommitOpts{PathPost: at(func(pn *ref.PathNode) {
						for c := range pn.Cts {
							pn.Cts[c].Kem = key
						}
					})})
					each(t, fmt.Sprintf("node %d ciphertexts %s", n, k), ref.CommitOpts{PathPost: at(func(pn *ref.PathNode) {
						for c := range pn.Cts {
							pn.Cts[c].Ct = key
						}
					})})
				}
			}
		}})
		emit(eng.Case{Name: name + "/secrets", Run: func(t *eng.T) {
			for n := 0; n <= 2*s.Nh()+2; n++ {
				n := n
				each(t, fmt.Sprintf("path secret of %d bytes", n), ref.CommitOpts{PathSecret: func(i int, b []byte) []byte { return make([]byte, n) }})
				each(t, fmt.Sprintf("confirmation tag of %d bytes", n), ref.CommitOpts{ConfTag: func(b []byte) []byte { return make([]byte, n) }})
			}
			for _, v := range numbers(g.Tree.N) {
				v := v
				each(t, fmt.Sprintf("leaf signed for %d", v), ref.CommitOpts{LeafIdx: &v})
			}
			for src := uint8(0); src < 5; src++ {
				src := src
				each(t, fmt.Sprintf("leaf source %d", src), ref.CommitOpts{LeafPre: func(l *ref.Leaf) { l.Source = src }})
			}
		}})
	}
}

// c12Frames sends messages with hostile framing.
func c12Frames(h *hostile, w *eng.World, label string, emit func(eng.Case)) {
	g := w.M
	members := g.Tree.Members()
	from := members[0]
	i := members[1]
	for _, sp := range specimens(w, from, label) {
		sp := sp
		name := label + "/frame/" + sp.name
		send := func(t *eng.T, what string, f ref.Frame) { h.msg(t, w, i, sp.name+": "+what, sp.pre, sp.make(f)) }
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			t.State()
			for _, v := range numbers(g.Tree.N) {
				v := v
				send(t, fmt.Sprintf("from %d", v), ref.Frame{Content: func(c *ref.Content) { c.Sender = v }})
				if sp.priv {
					send(t, fmt.Sprintf("encrypted by %d", v), ref.Frame{SDLeaf: &v})
				}
			}
			for st := 0; st < 8; st++ {
				st := uint8(st)
				for _, idx := range []uint32{0, 1, 1 << 31, 1<<32 - 1} {
					send(t, fmt.Sprintf("sender type %d of %d", st, idx), ref.Frame{Content: func(c *ref.Content) { c.SenderType, c.Sender = st, idx }})
				}
			}
			for _, e := range []uint64{0, 1, 1 << 32, 1 << 63, 1<<64 - 1, g.Ctx.Epoch - 1, g.Ctx.Epoch + 1} {
				e := e
				send(t, fmt.Sprintf("epoch %d", e), ref.Frame{Content: func(c *ref.Content) { c.Epoch = e }})
			}
			for _, n := range []int{0, 1, 63, 64, 16384, 100000} {
				b := make([]byte, n)
				send(t, fmt.Sprintf("%d bytes of authenticated data", n), ref.Frame{AAD: b})
				send(t, fmt.Sprintf("signature of %d bytes", n), ref.Frame{Signed: func(a *ref.Auth) { a.Sig = b }})
				send(t, fmt.Sprintf("group identifier of %d bytes", n), ref.Frame{Content: func(c *ref.Content) { c.GroupID = b }})
				if !sp.priv {
					send(t, fmt.Sprintf("membership tag of %d bytes", n), ref.Frame{MemberTag: func([]byte) []byte { return b }})
				}
			}
			for n := 0; n < 80; n++ {
				n := n
				send(t, fmt.Sprintf("signature of %d bytes", n), ref.Frame{Signed: func(a *ref.Auth) { a.Sig = make([]byte, n) }})
				if !sp.priv {
					send(t, fmt.Sprintf("membership tag of %d bytes", n), ref.Frame{MemberTag: func([]byte) []byte { return make([]byte, n) }})
					continue
				}
				send(t, fmt.Sprintf("ciphertext of %d bytes", n), ref.Frame{Wire: func(m *ref.PrivMsg) { m.Ct = make([]byte, n) }})
				send(t, fmt.Sprintf("sender data of %d bytes", n), ref.Frame{Wire: func(m *ref.PrivMsg) { m.EncSD = make([]byte, n) }})
				send(t, fmt.Sprintf("both of %d bytes", n), ref.Frame{Wire: func(m *ref.PrivMsg) { m.EncSD, m.Ct = make([]byte, n), make([]byte, n) }})
				send(t, fmt.Sprintf("plain sender data of %d bytes", n), ref.Frame{SDRaw: bytes.Repeat([]byte{byte(n)}, n)})
				send(t, fmt.Sprintf("plaintext of %d zero bytes", n), ref.Frame{PlainMut: func([]byte) []byte { return make([]byte, n) }})
				send(t, fmt.Sprintf("plaintext of %d other bytes", n), ref.Frame{PlainMut: func([]byte) []byte { return bytes.Repeat([]byte{0xff}, n) }})
			}
			if sp.priv {
				for typ := 0; typ < 256; typ++ {
					send(t, fmt.Sprintf("content type %d outside", typ), ref.Frame{Wire: func(m *ref.PrivMsg) { m.Type = uint8(typ) }})
				}
			}
		}})
		if sp.priv && !h.measure {
			emit(eng.Case{Name: name + "/generations", Run: func(t *eng.T) {
				for _, v := range []uint32{1 << 10, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1} {
					if v <= 1<<20 && v > 1<<16 && sp.typ != ref.CTApplication {
						continue
					}
					v := v
					send(t, fmt.Sprintf("generation %d", v), ref.Frame{SDGen: &v})
				}
			}})
		}
	}
}

// c12Contents signs and sends altered contents of every kind.
func c12Contents(h *hostile, w *eng.World, label string, all bool, emit func(eng.Case)) {
	g := w.M
	members := g.Tree.Members()
	from := members[1]
	i := others(members, from)[0]
	for _, sp := range specimens(w, from, label) {
		sp := sp
		name := label + "/content/" + sp.name
		var body []byte
		sp.make(ref.Frame{Content: func(c *ref.Content) { body = c.Body }})
		send := func(t *eng.T, what string, b []byte) {
			h.msg(t, w, i, "signed "+sp.name+": "+what, sp.pre, sp.make(ref.Frame{Content: func(c *ref.Content) { c.Body = b }}))
		}
		emit(eng.Case{Name: name, Run: func(t *eng.T) {
			t.State()
			lay := layout(ref.LayoutOf(body, func(r *ref.R) { ref.DecBody(r, sp.typ) }))
			edits(lay, body, func(what string, b []byte) { send(t, what, b) })
		}})
		if h.measure || !all {
			continue
		}
		bulk(emit, name+"/byte", len(body), 16, func(t *eng.T, k int) {
			windows(body, k, func(what string, b []byte) { send(t, what, b) })
			send(t, "cut", body[:k])
		})
		honest := sp.msg()
		bulk(emit, name+"/wire", len(honest), 64, func(t *eng.T, k int) {
			windows(honest, k, func(what string, b []byte) { h.msg(t, w, i, sp.name+" on the wire: "+what, sp.pre, b) })
		})
	}
}

// c12Welcomes sends hostile Welcomes.
func c12Welcomes(h *hostile, w *eng.World, label string, all bool, emit func(eng.Case)) {
	s := w.M.Suite
	by := w.M.Tree.Members()[0]
	for v := 0; v < 2; v++ {
		name := fmt.Sprintf("%s/welcome/%d", label, v)
		sc := newScene(w.M, by, 1+v, v > 0, name, ref.CommitOpts{})
		raw := sc.raw(nil, ref.WelcomeOpts{})
		last := len(sc.ps) - 1
		tree := func(t *eng.T, what string, mut func(tr *ref.Tree)) {
			tr := sc.next.Tree.Copy()
			mut(tr)
			h.wel(t, sc, "tree: "+what, sc.raw(sc.next.Rebind(tr, nil), ref.WelcomeOpts{}))
		}
		emit(eng.Case{Name: name + "/outside", Run: func(t *eng.T) {
			t.State()
			edits(layout(ref.MessageLayout(raw)), raw, func(what string, b []byte) { h.wel(t, sc, what, b) })
			for n := 0; n < 100; n++ {
				n := n
				put := func(what string, f func(w *ref.Welcome)) {
					h.wel(t, sc, fmt.Sprintf("%s of %d bytes", what, n), sc.raw(nil, ref.WelcomeOpts{Welcome: f}))
				}
				put("group info", func(w *ref.Welcome) { w.EncInfo = make([]byte, n) })
				put("reference", func(w *ref.Welcome) { w.Secrets[last].NewMember = make([]byte, n) })
				put("encapsulated key", func(w *ref.Welcome) { w.Secrets[last].Ct.Kem = make([]byte, n) })
				put("ciphertext", func(w *ref.Welcome) { w.Secrets[last].Ct.Ct = make([]byte, n) })
				h.wel(t, sc, fmt.Sprintf("group secrets of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{RawSec: func(int, []byte) []byte { return make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("plain group info of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{RawInfo: func([]byte) []byte { return make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("joiner secret of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{Secrets: func(_ int, gs *ref.GroupSecrets) { gs.Joiner = make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("path secret of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{Secrets: func(_ int, gs *ref.GroupSecrets) { gs.PathSecret = make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("%d pre-shared keys", n), sc.raw(nil, ref.WelcomeOpts{Secrets: func(_ int, gs *ref.GroupSecrets) {
					for k := 0; k < n; k++ {
						gs.PSKs = append(gs.PSKs, ref.PSKID{Type: uint8(1 + k%2), Usage: 1, ID: make([]byte, k), Nonce: make([]byte, k)})
					}
				}}))
				h.wel(t, sc, fmt.Sprintf("confirmation tag of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{Info: func(gi *ref.GroupInfo) { gi.ConfTag = make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("info signature of %d bytes", n), sc.raw(nil, ref.WelcomeOpts{Signed: func(gi *ref.GroupInfo) { gi.Signature = make([]byte, n) }}))
				h.wel(t, sc, fmt.Sprintf("hashes of %d bytes", n), sc.raw(sc.next.Rebind(sc.next.Tree, func(c *ref.Ctx) { c.CTH = make([]byte, n) }), ref.WelcomeOpts{}))
			}
		}})
		emit(eng.Case{Name: name + "/info", Run: func(t *eng.T) {
			for _, x := range numbers(sc.next.Tree.N) {
				x := x
				h.wel(t, sc, fmt.Sprintf("signer %d", x), sc.raw(nil, ref.WelcomeOpts{Info: func(gi *ref.GroupInfo) { gi.Signer = x }}))
			}
			for _, e := range []uint64{0, 1 << 63, 1<<64 - 1} {
				h.wel(t, sc, fmt.Sprintf("epoch %d", e), sc.raw(sc.next.Rebind(sc.next.Tree, func(c *ref.Ctx) { c.Epoch = e }), ref.WelcomeOpts{}))
			}
			for typ := 0; typ < 16; typ++ {
				for _, n := range []int{0, 1, 2, 63, 64, 20000} {
					ext := ref.Ext{Type: uint16(typ), Data: make([]byte, n)}
					h.wel(t, sc, fmt.Sprintf("info extension %d of %d bytes", typ, n), sc.raw(nil, ref.WelcomeOpts{ExtraExt: []ref.Ext{ext, ext}}))
					h.wel(t, sc, fmt.Sprintf("group extension %d of %d bytes", typ, n), sc.raw(sc.next.Rebind(sc.next.Tree, func(c *ref.Ctx) { c.Exts = []ref.Ext{ext} }), ref.WelcomeOpts{}))
				}
			}
			for _, su := range []ref.Suite{0, 2, 3, 4, 5, 6, 7, 8, 65535} {
				if su != s {
					h.wel(t, sc, fmt.Sprintf("cipher suite %d", su), sc.raw(sc.next.Rebind(sc.next.Tree, func(c *ref.Ctx) { c.Suite = su }), ref.WelcomeOpts{}))
				}
			}
			for _, ver := range []uint16{0, 2, 65535} {
				h.wel(t, sc, fmt.Sprintf("version %d", ver), sc.raw(sc.next.Rebind(sc.next.Tree, func(c *ref.Ctx) { c.Version = ver }), ref.WelcomeOpts{}))
			}
			var info []byte
			sc.raw(nil, ref.WelcomeOpts{RawInfo: func(b []byte) []byte { info = b; return b }})
			edits(layout(ref.InfoLayout(info)), info, func(what string, b []byte) {
				h.wel(t, sc, "group info: "+what, sc.raw(nil, ref.WelcomeOpts{RawInfo: func([]byte) []byte { return b }}))
			})
			enc := sc.next.Tree.Enc()
			edits(layout(ref.TreeLayout(enc)), enc, func(what string, b []byte) {
				h.wel(t, sc, "raw tree: "+what, sc.raw(nil, ref.WelcomeOpts{TreeRaw: b}))
			})
		}})
		emit(eng.Case{Name: name + "/tree", Run: func(t *eng.T) {
			tr := sc.next.Tree
			ks := hostileKeys(s, sc.me().KP.InitKey)
			for _, i := range tr.Members() {
				sig := sc.next.Ring.Sig(tr.Leaves[i].SigKey)
				if sig == nil {
					continue
				}
				leaf := func(f func(l *ref.Leaf)) func(*ref.Tree) {
					return func(tr *ref.Tree) {
						l := tr.Leaves[i].Copy()
						f(l)
						l.Sign(s, sig, sc.next.Ctx.GroupID, uint32(i))
						tr.Leaves[i] = l
					}
				}
				for _, k := range order(ks) {
					key := ks[k]
					tree(t, fmt.Sprintf("leaf %d encryption key %s", i, k), leaf(func(l *ref.Leaf) { l.EncKey = key }))
					tree(t, fmt.Sprintf("leaf %d signature key %s", i, k), leaf(func(l *ref.Leaf) { l.SigKey = key }))
					tree(t, fmt.Sprintf("leaf %d parent hash %s", i, k), leaf(func(l *ref.Leaf) { l.ParentHash = key }))
				}
				for src := uint8(0); src < 5; src++ {
					tree(t, fmt.Sprintf("leaf %d source %d", i, src), leaf(func(l *ref.Leaf) { l.Source = src }))
				}
			}
			for sp := range tr.Parents {
				sp := sp
				node := func(f func(p *ref.Parent)) func(*ref.Tree) {
					return func(tr *ref.Tree) {
						p := *tr.Parents[sp]
						f(&p)
						tr.Parents[sp] = &p
					}
				}
				for _, k := range order(ks) {
					key := ks[k]
					tree(t, fmt.Sprintf("node %d key %s", sp.Index(), k), node(func(p *ref.Parent) { p.EncKey = key }))
					tree(t, fmt.Sprintf("node %d parent hash %s", sp.Index(), k), node(func(p *ref.Parent) { p.ParentHash = key }))
				}
				for _, x := range numbers(tr.N) {
					tree(t, fmt.Sprintf("node %d lists %d as unmerged", sp.Index(), x), node(func(p *ref.Parent) { p.Unmerged = []uint32{x} }))
					tree(t, fmt.Sprintf("node %d also lists %d as unmerged", sp.Index(), x), node(func(p *ref.Parent) { p.Unmerged = append(append([]uint32{}, p.Unmerged...), x) }))
				}
			}
			// trees of unusual size, with the recipient at the usual place
			enc := tr.Enc()
			var body []byte
			if err := ref.Decode(enc, func(r *ref.R) { body = r.Vec() }); err != nil {
				eng.Harness("%v", err)
			}
			blank := func(n int) []byte { return make([]byte, n) }
			for n := 0; n <= 70; n++ {
				for _, b := range [][]byte{ref.Cat(body, blank(n)), ref.Cat(blank(n), body), blank(n), ref.Cat(body, blank(n), []byte{1, 2}), ref.Cat(blank(n), ref.Cat([]byte{1, 1}, sc.me().KP.Leaf.Enc()))} {
					h.wel(t, sc, fmt.Sprintf("tree with %d blanks", n), sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.Vec(b)}))
				}
			}
			// leaves where parents belong and the other way round
			lf := ref.Cat([]byte{1, 1}, sc.me().KP.Leaf.Enc())
			pn := ref.Cat([]byte{1, 2}, (&ref.Parent{EncKey: sc.me().KP.InitKey}).Enc())
			for n := 1; n < 9; n++ {
				for m := 0; m < 1<<n; m++ {
					var b []byte
					for k := 0; k < n; k++ {
						if m>>k&1 > 0 {
							b = append(b, pn...)
						} else {
							b = append(b, lf...)
						}
					}
					h.wel(t, sc, fmt.Sprintf("node types %b of %d", m, n), sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.Vec(b)}))
				}
			}
		}})
		if all && !h.measure {
			bulk(emit, name+"/byte", len(raw), 32, func(t *eng.T, i int) {
				windows(raw, i, func(what string, b []byte) { h.wel(t, sc, what, b) })
			})
			enc := sc.next.Tree.Enc()
			bulk(emit, name+"/treebyte", len(enc), 16, func(t *eng.T, i int) {
				windows(enc, i, func(what string, b []byte) {
					// announce the altered tree when there is one
					if tr, err := ref.ParseTree(b); err == nil {
						h.wel(t, sc, "tree: "+what, sc.raw(sc.next.Rebind(tr, nil), ref.WelcomeOpts{TreeRaw: b}))
					} else {
						h.wel(t, sc, "tree: "+what, sc.raw(nil, ref.WelcomeOpts{TreeRaw: b}))
					}
				})
			})
		}
	}
}

// c12Lengths states huge lengths in the fewest bytes.
func c12Lengths(h *hostile) {
	var w *eng.World
	setup(h.r, "lengths", func(t *eng.T) { w = recipeOf("pair").build(t, 1, gid) })
	if w == nil {
		return
	}
	sc := newScene(w.M, 0, 1, true, "lengths", ref.CommitOpts{})
	wel := sc.raw(nil, ref.WelcomeOpts{})
	pub, _, _ := w.M.Propose(0, ref.Remove(1), ref.Frame{})
	com, err := w.M.Commit(ref.CommitOpts{Sender: 0, Path: true, Rng: ref.NewRng("lengths")})
	if err != nil {
		eng.Harness("%v", err)
	}
	app := w.M.App(0, []byte("hello"), ref.Frame{})
	kp := ref.NewParty(nil, 1, "lengths", ref.PartyOpts{}).KP.Msg()
	for k, msg := range [][]byte{kp, wel, pub, com.Msg, app} {
		h.r.Do(eng.Case{Name: fmt.Sprintf("lengths/%d", k), Run: func(t *eng.T) {
			t.State()
			for _, m := range layout(ref.MessageLayout(msg)) {
				for _, n := range []int{64, 16384, 1 << 20, 1 << 24, 1<<30 - 1} {
					for _, rest := range []int{0, 1, 100, len(msg)} {
						b := ref.Cat(msg[:m.Off], ref.VarLen(n), msg[m.Off+m.Size:])
						if rest < len(msg) {
							b = b[:min(len(b), m.Off+4+rest)]
						}
						what := fmt.Sprintf("length %d stated at %d", n, m.Off)
						h.call(t, what, b, func() error { _, err := mls.UnmarshalKeyPackage(b); return err })
						h.call(t, what, b, func() error { _, err := mls.UnmarshalWelcome(b); return err })
						h.call(t, what, b, func() error { _, err := w.R[1].UnmarshalAndProcessMessage(b); return err })
					}
				}
			}
		}})
	}
}

// c12Bulk sends large but otherwise ordinary things.
func c12Bulk(h *hostile) {
	var w *eng.World
	setup(h.r, "bulk", func(t *eng.T) { w = recipeOf("three").build(t, 1, gid) })
	if w == nil {
		return
	}
	g := w.M
	sc := newScene(g, 0, 1, true, "bulk", ref.CommitOpts{})
	h.r.Do(eng.Case{Name: "bulk/tree", Run: func(t *eng.T) {
		lf := ref.Cat([]byte{1, 1}, sc.me().KP.Leaf.Enc())
		for _, n := range []int{1 << 10, 1 << 14, 1<<16 - 1, 1 << 17} {
			tr := sc.next.Tree.Copy()
			tr.Leaves = append(append([]*ref.Leaf{}, tr.Leaves...), make([]*ref.Leaf, n)...)
			h.wel(t, sc, fmt.Sprintf("%d blank nodes", n), sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.Vec(make([]byte, n))}))
			h.wel(t, sc, fmt.Sprintf("%d blank nodes and a leaf", n), sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.Vec(ref.Cat(make([]byte, n), lf))}))
			h.wel(t, sc, fmt.Sprintf("%d blank nodes and a leaf", n), sc.raw(nil, ref.WelcomeOpts{TreeRaw: ref.Vec(ref.Cat(make([]byte, n/2*2), lf))}))
		}
		// the same, announced: the far right leaf makes the tree large
		for _, n := range []int{64, 1024, 1 << 14} {
			tr := sc.next.Tree.Copy()
			tr.Leaves = append(append([]*ref.Leaf{}, tr.Leaves...), make([]*ref.Leaf, n-len(tr.Leaves))...)
			tr.N = n
			tr.Leaves[n-1] = ref.NewParty(g.Ring, 1, "far", ref.PartyOpts{}).KP.Leaf
			h.wel(t, sc, fmt.Sprintf("tree of %d leaves", n), sc.raw(sc.next.Rebind(tr, nil), ref.WelcomeOpts{}))
		}
	}})
	h.r.Do(eng.Case{Name: "bulk/messages", Run: func(t *eng.T) {
		for _, n := range []int{1 << 10, 1 << 16, 1 << 20} {
			b := make([]byte, n)
			h.msg(t, w, 1, "application data", nil, g.App(0, b, ref.Frame{Pad: n}))
			h.msg(t, w, 1, "proposals", nil, g.Raw(0, ref.CTCommit, ref.Cat(ref.Vec(bytes.Repeat(ref.Cat([]byte{1}, ref.Remove(2).Enc()), n/8)), []byte{0}), make([]byte, 32), ref.Frame{}))
			h.msg(t, w, 1, "references", nil, g.Raw(0, ref.CTCommit, ref.Cat(ref.Vec(bytes.Repeat([]byte{2, 0}, n/2)), []byte{0}), make([]byte, 32), ref.Frame{}))
			h.msg(t, w, 1, "unmerged", nil, g.Raw(0, ref.CTProposal, ref.GCE(ref.Ext{Type: 9, Data: b}).Enc(), nil, ref.Frame{}))
			kp := ref.NewParty(nil, 1, "bulk", ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
				kp.Leaf.Caps.Exts = make([]uint16, n/2)
				for i := 0; i < n/64; i++ {
					kp.Exts = append(kp.Exts, ref.Ext{Type: uint16(i)})
				}
			}}).KP
			h.pkg(t, "many extensions", kp.Msg(), w)
			h.msg(t, w, 1, "add", nil, g.Raw(0, ref.CTProposal, ref.Add(kp).Enc(), nil, ref.Frame{}))
		}
		// many additions at once
		var ps []*ref.Proposal
		for k := 0; k < 40; k++ {
			ps = append(ps, ref.Add(ref.NewParty(g.Ring, 1, fmt.Sprintf("bulk/%d", k), ref.PartyOpts{}).KP))
		}
		res, err := g.Commit(ref.CommitOpts{Sender: 0, List: inline(ps...), Path: true, Rng: ref.NewRng("bulk")})
		if err != nil {
			eng.Harness("%v", err)
		}
		h.msg(t, w, 1, "40 additions", nil, res.Msg)
	}})
	// pending proposals pile up
	h.r.Do(eng.Case{Name: "bulk/pending", Run: func(t *eng.T) {
		c := eng.Clone(w.R[1])
		for k := 0; k < 500; k++ {
			msg, _, _ := g.Propose(0, ref.Remove(2), ref.Frame{AAD: []byte(fmt.Sprint(k))})
			h.call(t, "pending", msg, func() error { _, err := c.UnmarshalAndProcessMessage(msg); return err })
		}
		h.use(t, "pending", c, 1)
	}})
}

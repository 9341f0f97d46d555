package main

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C11"] = check{"fault_enumeration", eng.Meta{
		Rule: "one evaluation is an input given to a decoder (directly, or inside correctly protected content): what the reference decoder refuses must be refused, what is accepted must be encoded again to the same bytes; distinct inputs are distinct byte strings",
		Assumptions: []string{
			"extension, proposal, credential and capability registries are open; protocol version and wire format in the header, content type, sender type, leaf node source, node type, optional markers, pre-shared key type and usage are closed sets",
		},
	}, c11}
}

// codec is a kind of object with a decoder and an encoder.
type codec struct {
	name string
	read func(raw []byte) (again []byte, err error)
	ref  func(raw []byte) error
}

func guarded(f func() error) error { return eng.Guarded(f) }

var packageCodec = codec{"key package", func(raw []byte) (again []byte, err error) {
	err = guarded(func() error {
		kp, err := mls.UnmarshalKeyPackage(raw)
		if err == nil {
			again = kp.Bytes()
		}
		return err
	})
	return again, err
}, func(raw []byte) error { _, err := ref.ParseKeyPackage(raw); return err }}

var welcomeCodec = codec{"Welcome", func(raw []byte) (again []byte, err error) {
	err = guarded(func() error {
		w, err := mls.UnmarshalWelcome(raw)
		if err == nil {
			again = w.Bytes()
		}
		return err
	})
	return again, err
}, func(raw []byte) error { _, err := ref.ParseWelcome(raw); return err }}

// try decodes an arbitrary input.
func (c codec) try(t *eng.T, what string, raw []byte) {
	if t.Failed() {
		return
	}
	t.Transition()
	again, err := c.read(raw)
	switch {
	case eng.Panicked(err):
		t.Fail("%s, %s: %v", c.name, what, err)
	case err != nil:
		t.Count("refused")
	case !bytes.Equal(again, raw):
		t.Fail("%s, %s: accepted, but encoded again differently", c.name, what)
	case c.ref(raw) != nil:
		t.Fail("%s, %s: accepted although %v", c.name, what, c.ref(raw))
	default:
		t.Count("accepted")
	}
	t.Case(raw)
}

// valid decodes a well-formed specimen.
func (c codec) valid(t *eng.T, what string, raw []byte) {
	if err := c.ref(raw); err != nil {
		eng.Harness("%s: %v", what, err)
	}
	if _, err := c.read(raw); err != nil {
		t.Fail("%s, %s: refused: %v", c.name, what, err)
	}
	c.try(t, what, raw)
}

// edits lists structural edits of an encoded object: every vector's length in
// other forms, with too much or too little content, and with wrong lengths.
func edits(lay ref.Layout, b []byte, f func(what string, raw []byte)) {
	for k, m := range lay {
		at := fmt.Sprintf("vector at %d of length %d", m.Off, m.Len)
		for _, size := range []int{2, 4, 8} {
			if size > m.Size {
				f(fmt.Sprintf("%s: length in %d bytes", at, size), lay.Edit(b, k, size, nil))
			}
		}
		f(at+": extra zero byte", lay.Edit(b, k, 0, func(c []byte) []byte { return append(c, 0) }))
		f(at+": extra byte", lay.Edit(b, k, 0, func(c []byte) []byte { return append(c, 1) }))
		f(at+": leading zero byte", lay.Edit(b, k, 0, func(c []byte) []byte { return append([]byte{0}, c...) }))
		f(at+": two more bytes", lay.Edit(b, k, 0, func(c []byte) []byte { return append(c, 0xff, 0xff) }))
		if m.Len > 0 {
			f(at+": last byte missing", lay.Edit(b, k, 0, func(c []byte) []byte { return c[:len(c)-1] }))
			f(at+": first byte missing", lay.Edit(b, k, 0, func(c []byte) []byte { return c[1:] }))
			f(at+": empty", lay.Edit(b, k, 0, func(c []byte) []byte { return nil }))
		}
		for _, n := range []int{m.Len - 1, m.Len + 1, m.Len + 2, 0, 1, 63, 64, 16383, 16384, 1<<30 - 1} {
			if n >= 0 && n != m.Len {
				f(fmt.Sprintf("%s: length stated as %d", at, n), ref.Cat(b[:m.Off], ref.VarLen(n), b[m.Off+m.Size:]))
			}
		}
	}
}

func layout(lay ref.Layout, err error) ref.Layout {
	if err != nil {
		eng.Harness("layout: %v", err)
	}
	return lay
}

// bulk splits a range of work into cases.
func bulk(emit func(eng.Case), name string, n, size int, f func(t *eng.T, i int)) {
	for lo := 0; lo < n; lo += size {
		lo := lo
		emit(eng.Case{Name: fmt.Sprintf("%s/%d", name, lo), Run: func(t *eng.T) {
			for i := lo; i < n && i < lo+size && !t.Failed(); i++ {
				f(t, i)
			}
		}})
	}
}

// objects enumerates the edits of one encoded object.
func (c codec) objects(r *eng.Run, name string, raw []byte, all bool, emit func(eng.Case)) {
	emit(eng.Case{Name: name + "/plain", Run: func(t *eng.T) {
		t.State()
		c.valid(t, name, raw)
		t.Sample(c.name, fmt.Sprintf("%s: %x", name, raw[:min(len(raw), 60)]))
		for _, x := range [][]byte{{0}, {1}, {0xff}, {0, 0}, make([]byte, 64), raw, raw[4:]} {
			c.try(t, fmt.Sprintf("%s followed by %d bytes", name, len(x)), ref.Cat(raw, x))
		}
		edits(layout(ref.MessageLayout(raw)), raw, func(what string, b []byte) { c.try(t, name+": "+what, b) })
	}})
	bulk(emit, name+"/cut", len(raw), 512, func(t *eng.T, i int) {
		c.try(t, fmt.Sprintf("%s cut to %d bytes", name, i), raw[:i:i])
	})
	bulk(emit, name+"/byte", len(raw), 128, func(t *eng.T, i int) {
		b := append([]byte{}, raw...)
		for v := 0; v < 256; v++ {
			if byte(v) == raw[i] || !all && v > 8 && v%16 != 15 {
				continue
			}
			b[i] = byte(v)
			c.try(t, fmt.Sprintf("%s: byte %d set to %d", name, i, v), append([]byte{}, b...))
		}
		c.try(t, fmt.Sprintf("%s: byte %d missing", name, i), ref.Cat(raw[:i], raw[i+1:]))
		c.try(t, fmt.Sprintf("%s: byte %d repeated", name, i), ref.Cat(raw[:i], raw[i:i+1], raw[i:]))
		c.try(t, fmt.Sprintf("%s: zero before byte %d", name, i), ref.Cat(raw[:i], []byte{0}, raw[i:]))
	})
}

func c11(r *eng.Run) {
	r.All(func(emit func(eng.Case)) {
		c11Short(r, emit)
		c11Packages(r, emit)
		c11Produced(r, emit)
		shapesOf := []string{"three", "unmerged", "pair@odd"}
		if r.Thorough() {
			shapesOf = append(shapesOf, "pair", "five-holes", "eight", "refilled")
		}
		for _, s := range suites {
			for k, sh := range shapesOf {
				if s != 1 && k > 0 {
					continue
				}
				var w *eng.World
				setup(r, fmt.Sprintf("%s/%d", sh, s), func(t *eng.T) { w = recipeOf(sh).build(t, s, gid) })
				if w == nil {
					continue
				}
				label := fmt.Sprintf("%s/s%d", sh, s)
				c11Welcomes(r, w, label, s == 1 && k == 0, emit)
				c11Messages(r, w, label, s == 1 && k == 0 || r.Thorough(), emit)
			}
		}
	})
}

// c11Short gives all short inputs to all decoders.
func c11Short(r *eng.Run, emit func(eng.Case)) {
	var w *eng.World
	setup(r, "short", func(t *eng.T) { w = recipeOf("pair").build(t, 1, gid) })
	if w == nil {
		return
	}
	reject := func(t *eng.T, raw []byte) {
		packageCodec.try(t, "short input", raw)
		welcomeCodec.try(t, "short input", raw)
		i := w.Leaves()[0]
		t.Transition()
		if _, err := eng.Proc(w.R[i], raw); err == nil || eng.Panicked(err) {
			t.Fail("message %x: %v", raw, err)
		}
	}
	emit(eng.Case{Name: "short/0-1", Run: func(t *eng.T) {
		reject(t, nil)
		for a := 0; a < 256; a++ {
			reject(t, []byte{byte(a)})
		}
	}})
	bulk(emit, "short/2", 256, 16, func(t *eng.T, a int) {
		for b := 0; b < 256; b++ {
			reject(t, []byte{byte(a), byte(b)})
			// every protocol version and wire format, with the rest of a
			// valid message behind it
		}
	})
	for wf := 0; wf <= 6; wf++ {
		wf := wf
		bulk(emit, fmt.Sprintf("short/wf%d", wf), 256, 32, func(t *eng.T, a int) {
			reject(t, []byte{0, 1, 0, byte(wf)})
			reject(t, []byte{0, 1, 0, byte(wf), byte(a)})
			for b := 0; b < 256; b++ {
				reject(t, []byte{0, 1, 0, byte(wf), byte(a), byte(b)})
			}
		})
	}
	kp := ref.NewParty(nil, 1, "short/kp", ref.PartyOpts{}).KP.Msg()
	sc := newScene(w.M, 0, 1, true, "short", ref.CommitOpts{})
	wel := sc.raw(nil, ref.WelcomeOpts{})
	pub, _, _ := w.M.Propose(0, ref.Remove(1), ref.Frame{})
	app := w.M.App(0, []byte("hello"), ref.Frame{})
	bulk(emit, "header", 65536, 2048, func(t *eng.T, v int) {
		for k, msg := range [][]byte{kp, wel, pub, app} {
			for _, b := range [][]byte{ref.Cat(ref.U16(uint16(v)), msg[2:]), ref.Cat(msg[:2], ref.U16(uint16(v)), msg[4:])} {
				if bytes.Equal(b, msg) {
					continue
				}
				if k < 2 || v < 16 {
					packageCodec.try(t, "header", b)
					welcomeCodec.try(t, "header", b)
				}
				if k >= 2 {
					t.Transition()
					if _, err := eng.Proc(w.R[1], b); err == nil || eng.Panicked(err) {
						t.Fail("message with header %x: %v", b[:4], err)
						return
					}
				}
			}
		}
	})
}

// c11Packages covers key packages of every kind.
func c11Packages(r *eng.Run, emit func(eng.Case)) {
	type spec struct {
		name string
		o    ref.PartyOpts
		all  bool
	}
	long := func(n int) []byte { return bytes.Repeat([]byte{7}, n) }
	var specs []spec
	add := func(name string, all bool, o ref.PartyOpts) { specs = append(specs, spec{name, o, all}) }
	mut := func(f func(kp *ref.KeyPackage)) ref.PartyOpts { return ref.PartyOpts{Mut: f} }
	add("plain", true, ref.PartyOpts{})
	add("x509", true, ref.PartyOpts{Cred: ref.Cred{Type: ref.CredX509, Certs: [][]byte{{1, 2, 3}, {}, long(70)}}})
	add("x509-empty", true, ref.PartyOpts{Cred: ref.Cred{Type: ref.CredX509}})
	add("extensions", true, mut(func(kp *ref.KeyPackage) {
		kp.Exts = []ref.Ext{{Type: 0xff01, Data: []byte("abc")}, {Type: 1}, {Type: 0xff01, Data: long(64)}}
		kp.Leaf.Exts = []ref.Ext{{Type: 1, Data: []byte{0}}, {Type: 0xffff}}
	}))
	add("capabilities", true, mut(func(kp *ref.KeyPackage) {
		kp.Leaf.Caps = ref.Caps{Versions: []uint16{1, 0, 0xffff}, Suites: []uint16{0, 1, 9, 0xffff}, Exts: []uint16{0, 1, 0xff00}, Props: []uint16{0, 8}, Creds: []uint16{0, 1, 2, 3}}
	}))
	add("no-capabilities", true, mut(func(kp *ref.KeyPackage) { kp.Leaf.Caps = ref.Caps{} }))
	add("source-update", true, mut(func(kp *ref.KeyPackage) { kp.Leaf.Source = ref.SrcUpdate }))
	add("source-commit", true, mut(func(kp *ref.KeyPackage) { kp.Leaf.Source, kp.Leaf.ParentHash = ref.SrcCommit, long(32) }))
	add("source-commit-empty", true, mut(func(kp *ref.KeyPackage) { kp.Leaf.Source = ref.SrcCommit }))
	add("extreme-lifetime", true, mut(func(kp *ref.KeyPackage) { kp.Leaf.NotBefore, kp.Leaf.NotAfter = 1<<64-1, 0 }))
	for _, n := range []int{0, 1, 62, 63, 64, 65, 255, 256} {
		add(fmt.Sprintf("identity-%d", n), n < 65, ref.PartyOpts{Cred: ref.Cred{Type: ref.CredBasic, Identity: long(n)}})
		add(fmt.Sprintf("extension-%d", n), false, mut(func(kp *ref.KeyPackage) { kp.Exts = []ref.Ext{{Type: 0xff01, Data: long(n)}} }))
		add(fmt.Sprintf("keys-%d", n), false, mut(func(kp *ref.KeyPackage) { kp.InitKey, kp.Leaf.EncKey = long(n), long(n) }))
		add(fmt.Sprintf("signatures-%d", n), false, ref.PartyOpts{Post: func(kp *ref.KeyPackage) { kp.Signature = long(n) }, Leaf: func(l *ref.Leaf) { l.Signature = long(n) }})
	}
	for _, s := range suites {
		for _, sp := range specs {
			if s != 1 && !r.Thorough() && sp.name != "plain" && sp.name != "x509" {
				continue
			}
			raw := ref.NewParty(nil, s, "c11/"+sp.name, sp.o).KP.Msg()
			packageCodec.objects(r, fmt.Sprintf("package/%d/%s", s, sp.name), raw, sp.all || r.Thorough(), emit)
		}
	}
	// large ones: only the structural edits
	for _, n := range []int{16000, 16383, 16384, 20000, 70000, 1 << 20} {
		n := n
		emit(eng.Case{Name: fmt.Sprintf("package/large/%d", n), Run: func(t *eng.T) {
			for _, o := range []ref.PartyOpts{
				{Cred: ref.Cred{Type: ref.CredBasic, Identity: long(n)}},
				{Cred: ref.Cred{Type: ref.CredX509, Certs: [][]byte{long(n), long(3)}}},
				mut(func(kp *ref.KeyPackage) {
					kp.Exts = []ref.Ext{{Type: 0xff01, Data: long(n)}, {Type: 2}}
					kp.Leaf.Caps.Exts = make([]uint16, n/2)
				}),
			} {
				raw := ref.NewParty(nil, 1, "c11/large", o).KP.Msg()
				t.State()
				packageCodec.valid(t, fmt.Sprintf("large %d", n), raw)
				edits(layout(ref.MessageLayout(raw)), raw, func(what string, b []byte) { packageCodec.try(t, what, b) })
				for _, k := range []int{1, 2, 100, n / 2, n} {
					packageCodec.try(t, "cut", raw[:len(raw)-k])
				}
			}
		}})
	}
}

// c11Produced checks what the library itself encodes.
func c11Produced(r *eng.Run, emit func(eng.Case)) {
	sizes := []int{0, 1, 2, 16, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 70000}
	for _, s := range suites {
		for _, n := range sizes {
			s, n := s, n
			emit(eng.Case{Name: fmt.Sprintf("produced/s%d/%d", s, n), Run: func(t *eng.T) {
				t.State()
				blob := bytes.Repeat([]byte{9}, n)
				kpps := make([]*mls.KeyPairPackage, 3)
				for i := range kpps {
					kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s), mls.NewBasicCredential(append(blob, byte(i))[:n]))
					if err != nil {
						t.Fail("generate: %v", err)
						return
					}
					kpps[i] = kpp
					packageCodec.valid(t, "generated", kpp.Public.Bytes())
				}
				id := blob
				if n == 0 {
					id = []byte{}
				}
				a, err := mls.CreateGroup(mls.GroupID(id), kpps[0])
				if err != nil {
					t.Fail("create: %v", err)
					return
				}
				// the packages go through their encoding
				var kps []mls.KeyPackage
				for _, k := range kpps[1:] {
					kp, err := mls.UnmarshalKeyPackage(k.Public.Bytes())
					if err != nil {
						t.Fail("own package: %v", err)
						return
					}
					kps = append(kps, *kp)
				}
				wel, commit, err := eng.Invite(a, kps)
				if err != nil {
					t.Fail("invite: %v", err)
					return
				}
				welcomeCodec.valid(t, "created", wel.Bytes())
				if _, err := eng.Proc(a, commit); err != nil {
					t.Fail("own commit: %v", err)
					return
				}
				back, err := mls.UnmarshalWelcome(wel.Bytes())
				if err != nil {
					t.Fail("own Welcome: %v", err)
					return
				}
				b, err := join(back, kpps[1])
				if err != nil {
					t.Fail("join: %v", err)
					return
				}
				for _, m := range sizes {
					data := bytes.Repeat([]byte{3}, m)
					msg, err := eng.Send(a, data)
					if err != nil {
						t.Fail("send %d: %v", m, err)
						return
					}
					if _, err := ref.MessageLayout(msg); err != nil {
						t.Fail("message of %d bytes is malformed: %v", m, err)
					}
					got, err := eng.Proc(b, msg)
					if err != nil || !bytes.Equal(got, data) {
						t.Fail("message of %d bytes comes back as %d: %v", m, len(got), err)
						return
					}
					t.Trace()
				}
			}})
		}
	}
}

func c11Welcomes(r *eng.Run, w *eng.World, label string, all bool, emit func(eng.Case)) {
	by := w.M.Tree.Members()[0]
	for v := 0; v < 3; v++ {
		v := v
		name := fmt.Sprintf("welcome/%s/%d", label, v)
		sc := newScene(w.M, by, 1+v, v > 0, name, ref.CommitOpts{})
		raw := sc.raw(nil, ref.WelcomeOpts{})
		welcomeCodec.objects(r, name, raw, all && v == 0, emit)
		// inside the encryption
		emit(eng.Case{Name: name + "/info", Run: func(t *eng.T) {
			sc.honest(t, "plain", raw)
			var info []byte
			sc.raw(nil, ref.WelcomeOpts{RawInfo: func(b []byte) []byte { info = b; return b }})
			put := func(what string, b []byte) {
				sc.judge(t, "group info: "+what, sc.raw(nil, ref.WelcomeOpts{RawInfo: func([]byte) []byte { return b }}))
			}
			edits(layout(ref.InfoLayout(info)), info, put)
			put("trailing byte", append(append([]byte{}, info...), 0))
			put("trailing bytes", append(append([]byte{}, info...), 1, 2, 3))
			put("empty", nil)
		}})
		emit(eng.Case{Name: name + "/secrets", Run: func(t *eng.T) {
			var sec []byte
			last := len(sc.ps) - 1
			sc.raw(nil, ref.WelcomeOpts{RawSec: func(i int, b []byte) []byte {
				if i == last {
					sec = b
				}
				return b
			}})
			put := func(what string, x []byte) {
				sc.judge(t, "group secrets: "+what, sc.raw(nil, ref.WelcomeOpts{RawSec: func(i int, b []byte) []byte {
					if i == last {
						return x
					}
					return b
				}}))
			}
			edits(layout(ref.SecretsLayout(sec)), sec, put)
			put("trailing byte", append(append([]byte{}, sec...), 0))
			put("empty", nil)
			for i := range sec {
				for v := 0; v < 256; v++ {
					if v < 4 || v > 252 {
						b := append([]byte{}, sec...)
						b[i] = byte(v)
						put(fmt.Sprintf("byte %d set to %d", i, v), b)
					}
				}
			}
		}})
		emit(eng.Case{Name: name + "/tree", Run: func(t *eng.T) {
			enc := sc.next.Tree.Enc()
			put := func(what string, b []byte) {
				sc.judge(t, "tree: "+what, sc.raw(nil, ref.WelcomeOpts{TreeRaw: b}))
				if tr, err := ref.ParseTree(b); err == nil {
					sc.judge(t, "tree, announced: "+what, sc.raw(sc.next.Rebind(tr, nil), ref.WelcomeOpts{TreeRaw: b}))
				}
			}
			edits(layout(ref.TreeLayout(enc)), enc, put)
			put("trailing byte", append(append([]byte{}, enc...), 0))
			put("empty", nil)
		}})
		n := len(sc.next.Tree.Enc())
		if v != 1 && !r.Thorough() {
			n = 0
		}
		bulk(emit, name+"/treebyte", n, 64, func(t *eng.T, i int) {
			enc := sc.next.Tree.Enc()
			for _, v := range []byte{0, 1, 2, 3, 4, 5, 0x7f, 0xff} {
				b := append([]byte{}, enc...)
				b[i] = v
				if v != enc[i] {
					sc.judge(t, fmt.Sprintf("tree: byte %d set to %d", i, v), sc.raw(nil, ref.WelcomeOpts{TreeRaw: b}))
				}
			}
		})
	}
}

// c11Messages edits messages of every kind, before and after they are signed.
func c11Messages(r *eng.Run, w *eng.World, label string, all bool, emit func(eng.Case)) {
	g := w.M
	members := g.Tree.Members()
	from := members[1]
	sps := specimens(w, from, label)
	// proposals that are read although they cannot be committed
	for _, priv := range []bool{false, true} {
		for name, p := range map[string]*ref.Proposal{
			"psk":     ref.PSK(ref.PSKID{Type: 1, ID: []byte("id"), Nonce: make([]byte, g.Suite.Nh())}),
			"psk-res": ref.PSK(ref.PSKID{Type: 2, Usage: 1, GroupID: []byte("g"), Epoch: 3, Nonce: make([]byte, g.Suite.Nh())}),
			"gce":     ref.GCE(ref.Ext{Type: 0xff05, Data: []byte("x")}),
			"ext":     ref.ExternalInit([]byte("kem")),
			"reinit":  {Type: ref.PropReInit, Raw: ref.Cat(ref.Vec([]byte("gid")), ref.U16(1), ref.U16(1), ref.Vec(nil))},
		} {
			priv, p := priv, p
			sps = append(sps, specimen{name: fmt.Sprintf("proposal-%s-%v", name, priv), priv: priv, typ: ref.CTProposal, from: from, make: func(f ref.Frame) []byte {
				f.Private = priv
				msg, _, _ := g.Propose(from, p, f)
				return msg
			}})
		}
	}
	i := others(members, from)[0]
	each := func(name string, n, size int, f func(t *eng.T, i int)) {
		if all {
			bulk(emit, name, n, size, f)
		}
	}
	for _, sp := range sps {
		sp := sp
		name := fmt.Sprintf("message/%s/%s", label, sp.name)
		base := g
		offer := func(t *eng.T, what string, msg []byte) {
			if t.Failed() {
				return
			}
			t.Transition()
			_, rerr := base.Receive(msg)
			if rerr == nil {
				t.Count("left open")
				c := eng.Clone(w.R[i])
				for _, p := range sp.pre {
					eng.Proc(c, p)
				}
				if _, err := eng.Proc(c, msg); eng.Panicked(err) {
					t.Fail("%s: %s: %v", name, what, err)
				}
				return
			}
			refuses(t, w, i, attack{name + ": " + what, sp.pre, msg})
		}
		honest := sp.make(ref.Frame{})
		if _, err := base.Receive(honest); err != nil {
			eng.Harness("%s: %v", name, err)
		}
		emit(eng.Case{Name: name + "/wire", Run: func(t *eng.T) {
			t.State()
			edits(layout(ref.MessageLayout(honest)), honest, func(what string, b []byte) { offer(t, what, b) })
			for _, x := range [][]byte{{0}, {1}, {0, 0}, honest} {
				offer(t, fmt.Sprintf("followed by %d bytes", len(x)), ref.Cat(honest, x))
			}
		}})
		bulk(emit, name+"/cut", len(honest), 512, func(t *eng.T, k int) { offer(t, fmt.Sprintf("cut to %d", k), honest[:k:k]) })
		if !sp.priv {
			each(name+"/byte", len(honest), 64, func(t *eng.T, k int) {
				for v := 0; v < 256; v++ {
					if byte(v) != honest[k] && (v < 8 || v > 253 || v == 0x40 || v == 0x80) {
						b := append([]byte{}, honest...)
						b[k] = byte(v)
						offer(t, fmt.Sprintf("byte %d set to %d", k, v), b)
					}
				}
			})
		} else {
			var pt []byte
			sp.make(ref.Frame{PlainMut: func(b []byte) []byte { pt = b; return b }})
			put := func(t *eng.T, what string, b []byte) {
				offer(t, "content: "+what, sp.make(ref.Frame{PlainMut: func([]byte) []byte { return b }}))
			}
			emit(eng.Case{Name: name + "/content", Run: func(t *eng.T) {
				edits(layout(ref.PlainLayout(pt, sp.typ)), pt, func(what string, b []byte) { put(t, what, b) })
				for _, v := range []byte{1, 0x80, 0xff} {
					put(t, "padding", append(append([]byte{}, pt...), v))
					put(t, "padding", append(append([]byte{}, pt...), 0, v))
					put(t, "padding", append(append([]byte{}, pt...), v, 0))
				}
				for _, sd := range [][]byte{nil, make([]byte, 11), make([]byte, 13)} {
					if sd == nil {
						sd = []byte{}
					}
					offer(t, fmt.Sprintf("%d bytes of sender data", len(sd)), sp.make(ref.Frame{SDRaw: sd}))
				}
			}})
			bulk(emit, name+"/contentcut", len(pt), 128, func(t *eng.T, k int) { put(t, fmt.Sprintf("cut to %d", k), pt[:k]) })
			each(name+"/contentbyte", len(pt), 64, func(t *eng.T, k int) {
				for v := 0; v < 256; v++ {
					if byte(v) != pt[k] && (v < 5 || v > 253) {
						b := append([]byte{}, pt...)
						b[k] = byte(v)
						put(t, fmt.Sprintf("byte %d set to %d", k, v), b)
					}
				}
			})
		}
		// the sender signs what it sends
		var body []byte
		sp.make(ref.Frame{Content: func(c *ref.Content) { body = c.Body }})
		signed := func(t *eng.T, what string, b []byte) {
			offer(t, "signed content: "+what, sp.make(ref.Frame{Content: func(c *ref.Content) { c.Body = b }}))
		}
		emit(eng.Case{Name: name + "/signed", Run: func(t *eng.T) {
			lay := layout(ref.LayoutOf(body, func(r *ref.R) { ref.DecBody(r, sp.typ) }))
			edits(lay, body, func(what string, b []byte) { signed(t, what, b) })
			for _, v := range []uint8{0, 2, 3, 4, 5, 255} {
				offer(t, fmt.Sprintf("sender type %d", v), sp.make(ref.Frame{Content: func(c *ref.Content) { c.SenderType = v }}))
			}
			for v := 0; v < 256; v++ {
				if uint8(v) != sp.typ {
					offer(t, fmt.Sprintf("content type %d", v), sp.make(ref.Frame{Content: func(c *ref.Content) { c.Type = uint8(v) }}))
				}
			}
		}})
		each(name+"/signedbyte", len(body), 32, func(t *eng.T, k int) {
			for v := 0; v < 256; v++ {
				if byte(v) != body[k] && (v < 5 || v > 253) {
					b := append([]byte{}, body...)
					b[k] = byte(v)
					signed(t, fmt.Sprintf("byte %d set to %d", k, v), b)
				}
			}
		})
	}
}

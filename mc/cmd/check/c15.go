package main

import (
	"bytes"
	"fmt"
	"testing/cryptotest"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C15"] = check{"model_checking", eng.Meta{
		Rule: "a state is a key package generated from a position of a fixed random stream; it is judged field by field by the reference implementation; transitions are the uses made of it: its reference, groups created from it, invitations of it, commits adding it, each followed by messages in both directions with the reference implementation holding the private keys",
		Assumptions: []string{
			"randomness comes from a fixed stream per cipher suite, so that the packages are the same in every run as long as the library draws in the same way; identities, cipher suites and uses are enumerated, positions of the stream are covered up to the bound",
		},
	}, c15}
}

// fresh generates a key package and judges it.
func fresh(t *eng.T, s ref.Suite, identity []byte, seen map[string]string, what string) (*mls.KeyPairPackage, *ref.Party) {
	var kpp *mls.KeyPairPackage
	before := time.Now().Unix()
	err := eng.Guarded(func() (err error) {
		kpp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(s), mls.NewBasicCredential(append([]byte{}, identity...)))
		return err
	})
	after := time.Now().Unix()
	if err != nil {
		t.Fail("%s: cannot be generated: %v", what, err)
		return nil, nil
	}
	t.State()
	raw := kpp.Public.Bytes()
	t.Case(raw)
	kp, err := ref.ParseKeyPackage(raw)
	if err != nil {
		t.Fail("%s: malformed: %v", what, err)
		return nil, nil
	}
	l := kp.Leaf
	p := &ref.Party{KP: kp, Priv: ref.Priv{Init: kpp.Private.InitKey, Enc: kpp.Private.EncryptionKey, Sig: kpp.Private.SignatureKey}}
	bad := func(format string, a ...interface{}) { t.Fail(what+": "+format, a...) }
	if kp.Version != 1 || kp.Suite != s {
		bad("version %d, cipher suite %d", kp.Version, kp.Suite)
		return nil, nil
	}
	if !kp.VerifySig() {
		bad("signature is wrong")
	}
	if !l.VerifySig(s, nil, 0) {
		bad("signature of the leaf is wrong")
	}
	if l.Source != ref.SrcKeyPackage {
		bad("leaf source %d", l.Source)
	}
	if l.Cred.Type != ref.CredBasic || !bytes.Equal(l.Cred.Identity, identity) {
		bad("credential differs from the one given")
	}
	// valid now, for a while, and not longer than receivers permit
	if l.NotBefore > uint64(after) || l.NotAfter < uint64(before)+3600 || l.NotAfter-l.NotBefore > 90*86400 {
		bad("lifetime from %d to %d at %d", l.NotBefore, l.NotAfter, before)
	}
	has := func(list []uint16, v uint16) bool {
		for _, x := range list {
			if x == v {
				return true
			}
		}
		return false
	}
	if !has(l.Caps.Versions, 1) || !has(l.Caps.Suites, uint16(s)) || !has(l.Caps.Creds, ref.CredBasic) {
		bad("capabilities do not cover what is used: %+v", l.Caps)
	}
	for _, e := range l.Exts {
		if e.Type > 5 && !has(l.Caps.Exts, e.Type) {
			bad("extension %d is not among the capabilities", e.Type)
		}
	}
	for _, k := range []struct {
		name       string
		pub, priv  []byte
		fromSecret func([]byte) ([]byte, error)
	}{
		{"init", kp.InitKey, p.Priv.Init, s.PubOf},
		{"encryption", l.EncKey, p.Priv.Enc, s.PubOf},
		{"signature", l.SigKey, p.Priv.Sig, s.SigPubOf},
	} {
		pub, err := k.fromSecret(k.priv)
		if err != nil || !bytes.Equal(pub, k.pub) {
			bad("private %s key does not match: %v", k.name, err)
		}
		if len(k.priv) > 0 && k.priv[0] == 0 || len(k.pub) > 1 && (k.pub[0] == 0 || k.pub[0] == 4 && k.pub[1] == 0) {
			t.Count("keys with a leading zero byte")
			seen["zero"] = what
		}
		if other, ok := seen[string(k.pub)]; ok {
			bad("%s key is also the key of %s", k.name, other)
		}
		seen[string(k.pub)] = what + " " + k.name
	}
	var r mls.KeyPackageRef
	if err := eng.Guarded(func() (err error) { r, err = kpp.Public.GenerateRef(); return err }); err != nil {
		bad("no reference: %v", err)
	} else if !bytes.Equal(r, kp.Ref()) {
		bad("reference %x, want %x", []byte(r), kp.Ref())
	} else if other, ok := seen["ref"+string(r)]; ok {
		bad("reference of %s", other)
	} else {
		seen["ref"+string(r)] = what
	}
	t.Transition()
	// the same after decoding
	back, err := mls.UnmarshalKeyPackage(raw)
	if err != nil {
		bad("cannot be decoded: %v", err)
		return nil, nil
	}
	if !bytes.Equal(back.Bytes(), raw) {
		bad("changes when decoded")
	}
	if q, err := back.GenerateRef(); err != nil || !q.Equal(r) || !r.Equal(q) {
		bad("reference changes when decoded: %v", err)
	}
	if t.Failed() {
		return nil, nil
	}
	return kpp, p
}

// founds lets a generated package found a group, which a model member joins.
func founds(t *eng.T, s ref.Suite, kpp *mls.KeyPairPackage, p *ref.Party, what string) {
	g, err := mls.CreateGroup(mls.GroupID(append([]byte{}, gid...)), kpp)
	if err != nil {
		t.Fail("%s: cannot found a group: %v", what, err)
		return
	}
	q := ref.NewParty(nil, s, "c15/guest", ref.PartyOpts{})
	wel, commit, err := eng.InviteRaw(g, q.KP.Msg())
	if err != nil {
		t.Fail("%s: cannot invite: %v", what, err)
		return
	}
	if _, err := eng.Proc(g, commit); err != nil {
		t.Fail("%s: refuses its own commit: %v", what, err)
		return
	}
	w, err := ref.ParseWelcome(wel)
	if err != nil {
		t.Fail("%s: Welcome: %v", what, err)
		return
	}
	ring := ref.NewRing()
	ring.PutEnc(p.KP.Leaf.EncKey, p.Priv.Enc)
	ring.PutSig(p.KP.Leaf.SigKey, p.Priv.Sig)
	ring.PutSig(q.KP.Leaf.SigKey, q.Priv.Sig)
	j, err := ref.Join(ring, w, q, nil)
	if err != nil {
		t.Fail("%s: a conforming member cannot join: %v", what, err)
		return
	}
	t.Transition()
	reads(t, j.Group, 0, g, what)
	// both private keys are put to use
	res, err := j.Group.Commit(ref.CommitOpts{Sender: 1, Path: true, Rng: ref.NewRng("c15", what)})
	if err != nil {
		eng.Harness("%v", err)
	}
	if _, err := eng.Proc(g, res.Msg); err != nil {
		t.Fail("%s: cannot follow an update path: %v", what, err)
		return
	}
	reads(t, res.Next, 0, g, what)
}

// joins lets a generated package be added to model groups.
func joins(t *eng.T, w *eng.World, kpp *mls.KeyPairPackage, p *ref.Party, what string) {
	for _, path := range []bool{false, true} {
		g := w.M.Copy()
		g.Ring = ref.NewRing()
		for _, m := range w.M.Tree.Members() {
			l := w.M.Tree.Leaves[m]
			g.Ring.PutEnc(l.EncKey, w.M.Ring.Enc(l.EncKey))
			g.Ring.PutSig(l.SigKey, w.M.Ring.Sig(l.SigKey))
		}
		g.Ring.PutSig(p.KP.Leaf.SigKey, p.Priv.Sig)
		res, err := g.Commit(ref.CommitOpts{Sender: 0, List: inline(ref.Add(p.KP)), Path: path, Rng: ref.NewRng("c15j", what)})
		if err != nil {
			t.Fail("%s: cannot be added: %v", what, err)
			return
		}
		o := ref.WelcomeOpts{Signer: 0, Parties: []*ref.KeyPackage{p.KP}, Rng: ref.NewRng("c15w", what)}
		if path {
			o.Path = res.Secrets
		}
		wel, err := res.Next.Welcome(o)
		if err != nil {
			t.Fail("%s: cannot be welcomed: %v", what, err)
			return
		}
		lw, err := mls.UnmarshalWelcome(wel.Msg())
		if err != nil {
			t.Fail("%s: Welcome: %v", what, err)
			return
		}
		c, err := join(lw, kpp)
		if err != nil {
			t.Fail("%s: cannot join: %v", what, err)
			return
		}
		t.Transition()
		if !reads(t, res.Next, res.Joined[0], c, what) {
			return
		}
		follows(t, res.Next, res.Joined[0], c, what)
		// another library member takes the commit
		if m := accepts(t, w, 1, attack{what + " added", nil, res.Msg}); m != nil {
			reads(t, res.Next, 1, m, what)
		}
	}
}

func c15(r *eng.Run) {
	lengths := []int{0, 1, 2, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 65535, 65536, 100000}
	n := r.Pick(1500, 12000)
	for _, s := range suites {
		s := s
		var w *eng.World
		setup(r, fmt.Sprintf("three/%d", s), func(t *eng.T) { w = recipeOf("three").build(t, s, gid) })
		if w == nil {
			continue
		}
		r.Do(eng.Case{Name: fmt.Sprintf("identities/%d", s), Run: func(t *eng.T) {
			cryptotest.SetGlobalRandom(tt, uint64(s))
			seen := map[string]string{}
			for k, n := range lengths {
				for v := 0; v < 2; v++ {
					id := bytes.Repeat([]byte{byte(v * 0xff)}, n)
					what := fmt.Sprintf("cipher suite %d, identity of %d bytes (%d)", s, n, v)
					kpp, p := fresh(t, s, id, seen, what)
					if kpp == nil {
						return
					}
					founds(t, s, kpp, p, what)
					joins(t, w, kpp, p, what)
					t.Sample("package", what)
					// one credential for many packages
					if k == 3 {
						c := mls.NewBasicCredential(id)
						a, err1 := mls.GenerateKeyPairPackage(mls.CipherSuite(s), c)
						b, err2 := mls.GenerateKeyPairPackage(mls.CipherSuite(s), c)
						if err1 != nil || err2 != nil {
							t.Fail("%s: %v %v", what, err1, err2)
							return
						}
						for x, kpp := range []*mls.KeyPairPackage{a, b} {
							p, err := eng.Party(kpp)
							if err != nil {
								t.Fail("%s: %v", what, err)
								return
							}
							founds(t, s, kpp, p, fmt.Sprintf("%s, same credential %d", what, x))
						}
						if bytes.Equal(a.Public.Bytes(), b.Public.Bytes()) {
							t.Fail("%s: the same package twice", what)
						}
					}
				}
			}
		}})
		r.Do(eng.Case{Name: fmt.Sprintf("stream/%d", s), Run: func(t *eng.T) {
			cryptotest.SetGlobalRandom(tt, 1000+uint64(s))
			seen := map[string]string{}
			for k := 0; k < n && (s != 7 || k < n/3) && !t.Failed() && !r.Done(); k++ {
				what := fmt.Sprintf("cipher suite %d, package %d", s, k)
				kpp, p := fresh(t, s, []byte(fmt.Sprintf("member %d", k)), seen, what)
				if kpp == nil {
					return
				}
				// keys that may be encoded wrongly are always put to use
				if k%16 == 0 || seen["zero"] == what {
					founds(t, s, kpp, p, what)
					joins(t, w, kpp, p, what)
				}
			}
		}})
	}
	// other cipher suites: nothing, or something valid
	r.Do(eng.Case{Name: "suites", Run: func(t *eng.T) {
		supported := map[int]bool{}
		for _, s := range suites {
			supported[int(s)] = true
			if !mls.CipherSuite(s).Supported() {
				t.Fail("cipher suite %d is not supported", s)
			}
		}
		for v := 0; v < 65536; v++ {
			if supported[v] {
				continue
			}
			t.Transition()
			var kpp *mls.KeyPairPackage
			err := eng.Guarded(func() (err error) {
				kpp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(v), mls.NewBasicCredential([]byte("x")))
				return err
			})
			if eng.Panicked(err) {
				t.Fail("cipher suite %d: %v", v, err)
			} else if err == nil && (v > 7 || v == 0) {
				t.Fail("cipher suite %d is not defined, but there is a package: %v", v, kpp != nil)
			}
			if t.Failed() {
				return
			}
		}
	}})
}

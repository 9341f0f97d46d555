package main

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C22"] = check{"model_checking", eng.Meta{
		Rule: "a state is reached by a sequence of operations on groups held by one party, some formed from the same key pair or the same Welcome, executed from scratch and never copied; every buffer given is checked, then overwritten, and every buffer received is overwritten; after the last operation each group is compared with its own reference model",
		Assumptions: []string{
			"the private keys a group goes on using (encryption and signature key) are left alone by the caller; everything else handed over is overwritten",
		},
	}, c22}
}

// desk hands out buffers and destroys them afterwards.
type desk struct{ t *eng.T }

var guardBytes = []byte("guardguardguardg")

// give calls f with a copy of b that is destroyed afterwards.
func (d desk) give(what string, b []byte, f func(b []byte)) {
	buf := append(append(make([]byte, 0, len(b)+len(guardBytes)), b...), guardBytes...)
	f(buf[:len(b)])
	if !bytes.Equal(buf[:len(b)], b) {
		d.t.Fail("%s: the caller's bytes are modified", what)
	}
	if !bytes.Equal(buf[len(b):], guardBytes) {
		d.t.Fail("%s: bytes behind the caller's are modified", what)
	}
	spoil(buf)
}

func spoil(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

// took copies a result and destroys the original.
func took(b []byte) []byte {
	c := append([]byte{}, b...)
	spoil(b)
	_ = append(b, guardBytes...)
	return c
}

func (d desk) proc(g *mls.Group, what string, msg []byte) (data []byte, err error) {
	d.give(what, msg, func(b []byte) { data, err = eng.Proc(g, b) })
	if eng.Panicked(err) {
		d.t.Fail("%s: %v", what, err)
	}
	if data != nil {
		data = took(data)
	}
	return data, err
}

func (d desk) pkg(p *ref.Party) (kp *mls.KeyPackage) {
	d.give("key package", p.KP.Msg(), func(b []byte) {
		var err error
		if kp, err = mls.UnmarshalKeyPackage(b); err != nil {
			eng.Harness("%v", err)
		}
	})
	return kp
}

// seat is a library group with its model.
type seat struct {
	name string
	g    *mls.Group
	m    *ref.Group
	me   int
	peer int
	n    int
	pend *ref.Pending
}

// table is everything one party holds.
type table struct {
	d     desk
	s     ref.Suite
	seats []*seat
	n     int
}

func newTable(t *eng.T, s ref.Suite) *table {
	tb := &table{d: desk{t}, s: s}
	a := ref.NewParty(nil, s, "c22/a", ref.PartyOpts{})
	kpp := &mls.KeyPairPackage{Public: *tb.d.pkg(a), Private: mls.PrivateKeyPackage{InitKey: append([]byte{}, a.Priv.Init...), EncryptionKey: a.Priv.Enc, SignatureKey: a.Priv.Sig}}
	other, err := eng.KeyPair(ref.NewParty(nil, s, "c22/other", ref.PartyOpts{}))
	if err != nil {
		t.Fail("key package: %v", err)
		return nil
	}
	ring := func(ps ...*ref.Party) *ref.Ring {
		r := ref.NewRing()
		for _, p := range ps {
			r.PutEnc(p.KP.Leaf.EncKey, p.Priv.Enc)
			r.PutSig(p.KP.Leaf.SigKey, p.Priv.Sig)
		}
		return r
	}
	// two groups founded with the same keys
	for k, id := range []string{"first", "second"} {
		var g *mls.Group
		var err error
		tb.d.give("group identifier", []byte(id), func(b []byte) { g, err = mls.CreateGroup(mls.GroupID(b), kpp) })
		if err != nil {
			t.Fail("create: %v", err)
			return nil
		}
		st := &seat{name: id, g: g}
		b := ref.NewParty(nil, s, fmt.Sprintf("c22/b%d", k), ref.PartyOpts{})
		wel, commit := tb.invite(st, b)
		if wel == nil {
			return nil
		}
		if _, err := tb.d.proc(g, "own commit", commit); err != nil {
			t.Fail("own commit: %v", err)
			return nil
		}
		w, err := ref.ParseWelcome(wel)
		if err != nil {
			t.Fail("Welcome: %v", err)
			return nil
		}
		j, err := ref.Join(ring(a, b), w, b, nil)
		if err != nil {
			t.Fail("Welcome: %v", err)
			return nil
		}
		st.m, st.me, st.peer = j.Group, 0, 1
		tb.seats = append(tb.seats, st)
	}
	// a group joined twice from the same Welcome
	c, e := ref.NewParty(nil, s, "c22/c", ref.PartyOpts{}), ref.NewParty(nil, s, "c22/e", ref.PartyOpts{})
	m := ref.CreateGroup(ring(a, c, e), s, []byte("third"), c, ref.NewRng("c22"))
	res, err := m.Commit(ref.CommitOpts{Sender: 0, List: inline(ref.Add(e.KP), ref.Add(a.KP)), Path: true, Rng: ref.NewRng("c22")})
	if err != nil {
		eng.Harness("%v", err)
	}
	rw, err := res.Next.Welcome(ref.WelcomeOpts{Signer: 0, Parties: []*ref.KeyPackage{e.KP, a.KP}, Path: res.Secrets, Rng: ref.NewRng("c22w")})
	if err != nil {
		eng.Harness("%v", err)
	}
	var lw *mls.Welcome
	tb.d.give("Welcome", rw.Msg(), func(b []byte) { lw, err = mls.UnmarshalWelcome(b) })
	if err != nil {
		t.Fail("Welcome: %v", err)
		return nil
	}
	for _, name := range []string{"third", "third again"} {
		g, err := join(lw, kpp)
		if err != nil {
			t.Fail("join: %v", err)
			return nil
		}
		tb.seats = append(tb.seats, &seat{name: name, g: g, m: res.Next, me: 2, peer: 0})
	}
	for _, ref := range lw.NewMembers() {
		spoil(ref)
	}
	if ref, err := kpp.Public.GenerateRef(); err == nil {
		spoil(ref)
	}
	if got := took(lw.Bytes()); !bytes.Equal(got, rw.Msg()) || !bytes.Equal(lw.Bytes(), rw.Msg()) {
		t.Fail("the Welcome has changed")
	}
	if got := took(kpp.Public.Bytes()); !bytes.Equal(got, a.KP.Msg()) || !bytes.Equal(kpp.Public.Bytes(), a.KP.Msg()) {
		t.Fail("the key package has changed")
	}
	// all groups are formed: the package has served its purpose
	spoil(kpp.Private.InitKey)
	*kpp, *lw = *other, mls.Welcome{}
	return tb
}

// invite creates an invitation, keeping copies of what is returned.
func (tb *table) invite(st *seat, ps ...*ref.Party) (wel, commit []byte) {
	var list []mls.KeyPackage
	for _, p := range ps {
		list = append(list, *tb.d.pkg(p))
	}
	w, c, err := eng.Invite(st.g, list)
	if err != nil {
		tb.d.t.Fail("%s: invite: %v", st.name, err)
		return nil, nil
	}
	for _, ref := range w.NewMembers() {
		spoil(ref)
	}
	wel, commit = took(w.Bytes()), took(c)
	for i := range list {
		if !bytes.Equal(took(list[i].Bytes()), ps[i].KP.Msg()) || !bytes.Equal(list[i].Bytes(), ps[i].KP.Msg()) {
			tb.d.t.Fail("%s: a key package has changed", st.name)
		}
		list[i] = mls.KeyPackage{}
	}
	return wel, commit
}

var tableOps = []string{"send", "receive", "prepare", "invite", "follow", "proposal", "commit", "garbage"}

// do performs an operation on one group; failures go to t.
func (tb *table) do(st *seat, op string) {
	t := tb.d.t
	tb.n++
	st.n++
	what := fmt.Sprintf("%s: %s", st.name, op)
	bad := func(format string, a ...interface{}) { t.Fail(what+": "+format, a...) }
	follow := func(res *ref.CommitResult, err error) {
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		if _, err := tb.d.proc(st.g, what, res.Msg); err != nil {
			bad("valid commit refused: %v", err)
			return
		}
		st.m, st.pend = res.Next, nil
	}
	rng := ref.NewRng("table", st.name, st.n)
	switch op {
	case "send":
		data := []byte(fmt.Sprintf("sent %d", tb.n))
		var msg []byte
		var err error
		tb.d.give(what, data, func(b []byte) { msg, err = eng.Send(st.g, b) })
		if err != nil {
			bad("%v", err)
			return
		}
		if rv, err := st.m.Receive(took(msg)); err != nil || rv.Sender != st.me || !bytes.Equal(rv.App, data) {
			bad("unreadable: %v", err)
		}
	case "receive":
		data := fmt.Sprintf("received %d", tb.n)
		got, err := tb.d.proc(st.g, what, st.m.App(st.peer, []byte(data), ref.Frame{Gen: uint32(st.n), Pad: tb.n}))
		if err != nil || string(got) != data {
			bad("%q: %v", got, err)
		}
	case "prepare", "invite":
		p := ref.NewParty(st.m.Ring, tb.s, fmt.Sprintf("guest %s %d", st.name, st.n), ref.PartyOpts{})
		wel, commit := tb.invite(st, p)
		if wel == nil || op == "prepare" {
			return
		}
		if _, err := tb.d.proc(st.g, what, commit); err != nil {
			bad("own commit refused: %v", err)
			return
		}
		next, _, err := st.m.Process(commit)
		if err != nil {
			bad("commit refused by others: %v", err)
			return
		}
		w, err := ref.ParseWelcome(wel)
		if err == nil {
			_, err = ref.Join(ref.NewRing(), w, p, nil)
		}
		if err != nil {
			bad("guest cannot join: %v", err)
		}
		st.m, st.pend = next, nil
	case "follow":
		res, err := st.m.Commit(ref.CommitOpts{Sender: st.peer, Path: true, Rng: rng, Frame: ref.Frame{Private: tb.n%2 == 0, Gen: uint32(st.n)}})
		follow(res, err)
	case "proposal":
		if st.pend != nil {
			return
		}
		p := ref.NewParty(st.m.Ring, tb.s, fmt.Sprintf("proposed %s %d", st.name, st.n), ref.PartyOpts{})
		msg, pend, ng := st.m.Propose(st.peer, ref.Add(p.KP), ref.Frame{Private: tb.n%2 == 1, Gen: 50 + uint32(st.n)})
		if _, err := tb.d.proc(st.g, what, msg); err != nil {
			bad("%v", err)
			return
		}
		st.m, st.pend = ng, pend
	case "commit":
		var list []ref.PropOrRef
		if st.pend != nil {
			list = append(list, ref.PropOrRef{Ref: st.pend.Ref})
		}
		res, err := st.m.Commit(ref.CommitOpts{Sender: st.peer, List: list, Path: true, Rng: rng})
		follow(res, err)
	case "garbage":
		res, err := st.m.Commit(ref.CommitOpts{Sender: st.peer, Path: true, Rng: rng, ConfTag: func(b []byte) []byte { return flipByte(b, 0) }})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		if _, err := tb.d.proc(st.g, what, res.Msg); err == nil {
			bad("commit with a wrong tag accepted")
		}
	}
}

// settle compares every group with its model.
func (tb *table) settle() {
	for _, st := range tb.seats {
		if tb.d.t.Failed() {
			return
		}
		tb.d.t.Trace()
		for _, op := range []string{"send", "receive", "invite", "follow", "receive"} {
			tb.do(st, op)
		}
	}
}

func c22(r *eng.Run) {
	type act struct {
		seat int
		op   string
	}
	run := func(t *eng.T, s ref.Suite, seq []act) {
		tb := newTable(t, s)
		if tb == nil {
			return
		}
		for _, a := range seq {
			t.Transition()
			tb.do(tb.seats[a.seat], a.op)
			if t.Failed() {
				return
			}
		}
		t.State()
		tb.settle()
	}
	alphabet := func(ops ...string) (alpha []act) {
		for k := 0; k < 4; k++ {
			for _, op := range ops {
				alpha = append(alpha, act{k, op})
			}
		}
		return alpha
	}
	// sequences over all groups; only the order of operations matters, and
	// the two joined groups and the two founded ones are alike, so that the
	// first operation is on the first of its kind
	var gen func(seq, alpha []act, depth int, f func(seq []act))
	gen = func(seq, alpha []act, depth int, f func(seq []act)) {
		f(seq)
		if depth == 0 {
			return
		}
		for _, a := range alpha {
			if a.seat == 1 || a.seat == 3 {
				ok := false
				for _, b := range seq {
					ok = ok || b.seat == a.seat-1
				}
				if !ok {
					continue
				}
			}
			gen(append(append([]act{}, seq...), a), alpha, depth-1, f)
		}
	}
	// a package keeps its identity
	for _, s := range suites {
		s := s
		r.Do(eng.Case{Name: fmt.Sprintf("identity/s%d", s), Run: func(t *eng.T) {
			t.State()
			d := desk{t}
			var kpp *mls.KeyPairPackage
			var err error
			d.give("identity", []byte("somebody"), func(b []byte) {
				cred := mls.NewBasicCredential(b)
				if kpp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(s), cred); err == nil {
					spoil(b)
					*cred = *mls.NewBasicCredential([]byte("nobody"))
					spoil(b)
				}
			})
			if err != nil {
				t.Fail("%v", err)
				return
			}
			t.Transition()
			t.Trace()
			kp, err := ref.ParseKeyPackage(kpp.Public.Bytes())
			if err != nil || !kp.VerifySig() || string(kp.Leaf.Cred.Identity) != "somebody" {
				t.Fail("the key package has changed with the caller's buffer: %v", err)
			}
		}})
	}
	r.All(func(emit func(eng.Case)) {
		all := func(s ref.Suite, depth int, alpha []act) {
			gen(nil, alpha, depth, func(seq []act) {
				if len(seq) < depth {
					return // a prefix of others
				}
				emit(eng.Case{Name: fmt.Sprintf("s%d/%v", s, seq), Run: func(t *eng.T) {
					run(t, s, seq)
					t.Sample("sequence", fmt.Sprintf("cipher suite %d: %v", s, seq))
				}})
			})
		}
		full := alphabet(tableOps...)
		for _, s := range suites {
			depth := 2
			if s == 1 || s == 3 && r.Thorough() {
				depth = 3
			}
			all(s, depth, full)
		}
		if r.Thorough() {
			all(1, 4, alphabet("send", "invite", "follow", "garbage"))
		}
	})
}

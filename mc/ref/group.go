package ref

import (
	"crypto/hmac"
	"errors"
	"fmt"
	"time"
)

// Now is the reference time for default lifetimes.
var Now = time.Now

// Priv holds the private keys of a key package.
type Priv struct{ Init, Enc, Sig []byte }

// Party is a key package with its private keys.
type Party struct {
	KP   *KeyPackage
	Priv Priv
}

// PartyOpts customises a generated key package.
type PartyOpts struct {
	Cred Cred
	Mut  func(kp *KeyPackage) // before signing anything
	Leaf func(l *Leaf)        // after the leaf has been signed
	Post func(kp *KeyPackage) // after everything has been signed
}

func DefaultCaps(s Suite) Caps {
	return Caps{Versions: []uint16{1}, Suites: []uint16{uint16(s)}, Creds: []uint16{CredBasic}}
}

// NewParty generates a key package deterministically.
func NewParty(ring *Ring, s Suite, name string, o PartyOpts) *Party {
	rng := NewRng("party", s, "/", name)
	ip, is := s.KeyPair(rng.Bytes(s.info().kem.Scheme().SeedSize()))
	ep, es := s.KeyPair(rng.Bytes(s.info().kem.Scheme().SeedSize()))
	sp, ss := s.SigPair(rng.Bytes(32))
	if ring != nil {
		ring.PutEnc(ip, is)
		ring.PutEnc(ep, es)
		ring.PutSig(sp, ss)
	}
	now := Now().Unix()
	l := &Leaf{
		EncKey: ep, SigKey: sp, Cred: o.Cred, Caps: DefaultCaps(s), Source: SrcKeyPackage,
		NotBefore: uint64(now - 86400), NotAfter: uint64(now + 60*86400),
	}
	if l.Cred.Type == 0 {
		l.Cred = Basic(name)
	}
	kp := &KeyPackage{Version: 1, Suite: s, InitKey: ip, Leaf: l}
	if o.Mut != nil {
		o.Mut(kp)
	}
	kp.Leaf.Sign(s, ss, nil, 0)
	if o.Leaf != nil {
		o.Leaf(kp.Leaf)
	}
	kp.SignAs(s, ss)
	if o.Post != nil {
		o.Post(kp)
	}
	return &Party{kp, Priv{is, es, ss}}
}

// Pending is a proposal received but not yet committed.
type Pending struct {
	Ref    []byte
	Prop   *Proposal
	Sender int
}

// Group is one epoch of a group as seen by an omniscient observer. Values are
// immutable: every operation returns a new Group.
type Group struct {
	Suite   Suite
	Ctx     Ctx
	Tree    *Tree
	Interim []byte
	Init    []byte
	Joiner  []byte
	PSK     []byte
	Epoch   []byte // epoch secret
	ConfTag []byte
	Ring    *Ring
	Pending []Pending
}

func (g *Group) zero() []byte { return make([]byte, g.Suite.Nh()) }

// CreateGroup starts a group with one member.
func CreateGroup(ring *Ring, s Suite, groupID []byte, p *Party, rng *Rng) *Group {
	g := &Group{Suite: s, Tree: NewTree(p.KP.Leaf), Ring: ring}
	g.Ctx = Ctx{Version: 1, Suite: s, GroupID: groupID, TreeHash: g.Tree.RootHash(s), CTH: nil}
	g.Ctx.CTH = g.zero()
	g.PSK = g.zero()
	g.Epoch = rng.Bytes(s.Nh())
	g.Init = s.Derive(g.Epoch, "init")
	g.ConfTag = s.MAC(s.Derive(g.Epoch, "confirm"), g.Ctx.CTH)
	g.Interim = s.Hash(g.Ctx.CTH, Vec(g.ConfTag))
	return g
}

func (g *Group) copy() *Group {
	c := *g
	c.Pending = append([]Pending{}, g.Pending...)
	return &c
}

// Copy returns an independent copy whose fields may be altered.
func (g *Group) Copy() *Group { return g.copy() }

func (g *Group) SigPriv(leaf int) []byte { return g.Ring.Sig(g.Tree.Leaves[leaf].SigKey) }

// Frame controls how a message is protected. The zero value is an honest
// public message; hooks let an adversary deviate at each step while everything
// computed later stays consistent.
type Frame struct {
	Private   bool
	AAD       []byte
	Gen       uint32
	Guard     [4]byte
	Pad       int
	PadByte   byte
	SignKey   []byte         // instead of the sender's
	SignCtx   *Ctx           // instead of the group's
	SignLabel string         // instead of FramedContentTBS
	SignWF    uint16         // wire format signed, instead of the one used
	Content   func(*Content) // before signing
	Signed    func(*Auth)    // after signing
	MACKey    []byte         // membership key override
	MACCtx    *Ctx
	MemberTag func([]byte) []byte // alter membership tag
	KeyLeaf   *int                // ratchet used for encryption
	KeyLabel  string
	SDLeaf    *uint32             // leaf index in sender data
	SDGen     *uint32             // generation in sender data
	SDRaw     []byte              // raw sender data plaintext
	PlainMut  func([]byte) []byte // private content plaintext
	Wire      func(*PrivMsg)
	EncEpoch  []byte // epoch secret used for message encryption
	EncN      int    // leaf slots of the secret tree
}

func (g *Group) sign(sender int, typ uint8, body []byte, f *Frame) *Auth {
	a := &Auth{WF: WFPublic, Content: Content{
		GroupID: g.Ctx.GroupID, Epoch: g.Ctx.Epoch, SenderType: SenderMember, Sender: uint32(sender),
		AAD: f.AAD, Type: typ, Body: body,
	}}
	if f.Private {
		a.WF = WFPrivate
	}
	if f.Content != nil {
		f.Content(&a.Content)
	}
	key := f.SignKey
	if key == nil {
		key = g.SigPriv(sender)
	}
	ctx := g.Ctx
	if f.SignCtx != nil {
		ctx = *f.SignCtx
	}
	label := "FramedContentTBS"
	if f.SignLabel != "" {
		label = f.SignLabel
	}
	wf := a.WF
	if f.SignWF != 0 {
		a.WF = f.SignWF
	}
	a.Sig = g.Suite.Sign(key, label, a.tbs(ctx))
	a.WF = wf
	if f.Signed != nil {
		f.Signed(a)
	}
	return a
}

// LeafSecret is the secret tree secret of a leaf.
func LeafSecret(s Suite, enc []byte, n, leaf int) []byte {
	sp := Span{0, n}
	for !sp.Leaf() {
		if sp.Left().Has(leaf) {
			enc, sp = s.ExpandLabel(enc, "tree", []byte("left"), s.Nh()), sp.Left()
		} else {
			enc, sp = s.ExpandLabel(enc, "tree", []byte("right"), s.Nh()), sp.Right()
		}
	}
	return enc
}

// RatchetKey derives key and nonce of a generation.
func RatchetKey(s Suite, leafSecret []byte, label string, gen uint32) (key, nonce []byte) {
	sec := s.ExpandLabel(leafSecret, label, nil, s.Nh())
	for i := uint32(0); i < gen; i++ {
		sec = s.DeriveTree(sec, "secret", i, s.Nh())
	}
	return s.DeriveTree(sec, "key", gen, s.Nk()), s.DeriveTree(sec, "nonce", gen, s.Nn())
}

func ratchetLabel(typ uint8) string {
	if typ == CTApplication {
		return "application"
	}
	return "handshake"
}

func (g *Group) seal(a *Auth, f *Frame) []byte {
	s := g.Suite
	if !f.Private {
		ctx := g.Ctx
		if f.MACCtx != nil {
			ctx = *f.MACCtx
		}
		key := f.MACKey
		if key == nil {
			key = s.Derive(g.Epoch, "membership")
		}
		out := Cat(U16(1), U16(WFPublic), a.Content.Enc(), a.authData())
		if a.Content.SenderType == SenderMember {
			tag := s.MAC(key, Cat(a.tbs(ctx), a.authData()))
			if f.MemberTag != nil {
				tag = f.MemberTag(tag)
			}
			out = Cat(out, Vec(tag))
		}
		return out
	}
	c := &a.Content
	pt := Cat(c.Body, a.authData())
	pad := make([]byte, f.Pad)
	for i := range pad {
		pad[i] = f.PadByte
	}
	pt = Cat(pt, pad)
	if f.PlainMut != nil {
		pt = f.PlainMut(pt)
	}
	epoch := f.EncEpoch
	if epoch == nil {
		epoch = g.Epoch
	}
	n := f.EncN
	if n == 0 {
		n = g.Tree.N
	}
	leaf := int(c.Sender)
	if f.KeyLeaf != nil {
		leaf = *f.KeyLeaf
	}
	label := ratchetLabel(c.Type)
	if f.KeyLabel != "" {
		label = f.KeyLabel
	}
	var key, nonce []byte
	if leaf >= 0 && leaf < n {
		key, nonce = RatchetKey(s, LeafSecret(s, s.Derive(epoch, "encryption"), n, leaf), label, f.Gen)
	} else {
		key, nonce = make([]byte, s.Nk()), make([]byte, s.Nn())
	}
	for i := range f.Guard {
		nonce[i] ^= f.Guard[i]
	}
	m := &PrivMsg{GroupID: c.GroupID, Epoch: c.Epoch, Type: c.Type, AAD: c.AAD}
	m.Ct = s.Seal(key, nonce, Cat(Vec(m.GroupID), U64(m.Epoch), U8(m.Type), Vec(m.AAD)), pt)

	sdLeaf, sdGen := c.Sender, f.Gen
	if f.SDLeaf != nil {
		sdLeaf = *f.SDLeaf
	}
	if f.SDGen != nil {
		sdGen = *f.SDGen
	}
	sd := Cat(U32(sdLeaf), U32(sdGen), f.Guard[:])
	if f.SDRaw != nil {
		sd = f.SDRaw
	}
	m.EncSD = sealSD(s, s.Derive(epoch, "sender data"), m, sd)
	if f.Wire != nil {
		f.Wire(m)
	}
	return m.Msg()
}

func sdKey(s Suite, secret, ct []byte) (key, nonce []byte) {
	sample := ct
	if len(sample) > s.Nh() {
		sample = sample[:s.Nh()]
	}
	return s.ExpandLabel(secret, "key", sample, s.Nk()), s.ExpandLabel(secret, "nonce", sample, s.Nn())
}

func sealSD(s Suite, secret []byte, m *PrivMsg, sd []byte) []byte {
	key, nonce := sdKey(s, secret, m.Ct)
	return s.Seal(key, nonce, Cat(Vec(m.GroupID), U64(m.Epoch), U8(m.Type)), sd)
}

// App makes an application message.
func (g *Group) App(sender int, data []byte, f Frame) []byte {
	f.Private = true
	return g.seal(g.sign(sender, CTApplication, Vec(data), &f), &f)
}

// AppPublic makes an (illegal) unencrypted application message.
func (g *Group) AppPublic(sender int, data []byte, f Frame) []byte {
	f.Private = false
	return g.seal(g.sign(sender, CTApplication, Vec(data), &f), &f)
}

// Propose makes a proposal message and the group state with it pending.
func (g *Group) Propose(sender int, p *Proposal, f Frame) ([]byte, *Pending, *Group) {
	a := g.sign(sender, CTProposal, p.Enc(), &f)
	pend := Pending{a.Ref(g.Suite), p, sender}
	n := g.copy()
	n.Pending = append(n.Pending, pend)
	return g.seal(a, &f), &pend, n
}

// Raw makes a message with an arbitrary body.
func (g *Group) Raw(sender int, typ uint8, body []byte, confTag []byte, f Frame) []byte {
	a := g.sign(sender, typ, body, &f)
	a.ConfTag = confTag
	return g.seal(a, &f)
}

// CommitOpts describes a commit, honest by default.
type CommitOpts struct {
	Frame
	Sender int
	List   []PropOrRef
	Path   bool
	Rng    *Rng

	NewSig     bool                                     // committer rotates its signature key
	PathKeys   func(keys [][]byte)                      // alter public keys of path nodes
	LeafPre    func(l *Leaf)                            // before the path leaf is signed
	LeafKey    []byte                                   // signature key for the path leaf
	LeafPost   func(l *Leaf)                            // after it is signed
	LeafIdx    *uint32                                  // index signed in the leaf
	LeafGID    []byte                                   // group signed in the leaf
	PathPost   func(p *Path)                            // after path secrets were encrypted
	EncCtx     func(c *Ctx)                             // context path secrets are encrypted under
	IncludeNew bool                                     // also encrypt path secrets to members added here
	IgnorePSK  bool                                     // leave pre-shared keys out of the key schedule
	IgnoreGCE  bool                                     // do not apply context extensions
	NextCtx    func(c *Ctx)                             // alter the new context
	Secrets    func(initSecret, commit, psk *[]byte)    // alter key schedule inputs
	Interim    func(h *[]byte)                          // alter previous interim hash
	ConfTag    func(tag []byte) []byte                  // alter the confirmation tag
	TreeMut    func(t *Tree)                            // alter the new tree before hashing
	PathSecret func(i int, secret []byte) (sent []byte) // alter the secret encrypted at path node i
	PathSkip   bool                                     // omit the path although computed
	Commit     func(c *Commit)                          // alter the commit before framing
}

// CommitResult is the outcome of a commit.
type CommitResult struct {
	Msg     []byte
	Auth    *Auth
	Next    *Group
	Joined  []int           // leaves of added members
	Secrets map[Span][]byte // path secrets per populated node
	Path    *Path
}

type resolved struct {
	p      *Proposal
	sender int
}

func (g *Group) resolve(list []PropOrRef, committer int) ([]resolved, error) {
	var out []resolved
	for _, e := range list {
		if e.Prop != nil {
			out = append(out, resolved{e.Prop, committer})
			continue
		}
		found := false
		for _, p := range g.Pending {
			if eq(p.Ref, e.Ref) {
				out = append(out, resolved{p.Prop, p.Sender})
				found = true
				break
			}
		}
		if !found {
			return nil, errors.New("ref: unknown proposal reference")
		}
	}
	return out, nil
}

// apply performs updates, removals and additions naively, without validation.
func applyList(t *Tree, list []resolved) (*Tree, []int) {
	t = t.Copy()
	for _, r := range list {
		if r.p.Type == PropUpdate && r.sender < t.N {
			t.UpdateLeaf(r.sender, r.p.Leaf)
		}
	}
	for _, r := range list {
		if r.p.Type == PropRemove {
			t.RemoveLeaf(int(r.p.Removed))
		}
	}
	var added []int
	for _, r := range list {
		if r.p.Type == PropAdd {
			added = append(added, t.AddLeaf(r.p.KP.Leaf))
		}
	}
	return t, added
}

func contains(v []int, x int) bool {
	for _, y := range v {
		if x == y {
			return true
		}
	}
	return false
}

func (g *Group) pskSecret(ids []PSKID) []byte {
	s := g.Suite
	sec := g.zero()
	for i, id := range ids {
		ext := s.Extract(g.zero(), id.Material)
		in := s.ExpandLabel(ext, "derived psk", Cat(id.Enc(), U16(uint16(i)), U16(uint16(len(ids)))), s.Nh())
		sec = s.Extract(in, sec)
	}
	return sec
}

// schedule derives the next epoch from the new context and secrets.
func (g *Group) schedule(next *Group, init, commit, psk []byte) {
	s := g.Suite
	ctx := next.Ctx.Enc()
	next.Joiner = s.ExpandLabel(s.Extract(init, commit), "joiner", ctx, s.Nh())
	next.PSK = psk
	next.Epoch = s.ExpandLabel(s.Extract(next.Joiner, psk), "epoch", ctx, s.Nh())
	next.Init = s.Derive(next.Epoch, "init")
	next.ConfTag = s.MAC(s.Derive(next.Epoch, "confirm"), next.Ctx.CTH)
	next.Interim = s.Hash(next.Ctx.CTH, Vec(next.ConfTag))
}

// Commit creates a commit and the epoch it leads to.
func (g *Group) Commit(o CommitOpts) (*CommitResult, error) {
	s := g.Suite
	res := &CommitResult{Secrets: map[Span][]byte{}}
	list, err := g.resolve(o.List, o.Sender)
	if err != nil {
		return nil, err
	}
	next := &Group{Suite: s, Ring: g.Ring, Ctx: g.Ctx}
	next.Tree, res.Joined = applyList(g.Tree, list)
	next.Ctx.Epoch++
	var psks []PSKID
	for _, r := range list {
		if r.p.Type == PropGCE && !o.IgnoreGCE {
			next.Ctx.Exts = r.p.Exts
		}
		if r.p.Type == PropPSK && !o.IgnorePSK {
			psks = append(psks, r.p.PSK)
		}
	}
	commitSecret := g.zero()
	c := &Commit{Props: o.List}
	if o.Path {
		t := next.Tree
		if o.Sender >= t.N {
			return nil, errors.New("ref: committer outside tree")
		}
		t.blank(o.Sender)
		path, copath := t.FilteredPath(o.Sender)
		keys := make([][]byte, len(path))
		secrets := make([][]byte, len(path))
		ps := o.Rng.Bytes(s.Nh())
		for i := range path {
			if i > 0 {
				ps = s.Derive(ps, "path")
			}
			secrets[i] = ps
			pub, priv := s.KeyPair(s.Derive(ps, "node"))
			g.Ring.PutEnc(pub, priv)
			keys[i] = pub
			res.Secrets[path[i]] = ps
		}
		commitSecret = s.Derive(ps, "path")
		if o.PathKeys != nil {
			o.PathKeys(keys)
		}
		ph, err := t.SetPath(s, o.Sender, keys)
		if err != nil {
			return nil, err
		}
		old := g.Tree.Leaves[o.Sender]
		if old == nil {
			return nil, errors.New("ref: committer blank")
		}
		l := old.Copy()
		l.Source, l.NotBefore, l.NotAfter, l.ParentHash = SrcCommit, 0, 0, ph
		pub, priv := s.KeyPair(o.Rng.Bytes(s.info().kem.Scheme().SeedSize()))
		g.Ring.PutEnc(pub, priv)
		l.EncKey = pub
		key := g.SigPriv(o.Sender)
		if o.NewSig {
			var sp []byte
			sp, key = s.SigPair(o.Rng.Bytes(32))
			g.Ring.PutSig(sp, key)
			l.SigKey = sp
		}
		if o.LeafPre != nil {
			o.LeafPre(l)
		}
		if o.LeafKey != nil {
			key = o.LeafKey
		}
		idx, gid := uint32(o.Sender), g.Ctx.GroupID
		if o.LeafIdx != nil {
			idx = *o.LeafIdx
		}
		if o.LeafGID != nil {
			gid = o.LeafGID
		}
		l.Sign(s, key, gid, idx)
		if o.LeafPost != nil {
			o.LeafPost(l)
		}
		t.Leaves[o.Sender] = l
		if o.TreeMut != nil {
			o.TreeMut(t)
		}
		next.Ctx.TreeHash = t.RootHash(s)
		encCtx := next.Ctx
		if o.EncCtx != nil {
			o.EncCtx(&encCtx)
		}
		p := &Path{Leaf: l}
		for i := range path {
			n := PathNode{EncKey: keys[i]}
			sent := secrets[i]
			if o.PathSecret != nil {
				sent = o.PathSecret(i, sent)
			}
			for _, r := range t.Resolution(copath[i]) {
				if r.Leaf() && contains(res.Joined, r.Lo) && !o.IncludeNew {
					continue
				}
				kem, ct, err := s.SealHPKE(o.Rng, t.EncKey(r), "UpdatePathNode", encCtx.Enc(), sent)
				if err != nil {
					return nil, fmt.Errorf("ref: encrypt to %v: %v", r, err)
				}
				n.Cts = append(n.Cts, HPKECt{kem, ct})
			}
			p.Nodes = append(p.Nodes, n)
		}
		if o.PathPost != nil {
			o.PathPost(p)
		}
		res.Path = p
		if !o.PathSkip {
			c.Path = p
		}
	} else {
		if o.TreeMut != nil {
			o.TreeMut(next.Tree)
		}
		next.Ctx.TreeHash = next.Tree.RootHash(s)
	}
	if o.Commit != nil {
		o.Commit(c)
	}
	a := g.sign(o.Sender, CTCommit, c.Enc(), &o.Frame)
	interim := g.Interim
	if o.Interim != nil {
		o.Interim(&interim)
	}
	next.Ctx.CTH = s.Hash(interim, U16(a.WF), a.Content.Enc(), Vec(a.Sig))
	if o.NextCtx != nil {
		o.NextCtx(&next.Ctx)
	}
	init, psk := g.Init, g.pskSecret(psks)
	if o.Secrets != nil {
		o.Secrets(&init, &commitSecret, &psk)
	}
	g.schedule(next, init, commitSecret, psk)
	a.ConfTag = next.ConfTag
	if o.ConfTag != nil {
		a.ConfTag = o.ConfTag(a.ConfTag)
		next.Interim = s.Hash(next.Ctx.CTH, Vec(a.ConfTag))
	}
	res.Auth, res.Next = a, next
	res.Msg = g.seal(a, &o.Frame)
	return res, nil
}

// Received is a decoded and authenticated message.
type Received struct {
	Auth   *Auth
	Prop   *Proposal
	Commit *Commit
	App    []byte
	Sender int
	Gen    uint32
	Priv   bool
	Pad    int
	Guard  []byte
}

// Receive decodes and authenticates a message for the current epoch.
func (g *Group) Receive(msg []byte) (rv *Received, err error) {
	s := g.Suite
	if len(msg) < 4 {
		return nil, errors.New("ref: short")
	}
	rv = &Received{}
	if eq(msg[:4], Cat(U16(1), U16(WFPublic))) {
		a := &Auth{WF: WFPublic}
		var tag []byte
		err = Decode(msg[4:], func(r *R) {
			c := &a.Content
			c.GroupID, c.Epoch = r.Vec(), r.U64()
			c.SenderType = r.U8()
			if c.SenderType != SenderMember {
				fail("ref: sender type")
			}
			c.Sender = r.U32()
			c.AAD, c.Type = r.Vec(), r.U8()
			c.Body, rv.Prop, rv.Commit, rv.App = decBody(r, c.Type)
			a.Sig = r.Vec()
			if c.Type == CTCommit {
				a.ConfTag = r.Vec()
			}
			tag = r.Vec()
		})
		if err != nil {
			return nil, err
		}
		if !hmac.Equal(tag, s.MAC(s.Derive(g.Epoch, "membership"), Cat(a.tbs(g.Ctx), a.authData()))) {
			return nil, errors.New("ref: membership tag")
		}
		if a.Content.Type == CTApplication {
			return nil, errors.New("ref: public application data")
		}
		rv.Auth = a
	} else {
		m, err := ParsePriv(msg)
		if err != nil {
			return nil, err
		}
		rv.Priv = true
		key, nonce := sdKey(s, s.Derive(g.Epoch, "sender data"), m.Ct)
		sd, err := s.Open(key, nonce, Cat(Vec(m.GroupID), U64(m.Epoch), U8(m.Type)), m.EncSD)
		if err != nil {
			return nil, fmt.Errorf("ref: sender data: %v", err)
		}
		if len(sd) != 12 {
			return nil, errors.New("ref: sender data size")
		}
		r := &R{b: sd}
		leaf, gen, guard := r.U32(), r.U32(), r.Take(4)
		if int(leaf) >= g.Tree.N || gen > 1<<22 {
			return nil, errors.New("ref: sender data range")
		}
		rv.Gen, rv.Guard = gen, guard
		key, nonce = RatchetKey(s, LeafSecret(s, s.Derive(g.Epoch, "encryption"), g.Tree.N, int(leaf)), ratchetLabel(m.Type), gen)
		for i := range guard {
			nonce[i] ^= guard[i]
		}
		pt, err := s.Open(key, nonce, Cat(Vec(m.GroupID), U64(m.Epoch), U8(m.Type), Vec(m.AAD)), m.Ct)
		if err != nil {
			return nil, fmt.Errorf("ref: content: %v", err)
		}
		a := &Auth{WF: WFPrivate, Content: Content{GroupID: m.GroupID, Epoch: m.Epoch, SenderType: SenderMember, Sender: leaf, AAD: m.AAD, Type: m.Type}}
		err = Decode(pt, func(r *R) {
			a.Content.Body, rv.Prop, rv.Commit, rv.App = decBody(r, m.Type)
			a.Sig = r.Vec()
			if m.Type == CTCommit {
				a.ConfTag = r.Vec()
			}
			rv.Pad = r.Left()
			for !r.Empty() {
				if r.U8() != 0 {
					fail("ref: padding")
				}
			}
		})
		if err != nil {
			return nil, err
		}
		rv.Auth = a
	}
	c := &rv.Auth.Content
	if !eq(c.GroupID, g.Ctx.GroupID) || c.Epoch != g.Ctx.Epoch {
		return nil, errors.New("ref: group or epoch")
	}
	if int(c.Sender) >= g.Tree.N || g.Tree.Leaves[c.Sender] == nil {
		return nil, errors.New("ref: sender")
	}
	if !s.Verify(g.Tree.Leaves[c.Sender].SigKey, "FramedContentTBS", rv.Auth.tbs(g.Ctx), rv.Auth.Sig) {
		return nil, errors.New("ref: signature")
	}
	rv.Sender = int(c.Sender)
	return rv, nil
}

// Apply processes a received proposal or commit.
func (g *Group) Apply(rv *Received) (*Group, error) {
	switch {
	case rv.Prop != nil:
		n := g.copy()
		n.Pending = append(n.Pending, Pending{rv.Auth.Ref(g.Suite), rv.Prop, rv.Sender})
		return n, nil
	case rv.Commit != nil:
		return g.applyCommit(rv)
	}
	return g, nil
}

func (g *Group) applyCommit(rv *Received) (*Group, error) {
	s := g.Suite
	list, err := g.resolve(rv.Commit.Props, rv.Sender)
	if err != nil {
		return nil, err
	}
	next := &Group{Suite: s, Ring: g.Ring, Ctx: g.Ctx}
	var joined []int
	next.Tree, joined = applyList(g.Tree, list)
	next.Ctx.Epoch++
	var psks []PSKID
	for _, r := range list {
		if r.p.Type == PropGCE {
			next.Ctx.Exts = r.p.Exts
		}
		if r.p.Type == PropPSK {
			id := r.p.PSK
			if id.Material == nil {
				id.Material = g.Ring.Enc(id.ringKey())
			}
			psks = append(psks, id)
		}
	}
	commitSecret := g.zero()
	if p := rv.Commit.Path; p != nil {
		t := next.Tree
		var keys [][]byte
		for _, n := range p.Nodes {
			keys = append(keys, n.EncKey)
		}
		ph, err := t.SetPath(s, rv.Sender, keys)
		if err != nil {
			return nil, err
		}
		if p.Leaf.Source != SrcCommit || !eq(p.Leaf.ParentHash, ph) {
			return nil, errors.New("ref: path leaf parent hash")
		}
		if !p.Leaf.VerifySig(s, g.Ctx.GroupID, uint32(rv.Sender)) {
			return nil, errors.New("ref: path leaf signature")
		}
		t.Leaves[rv.Sender] = p.Leaf
		next.Ctx.TreeHash = t.RootHash(s)
		path, copath := t.FilteredPath(rv.Sender)
		var ps []byte
		for i := range path {
			if ps != nil {
				ps = s.Derive(ps, "path")
			} else {
				var targets []Span
				for _, r := range t.Resolution(copath[i]) {
					if !(r.Leaf() && contains(joined, r.Lo)) {
						targets = append(targets, r)
					}
				}
				if len(targets) != len(p.Nodes[i].Cts) {
					return nil, errors.New("ref: ciphertext count")
				}
				for k, r := range targets {
					priv := g.Ring.Enc(t.EncKey(r))
					if priv == nil {
						continue
					}
					ps, err = s.OpenHPKE(priv, "UpdatePathNode", next.Ctx.Enc(), p.Nodes[i].Cts[k].Kem, p.Nodes[i].Cts[k].Ct)
					if err != nil {
						return nil, fmt.Errorf("ref: path secret: %v", err)
					}
					break
				}
			}
			if ps != nil {
				pub, priv := s.KeyPair(s.Derive(ps, "node"))
				if !eq(pub, keys[i]) {
					return nil, errors.New("ref: path key mismatch")
				}
				g.Ring.PutEnc(pub, priv)
			}
		}
		if ps == nil {
			return nil, errors.New("ref: no path secret")
		}
		commitSecret = s.Derive(ps, "path")
	} else {
		next.Ctx.TreeHash = next.Tree.RootHash(s)
	}
	next.Ctx.CTH = s.Hash(g.Interim, U16(rv.Auth.WF), rv.Auth.Content.Enc(), Vec(rv.Auth.Sig))
	g.schedule(next, g.Init, commitSecret, g.pskSecret(psks))
	if !hmac.Equal(next.ConfTag, rv.Auth.ConfTag) {
		return nil, errors.New("ref: confirmation tag")
	}
	return next, nil
}

// Process is Receive followed by Apply.
func (g *Group) Process(msg []byte) (*Group, *Received, error) {
	rv, err := g.Receive(msg)
	if err != nil {
		return nil, nil, err
	}
	n, err := g.Apply(rv)
	return n, rv, err
}

// WelcomeOpts describes a Welcome into the current epoch.
type WelcomeOpts struct {
	Signer  int
	Parties []*KeyPackage
	Path    map[Span][]byte // path secrets of the commit that led here
	Rng     *Rng

	NoTree   bool
	TreeRaw  []byte
	Info     func(*GroupInfo)         // before signing
	SignKey  []byte                   // instead of the signer's
	Signed   func(*GroupInfo)         // after signing
	Secrets  func(int, *GroupSecrets) // per recipient
	RawSec   func(int, []byte) []byte // raw group secrets plaintext
	RawInfo  func([]byte) []byte      // raw group info plaintext
	InfoKey  []byte                   // welcome secret override
	HPKECtx  func([]byte) []byte
	Welcome  func(*Welcome)
	PSKs     []PSKID
	LeafOf   func(kp *KeyPackage) int
	ExtraExt []Ext
}

// Welcome creates a Welcome for parties present in the tree.
func (g *Group) Welcome(o WelcomeOpts) (*Welcome, error) {
	s := g.Suite
	info := &GroupInfo{Ctx: g.Ctx, ConfTag: g.ConfTag, Signer: uint32(o.Signer)}
	if !o.NoTree {
		raw := o.TreeRaw
		if raw == nil {
			raw = g.Tree.Enc()
		}
		info.Exts = append(info.Exts, Ext{ExtRatchetTree, raw})
	}
	info.Exts = append(info.Exts, o.ExtraExt...)
	if o.Info != nil {
		o.Info(info)
	}
	key := o.SignKey
	if key == nil {
		key = g.SigPriv(o.Signer)
	}
	info.Sign(s, key)
	if o.Signed != nil {
		o.Signed(info)
	}
	ws := o.InfoKey
	if ws == nil {
		ws = s.Derive(s.Extract(g.Joiner, g.PSK), "welcome")
	}
	raw := info.Enc()
	if o.RawInfo != nil {
		raw = o.RawInfo(raw)
	}
	w := &Welcome{Suite: uint16(s)}
	w.EncInfo = s.Seal(s.ExpandLabel(ws, "key", nil, s.Nk()), s.ExpandLabel(ws, "nonce", nil, s.Nn()), nil, raw)
	for i, kp := range o.Parties {
		gs := &GroupSecrets{Joiner: g.Joiner, PSKs: o.PSKs}
		if o.Path != nil {
			leaf := -1
			for li, l := range g.Tree.Leaves {
				if l != nil && eq(l.EncKey, kp.Leaf.EncKey) {
					leaf = li
				}
			}
			if leaf >= 0 && leaf != o.Signer {
				gs.PathSecret = o.Path[CommonAncestor(leaf, o.Signer)]
			}
		}
		if o.Secrets != nil {
			o.Secrets(i, gs)
		}
		pt := gs.Enc()
		if o.RawSec != nil {
			pt = o.RawSec(i, pt)
		}
		hctx := w.EncInfo
		if o.HPKECtx != nil {
			hctx = o.HPKECtx(hctx)
		}
		kem, ct, err := s.SealHPKE(o.Rng, kp.InitKey, "Welcome", hctx, pt)
		if err != nil {
			return nil, err
		}
		w.Secrets = append(w.Secrets, EncSecrets{kp.RefAs(s), HPKECt{kem, ct}})
	}
	if o.Welcome != nil {
		o.Welcome(w)
	}
	return w, nil
}

// Rebind is the epoch a newcomer computes from the same joiner secret when told
// of another tree and context.
func (g *Group) Rebind(t *Tree, ctx func(*Ctx)) *Group {
	s := g.Suite
	c := g.copy()
	c.Tree = t
	c.Ctx.TreeHash = t.RootHash(s)
	if ctx != nil {
		ctx(&c.Ctx)
	}
	c.Epoch = s.ExpandLabel(s.Extract(c.Joiner, c.PSK), "epoch", c.Ctx.Enc(), s.Nh())
	c.Init = s.Derive(c.Epoch, "init")
	c.ConfTag = s.MAC(s.Derive(c.Epoch, "confirm"), c.Ctx.CTH)
	c.Interim = s.Hash(c.Ctx.CTH, Vec(c.ConfTag))
	return c
}

// Joined is the result of joining.
type Joined struct {
	Group   *Group
	Leaf    int
	Info    *GroupInfo
	Secrets *GroupSecrets
}

// Join processes a Welcome strictly.
func Join(ring *Ring, w *Welcome, p *Party, tree []byte) (*Joined, error) {
	s := p.KP.Suite
	if w.Suite != uint16(s) {
		return nil, errors.New("ref: welcome suite")
	}
	var es *EncSecrets
	for i := range w.Secrets {
		if eq(w.Secrets[i].NewMember, p.KP.Ref()) {
			es = &w.Secrets[i]
		}
	}
	if es == nil {
		return nil, errors.New("ref: not invited")
	}
	pt, err := s.OpenHPKE(p.Priv.Init, "Welcome", w.EncInfo, es.Ct.Kem, es.Ct.Ct)
	if err != nil {
		return nil, fmt.Errorf("ref: group secrets: %v", err)
	}
	var gs *GroupSecrets
	if err := Decode(pt, func(r *R) { gs = decGroupSecrets(r) }); err != nil {
		return nil, err
	}
	g := &Group{Suite: s, Ring: ring, Joiner: gs.Joiner}
	var psks []PSKID
	for _, id := range gs.PSKs {
		id.Material = ring.Enc(id.ringKey())
		psks = append(psks, id)
	}
	g.PSK = g.pskSecret(psks)
	member := s.Extract(g.Joiner, g.PSK)
	ws := s.Derive(member, "welcome")
	raw, err := s.Open(s.ExpandLabel(ws, "key", nil, s.Nk()), s.ExpandLabel(ws, "nonce", nil, s.Nn()), nil, w.EncInfo)
	if err != nil {
		return nil, fmt.Errorf("ref: group info: %v", err)
	}
	var info *GroupInfo
	if err := Decode(raw, func(r *R) { info = decGroupInfo(r) }); err != nil {
		return nil, err
	}
	g.Ctx = info.Ctx
	if g.Ctx.Suite != s || g.Ctx.Version != 1 {
		return nil, errors.New("ref: group info suite")
	}
	if tree == nil {
		for _, e := range info.Exts {
			if e.Type == ExtRatchetTree {
				tree = e.Data
			}
		}
	}
	if g.Tree, err = ParseTree(tree); err != nil {
		return nil, err
	}
	if int(info.Signer) >= g.Tree.N || g.Tree.Leaves[info.Signer] == nil {
		return nil, errors.New("ref: signer")
	}
	if !s.Verify(g.Tree.Leaves[info.Signer].SigKey, "GroupInfoTBS", info.tbs(), info.Signature) {
		return nil, errors.New("ref: group info signature")
	}
	if !eq(g.Tree.RootHash(s), g.Ctx.TreeHash) {
		return nil, errors.New("ref: tree hash")
	}
	if err := g.Tree.Verify(s, g.Ctx.GroupID); err != nil {
		return nil, err
	}
	g.Epoch = s.ExpandLabel(member, "epoch", g.Ctx.Enc(), s.Nh())
	g.Init = s.Derive(g.Epoch, "init")
	g.ConfTag = s.MAC(s.Derive(g.Epoch, "confirm"), g.Ctx.CTH)
	if !hmac.Equal(g.ConfTag, info.ConfTag) {
		return nil, errors.New("ref: confirmation tag")
	}
	g.Interim = s.Hash(g.Ctx.CTH, Vec(g.ConfTag))
	me := -1
	for i, l := range g.Tree.Leaves {
		if l != nil && eq(l.Enc(), p.KP.Leaf.Enc()) {
			me = i
		}
	}
	if me < 0 {
		return nil, errors.New("ref: own leaf not found")
	}
	ring.PutEnc(p.KP.Leaf.EncKey, p.Priv.Enc)
	ring.PutSig(p.KP.Leaf.SigKey, p.Priv.Sig)
	if gs.PathSecret != nil {
		ps := gs.PathSecret
		if me == int(info.Signer) {
			return nil, errors.New("ref: path secret from self")
		}
		anc := CommonAncestor(me, int(info.Signer))
		first := true
		for _, sp := range g.Tree.Ancestors(me) {
			if sp.Hi-sp.Lo < anc.Hi-anc.Lo || g.Tree.Parents[sp] == nil {
				continue
			}
			if !first {
				ps = s.Derive(ps, "path")
			}
			first = false
			pub, priv := s.KeyPair(s.Derive(ps, "node"))
			if !eq(pub, g.Tree.Parents[sp].EncKey) {
				return nil, errors.New("ref: path secret mismatch")
			}
			ring.PutEnc(pub, priv)
		}
	}
	return &Joined{g, me, info, gs}, nil
}

// Update makes an update leaf for a member.
func (g *Group) UpdateLeaf(i int, rng *Rng, pre func(*Leaf), newSig bool) *Leaf {
	s := g.Suite
	l := g.Tree.Leaves[i].Copy()
	l.Source, l.NotBefore, l.NotAfter, l.ParentHash = SrcUpdate, 0, 0, nil
	pub, priv := s.KeyPair(rng.Bytes(s.info().kem.Scheme().SeedSize()))
	g.Ring.PutEnc(pub, priv)
	l.EncKey = pub
	key := g.SigPriv(i)
	if newSig {
		var sp []byte
		sp, key = s.SigPair(rng.Bytes(32))
		g.Ring.PutSig(sp, key)
		l.SigKey = sp
	}
	if pre != nil {
		pre(l)
	}
	l.Sign(s, key, g.Ctx.GroupID, uint32(i))
	return l
}

// ringKey is where the ring keeps the pre-shared key.
func (p PSKID) ringKey() []byte {
	if p.Type == 1 {
		return Cat([]byte("psk:"), p.ID)
	}
	return Cat([]byte("res:"), Vec(p.GroupID), U64(p.Epoch))
}

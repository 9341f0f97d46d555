package eng

import (
	"fmt"
	"sort"
	"strings"

	mls "github.com/emersion/go-mls"

	"verif/mc/ref"
)

// World pairs a model group with library groups for its members.
type World struct {
	M    *ref.Group
	R    map[int]*mls.Group // by leaf
	Kind map[int]byte       // how the library group came about: c reated, w elcome, p ath secret, r esurrected

	Commit  []byte   // the commit that led here
	Pre     [][]byte // the proposals it refers to
	Welcome []byte   // the Welcome that came with it, if any

	Former []*ref.Leaf // entries of members removed on the way here

	stale   []int // members whose keys were replaced by the model, not yet rebuilt
	secrets map[ref.Span][]byte
	by      int
	label   string
}

// Clone copies the world.
func (w *World) Clone() *World {
	n := &World{M: w.M.Copy(), R: map[int]*mls.Group{}, Kind: map[int]byte{}, Former: w.Former}
	for i, g := range w.R {
		n.R[i] = Clone(g)
		n.Kind[i] = w.Kind[i]
	}
	return n
}

// Complete rebuilds library groups for members whose keys were replaced by the
// model's hand.
func (w *World) Complete(r *Run) {
	for _, i := range w.stale {
		if g := Resurrect(w.M, i, w.secrets, w.by, w.label); g != nil {
			w.R[i] = g
			w.Kind[i] = 'r'
			r.Count("rebuilt members")
		} else {
			r.Count("ghost members")
		}
	}
	w.stale = nil
}

// Leaves lists the positions with a library group.
func (w *World) Leaves() []int {
	var out []int
	for i := range w.R {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

// Key canonicalises the state: tree shape including leaf sources, and how each
// member's group came about.
func (w *World) Key() string {
	var b strings.Builder
	b.WriteString(w.M.Tree.Shape(true))
	b.WriteByte('/')
	for _, i := range w.M.Tree.Members() {
		k := w.Kind[i]
		if has(w.stale, i) {
			k = 'r'
		} else if k == 0 {
			k = '-'
		}
		b.WriteByte(k)
	}
	return b.String()
}

// Shape is the coarse canonical state: the tree shape alone.
func (w *World) Shape() string { return w.M.Tree.Shape(false) }

// NewWorld starts a group whose creator is a library group; the model learns
// the group through an invitation into leaf 1 of epoch 1.
func NewWorld(t *T, s ref.Suite, gid []byte, label string) *World {
	ring := ref.NewRing()
	a := ref.NewParty(ring, s, label+"/creator", ref.PartyOpts{})
	b := ref.NewParty(ring, s, label+"/second", ref.PartyOpts{})
	return NewWorldOf(t, ring, s, gid, a, b)
}

// NewWorldOf is NewWorld with given members.
func NewWorldOf(t *T, ring *ref.Ring, s ref.Suite, gid []byte, a, b *ref.Party) *World {
	g, err := Create(gid, a)
	if err != nil {
		t.Fail("creating a group: %v", err)
		return nil
	}
	wel, commit, err := InviteRaw(g, b.KP.Msg())
	if err != nil {
		t.Fail("inviting into a new group: %v", err)
		return nil
	}
	if _, err := Proc(g, commit); err != nil {
		t.Fail("creator processing its own invitation commit: %v", err)
		return nil
	}
	pw, err := ref.ParseWelcome(wel)
	if err != nil {
		t.Fail("model cannot parse Welcome: %v", err)
		return nil
	}
	j, err := ref.Join(ring, pw, b, nil)
	if err != nil {
		t.Fail("model cannot join: %v", err)
		return nil
	}
	g2, err := Join(wel, b)
	if err != nil {
		t.Fail("joining: %v", err)
		return nil
	}
	w := &World{M: j.Group, R: map[int]*mls.Group{0: g, 1: g2}, Kind: map[int]byte{0: 'c', 1: 'w'}}
	return w
}

// ModelWorld starts a group from the model: n members all of whose library
// groups joined through a model Welcome into the given epoch.
func ModelWorld(t *T, s ref.Suite, gid []byte, label string, n int, epoch uint64) *World {
	var ps []*ref.Party
	ring := ref.NewRing()
	for i := 0; i < n; i++ {
		ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/m%d", label, i), ref.PartyOpts{}))
	}
	return ModelWorldOf(t, ring, s, gid, label, ps, epoch, nil)
}

// ModelWorldOf is ModelWorld with given members; only the leaves in real (all
// if nil) get library groups.
func ModelWorldOf(t *T, ring *ref.Ring, s ref.Suite, gid []byte, label string, ps []*ref.Party, epoch uint64, real []int) *World {
	g := ref.CreateGroup(ring, s, gid, ps[0], ref.NewRng("create", label))
	for _, p := range ps[1:] {
		g.Tree = g.Tree.Copy()
		g.Tree.AddLeaf(p.KP.Leaf)
	}
	return FromModel(t, Reseed(g, epoch, label), label, ps, real)
}

// Reseed puts the group's tree into an epoch with fresh secrets, as if a long
// history had led there.
func Reseed(g *ref.Group, epoch uint64, label string) *ref.Group {
	s := g.Suite
	n := g.Copy()
	rng := ref.NewRng("reseed", label, epoch)
	n.Pending = nil
	n.Ctx.Epoch = epoch
	n.Ctx.TreeHash = n.Tree.RootHash(s)
	n.Ctx.CTH = s.Hash(rng.Bytes(32))
	n.Joiner = rng.Bytes(s.Nh())
	n.PSK = make([]byte, s.Nh())
	n.Epoch = s.ExpandLabel(s.Extract(n.Joiner, n.PSK), "epoch", n.Ctx.Enc(), s.Nh())
	n.Init = s.Derive(n.Epoch, "init")
	n.ConfTag = s.MAC(s.Derive(n.Epoch, "confirm"), n.Ctx.CTH)
	n.Interim = s.Hash(n.Ctx.CTH, ref.Vec(n.ConfTag))
	return n
}

// FromModel joins library groups into a model group. Parties are matched to
// leaves by their encryption keys.
func FromModel(t *T, g *ref.Group, label string, ps []*ref.Party, real []int) *World {
	w := &World{M: g, R: map[int]*mls.Group{}, Kind: map[int]byte{}}
	var kps []*ref.KeyPackage
	var list []*ref.Party
	var leaves []int
	for li, l := range g.Tree.Leaves {
		if l == nil || real != nil && !has(real, li) {
			continue
		}
		for _, p := range ps {
			if eq(p.KP.Leaf.EncKey, l.EncKey) {
				kps = append(kps, p.KP)
				list = append(list, p)
				leaves = append(leaves, li)
			}
		}
	}
	wel, err := g.Welcome(ref.WelcomeOpts{Signer: g.Tree.Members()[0], Parties: kps, Rng: ref.NewRng("welcome", label)})
	if err != nil {
		Harness("model welcome: %v", err)
	}
	raw := wel.Msg()
	for i, p := range list {
		rg, err := Join(raw, p)
		if err != nil {
			t.Fail("joining group of %d from a valid Welcome at leaf %d: %v", len(g.Tree.Members()), leaves[i], err)
			return nil
		}
		w.R[leaves[i]] = rg
		w.Kind[leaves[i]] = 'w'
	}
	return w
}

func has(v []int, x int) bool {
	for _, y := range v {
		if x == y {
			return true
		}
	}
	return false
}

// Op is a commit to perform: updates and removals by position, additions by
// count, and how it is sent.
type Op struct {
	By       int
	Upd, Rem []int
	Add      int
	Path     bool
	Priv     bool // commit encrypted
	Ref      bool // removals and additions by reference, proposed by another member
	RefPriv  bool // proposals encrypted
	NewSig   bool // committer and updaters rotate signature keys
	Pad      int
	AAD      string
	GenStep  int // extra generation offset of private handshake messages
	Rev      bool
	Back     bool // newcomers are removed members coming back, with their old signature key
}

func (o Op) String() string {
	s := fmt.Sprintf("by%d", o.By)
	for _, u := range o.Upd {
		s += fmt.Sprintf("+u%d", u)
	}
	for _, u := range o.Rem {
		s += fmt.Sprintf("+r%d", u)
	}
	if o.Add > 0 {
		s += fmt.Sprintf("+a%d", o.Add)
	}
	for _, f := range []struct {
		b bool
		c string
	}{{o.Path, "P"}, {o.Priv, "E"}, {o.Ref, "R"}, {o.RefPriv, "Q"}, {o.NewSig, "S"}, {o.Rev, "V"}, {o.Back, "B"}} {
		if f.b {
			s += f.c
		}
	}
	if o.Pad > 0 || o.AAD != "" {
		s += fmt.Sprintf("pad%daad%d", o.Pad, len(o.AAD))
	}
	return s
}

// NeedsPath tells whether RFC 9420 requires a path.
func (o Op) NeedsPath() bool { return len(o.Upd)+len(o.Rem) > 0 || o.Add == 0 }

// Built is an operation turned into messages.
type Built struct {
	Op        Op
	Proposals [][]byte
	Mid       *ref.Group // with proposals pending
	Res       *ref.CommitResult
	New       []*ref.Party
}

// Build creates the messages of an operation with the model.
func (w *World) Build(o Op, label string) *Built {
	g := w.M
	b := &Built{Op: o}
	rng := ref.NewRng("op", label, o.String())
	var list []ref.PropOrRef
	members := g.Tree.Members()
	gen := map[int]uint32{}
	frame := func(sender int, priv bool, k int) ref.Frame {
		f := ref.Frame{Private: priv, AAD: []byte(o.AAD), Pad: o.Pad, Gen: gen[sender]}
		if priv {
			gen[sender]++
		}
		copy(f.Guard[:], rng.Bytes(4))
		return f
	}
	propose := func(sender int, p *ref.Proposal) ref.PropOrRef {
		msg, pend, ng := g.Propose(sender, p, frame(sender, o.RefPriv, len(b.Proposals)))
		g = ng
		b.Proposals = append(b.Proposals, msg)
		return ref.PropOrRef{Ref: pend.Ref}
	}
	for _, u := range o.Upd {
		l := w.M.UpdateLeaf(u, rng, nil, o.NewSig)
		list = append(list, propose(u, ref.UpdateWith(l)))
	}
	for k, r := range o.Rem {
		if o.Ref {
			// proposed by each member in turn, including the removed one
			list = append(list, propose(members[(k+r)%len(members)], ref.Remove(r)))
		} else {
			list = append(list, ref.PropOrRef{Prop: ref.Remove(r)})
		}
	}
	for k := 0; k < o.Add; k++ {
		p := ref.NewParty(g.Ring, g.Suite, fmt.Sprintf("%s/%s/n%d", label, o, k), ref.PartyOpts{})
		if former := w.former(o); o.Back && k < len(former) {
			old := former[len(former)-1-k]
			p.KP.Leaf.SigKey, p.KP.Leaf.Cred, p.KP.Leaf.Caps, p.KP.Leaf.Exts = old.SigKey, old.Cred, old.Caps, old.Exts
			p.Priv.Sig = g.Ring.Sig(old.SigKey)
			p.KP.Leaf.Sign(g.Suite, p.Priv.Sig, nil, 0)
			p.KP.SignAs(g.Suite, p.Priv.Sig)
		}
		b.New = append(b.New, p)
		if o.Ref {
			list = append(list, propose(members[k%len(members)], ref.Add(p.KP)))
		} else {
			list = append(list, ref.PropOrRef{Prop: ref.Add(p.KP)})
		}
	}
	if o.Rev {
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	co := ref.CommitOpts{Frame: frame(o.By, o.Priv, 0), Sender: o.By, List: list, Path: o.Path, Rng: rng, NewSig: o.NewSig && o.Path}
	co.Gen += uint32(o.GenStep)
	res, err := g.Commit(co)
	if err != nil {
		Harness("model commit %v on %s: %v", o, w.Key(), err)
	}
	b.Mid, b.Res = g, res
	return b
}

// former lists the entries of members removed so far and by the operation.
func (w *World) former(o Op) []*ref.Leaf {
	out := w.Former[:len(w.Former):len(w.Former)]
	for _, r := range o.Rem {
		out = append(out, w.M.Tree.Leaves[r])
	}
	return out
}

// Step performs an operation on all library members of a copy of the world:
// members that stay process it and newcomers join. Members whose private keys
// changed by the model's hand are left out until Complete. Violations go to t.
func (w *World) Step(t *T, o Op, label string) (*World, *Built) {
	b := w.Build(o, label)
	next := w.Deliver(t, b, label)
	t.Transition()
	return next, b
}

// Deliver is the delivery half of Step.
func (w *World) Deliver(t *T, b *Built, label string) *World {
	o := b.Op
	next := &World{M: b.Res.Next, R: map[int]*mls.Group{}, Kind: map[int]byte{}}
	next.secrets, next.by, next.label = b.Res.Secrets, o.By, label
	next.Commit, next.Pre = b.Res.Msg, b.Proposals
	next.Former = w.former(o)
	for _, i := range w.Leaves() {
		c := Clone(w.R[i])
		ok := true
		for _, p := range b.Proposals {
			if _, err := Proc(c, p); err != nil {
				t.Fail("%v on %s: leaf %d rejects a valid proposal: %v", o, w.Key(), i, err)
				ok = false
			}
		}
		if has(o.Rem, i) {
			if _, err := Proc(c, b.Res.Msg); err == nil {
				t.Fail("%v on %s: removed leaf %d accepts the commit", o, w.Key(), i)
			} else if Panicked(err) {
				t.Fail("%v on %s: removed leaf %d: %v", o, w.Key(), i, err)
			}
			continue
		}
		if i == o.By && o.Path || has(o.Upd, i) {
			next.stale = append(next.stale, i)
			continue
		}
		if !ok {
			continue
		}
		if _, err := Proc(c, b.Res.Msg); err != nil {
			t.Fail("%v on %s: leaf %d rejects a valid commit: %v", o, w.Key(), i, err)
			continue
		}
		next.R[i] = c
		next.Kind[i] = w.Kind[i]
	}
	if len(b.New) > 0 {
		var kps []*ref.KeyPackage
		for _, p := range b.New {
			kps = append(kps, p.KP)
		}
		wo := ref.WelcomeOpts{Signer: o.By, Parties: kps, Rng: ref.NewRng("w", label, o.String())}
		kind := byte('w')
		if o.Path {
			wo.Path = b.Res.Secrets
			kind = 'p'
		}
		wel, err := next.M.Welcome(wo)
		if err != nil {
			Harness("welcome: %v", err)
		}
		raw := wel.Msg()
		next.Welcome = raw
		for k, p := range b.New {
			g, err := Join(raw, p)
			if err != nil {
				t.Fail("%v on %s: newcomer %d cannot join: %v", o, w.Key(), k, err)
				continue
			}
			li := leafOf(next.M.Tree, p.KP.Leaf.EncKey)
			next.R[li] = g
			next.Kind[li] = kind
		}
	}
	return next
}

func leafOf(t *ref.Tree, enc []byte) int {
	for i, l := range t.Leaves {
		if l != nil && eq(l.EncKey, enc) {
			return i
		}
	}
	return -1
}

// Resurrect builds a library group for a leaf whose keys were last replaced by
// the model, by joining a Welcome into the present epoch. It returns nil when
// the library does not support joining that way.
func Resurrect(g *ref.Group, i int, secrets map[ref.Span][]byte, committer int, label string) *mls.Group {
	l := g.Tree.Leaves[i]
	enc, sig := g.Ring.Enc(l.EncKey), g.Ring.Sig(l.SigKey)
	if enc == nil || sig == nil {
		return nil
	}
	p := ref.NewParty(nil, g.Suite, "resurrect/"+label+fmt.Sprint(i), ref.PartyOpts{})
	p.KP.Leaf = l
	p.KP.SignAs(g.Suite, sig)
	p.Priv.Enc, p.Priv.Sig = enc, sig
	wo := ref.WelcomeOpts{Signer: committer, Parties: []*ref.KeyPackage{p.KP}, Path: secrets, Rng: ref.NewRng("res", label, i)}
	if i == committer {
		// pick a signer below the copath of the lowest path node
		_, copath := g.Tree.FilteredPath(i)
		if len(copath) > 0 {
			for _, m := range g.Tree.Members() {
				if copath[0].Has(m) {
					wo.Signer = m
				}
			}
		}
	}
	wel, err := g.Welcome(wo)
	if err != nil {
		return nil
	}
	rg, err := Join(wel.Msg(), p)
	if err != nil {
		return nil
	}
	return rg
}

// Agree checks that every library member shares the model's epoch: it reads a
// message from each of the given senders (all members if nil), and its own
// messages are read by the model and by the other library members.
func (w *World) Agree(t *T, label string, senders []int) {
	if senders == nil {
		senders = w.M.Tree.Members()
	}
	t.Trace()
	msgs := map[int][]byte{}
	for _, q := range senders {
		msgs[q] = w.M.App(q, []byte(fmt.Sprintf("hello from %d %s", q, label)), ref.Frame{Gen: uint32(q % 2), Pad: q})
	}
	leaves := w.Leaves()
	for _, i := range leaves {
		for _, q := range senders {
			data, err := Proc(w.R[i], msgs[q])
			if err != nil {
				t.Fail("%s: leaf %d (%c) in state %s cannot read leaf %d: %v", label, i, w.Kind[i], w.Key(), q, err)
			} else if string(data) != fmt.Sprintf("hello from %d %s", q, label) {
				t.Fail("%s: leaf %d reads wrong data from leaf %d", label, i, q)
			}
		}
	}
	for k, i := range leaves {
		want := fmt.Sprintf("from library %d", i)
		msg, err := Send(w.R[i], []byte(want))
		if err != nil {
			t.Fail("%s: leaf %d cannot send: %v", label, i, err)
			continue
		}
		rv, err := w.M.Receive(msg)
		if err != nil {
			t.Fail("%s: model cannot read leaf %d: %v", label, i, err)
			continue
		}
		if rv.Sender != i || string(rv.App) != want {
			t.Fail("%s: model reads %q from %d, want %q from %d", label, rv.App, rv.Sender, want, i)
		}
		other := leaves[(k+1)%len(leaves)]
		if data, err := Proc(w.R[other], msg); err != nil || string(data) != want {
			t.Fail("%s: leaf %d cannot read library leaf %d: %v", label, other, i, err)
		}
	}
}

// Observe compares the complete state of a library member with the model: the
// invitation it produces must decode, verify and lead to exactly the epoch and
// tree the model computes. The member itself is not altered.
func (w *World) Observe(t *T, i int, label string) {
	t.Trace()
	c := Clone(w.R[i])
	p := ref.NewParty(ref.NewRing(), w.M.Suite, "observer/"+label, ref.PartyOpts{})
	wel, commit, err := InviteRaw(c, p.KP.Msg())
	if err != nil {
		t.Fail("%s: leaf %d in state %s cannot invite: %v", label, i, w.Key(), err)
		return
	}
	CheckInvite(t, w.M, i, wel, commit, []*ref.Party{p}, label)
}

// CheckInvite verifies an invitation made by the library at leaf i against the
// model, returning the model's next epoch.
func CheckInvite(t *T, m *ref.Group, i int, wel, commit []byte, ps []*ref.Party, label string) *ref.Group {
	next, rv, err := m.Process(commit)
	if err != nil {
		t.Fail("%s: model rejects invitation commit of leaf %d: %v", label, i, err)
		return nil
	}
	if rv.Sender != i || rv.Commit == nil {
		t.Fail("%s: invitation commit of leaf %d attributed to %d", label, i, rv.Sender)
		return nil
	}
	pw, err := ref.ParseWelcome(wel)
	if err != nil {
		t.Fail("%s: model cannot parse Welcome of leaf %d: %v", label, i, err)
		return nil
	}
	if len(pw.Secrets) != len(ps) {
		t.Fail("%s: Welcome for %d members, want %d", label, len(pw.Secrets), len(ps))
	}
	for _, p := range ps {
		j, err := ref.Join(ref.NewRing(), pw, p, nil)
		if err != nil {
			t.Fail("%s: model cannot join from invitation of leaf %d: %v", label, i, err)
			return nil
		}
		if !eq(j.Group.Tree.Enc(), next.Tree.Enc()) {
			t.Fail("%s: leaf %d publishes tree %s, want %s", label, i, j.Group.Tree.Shape(true), next.Tree.Shape(true))
		}
		if !eq(j.Group.Ctx.Enc(), next.Ctx.Enc()) {
			t.Fail("%s: leaf %d publishes context %x, want %x", label, i, j.Group.Ctx.Enc(), next.Ctx.Enc())
		}
		if !eq(j.Group.Epoch, next.Epoch) || !eq(j.Group.Interim, next.Interim) {
			t.Fail("%s: invitee of leaf %d ends up in another epoch", label, i)
		}
		if int(j.Info.Signer) != i {
			t.Fail("%s: Welcome of leaf %d signed by %d", label, i, j.Info.Signer)
		}
		if j.Secrets.PathSecret != nil && len(rv.Commit.Props) > 0 && rv.Commit.Path == nil {
			t.Fail("%s: path secret without a path", label)
		}
	}
	return next
}

package ref

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"testing"
)

// The model is validated against the published MLS test vectors, which are
// independent of the implementation under check.

type hx []byte

func (h *hx) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

func load(t *testing.T, name string, v interface{}) {
	b, err := os.ReadFile("/repo/testdata/" + name + ".json")
	if err != nil {
		t.Skip(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		t.Fatal(err)
	}
}

func TestPassive(t *testing.T) {
	for _, name := range []string{"passive-client-welcome", "passive-client-handling-commit", "passive-client-random"} {
		var vs []struct {
			Suite        Suite `json:"cipher_suite"`
			ExternalPSKs []struct {
				ID  hx `json:"psk_id"`
				PSK hx `json:"psk"`
			} `json:"external_psks"`
			KP      hx  `json:"key_package"`
			SigPriv hx  `json:"signature_priv"`
			EncPriv hx  `json:"encryption_priv"`
			Init    hx  `json:"init_priv"`
			Welcome hx  `json:"welcome"`
			Tree    *hx `json:"ratchet_tree"`
			Auth    hx  `json:"initial_epoch_authenticator"`
			Epochs  []struct {
				Proposals []hx `json:"proposals"`
				Commit    hx   `json:"commit"`
				Auth      hx   `json:"epoch_authenticator"`
			} `json:"epochs"`
		}
		load(t, name, &vs)
		joins, commits := 0, 0
		for i, v := range vs {
			ring := NewRing()
			for _, p := range v.ExternalPSKs {
				ring.PutEnc(Cat([]byte("psk:"), p.ID), p.PSK)
			}
			if v.Suite > 3 && v.Suite != 7 {
				continue
			}
			kp, err := ParseKeyPackage(v.KP)
			if err != nil {
				t.Fatal(err)
			}
			if !kp.VerifySig() || !eq(kp.Msg(), v.KP) {
				t.Fatal("kp")
			}
			w, err := ParseWelcome(v.Welcome)
			if err != nil {
				t.Fatal(err)
			}
			var tree []byte
			if v.Tree != nil {
				tree = *v.Tree
			}
			j, err := Join(ring, w, &Party{kp, Priv{v.Init, v.EncPriv, v.SigPriv}}, tree)
			if err != nil {
				t.Fatalf("%s %d: %v", name, i, err)
			}
			g := j.Group
			if !eq(g.Suite.Derive(g.Epoch, "authentication"), v.Auth) {
				t.Fatalf("%s %d: authenticator", name, i)
			}
			joins++
			for e, ep := range v.Epochs {
				ring.PutEnc(PSKID{Type: 2, GroupID: g.Ctx.GroupID, Epoch: g.Ctx.Epoch}.ringKey(), g.Suite.Derive(g.Epoch, "resumption"))
				for _, p := range ep.Proposals {
					if g, _, err = g.Process(p); err != nil {
						t.Fatalf("%s %d epoch %d: %v", name, i, e, err)
					}
				}
				if g, _, err = g.Process(ep.Commit); err != nil {
					t.Fatalf("%s %d epoch %d: %v", name, i, e, err)
				}
				if !eq(g.Suite.Derive(g.Epoch, "authentication"), ep.Auth) {
					t.Fatalf("%s %d epoch %d: authenticator", name, i, e)
				}
				if err := g.Tree.Verify(g.Suite, g.Ctx.GroupID); err != nil {
					t.Fatalf("%s %d epoch %d: %v", name, i, e, err)
				}
				commits++
			}
		}
		t.Logf("%s: %d joins, %d commits", name, joins, commits)
	}
}

func TestTreeValidation(t *testing.T) {
	var vs []struct {
		Suite       Suite `json:"cipher_suite"`
		Tree        hx    `json:"tree"`
		GroupID     hx    `json:"group_id"`
		Resolutions [][]int
		Hashes      []hx `json:"tree_hashes"`
	}
	load(t, "tree-validation", &vs)
	for i, v := range vs {
		tr, err := ParseTree(v.Tree)
		if err != nil {
			t.Fatal(i, err)
		}
		if !eq(tr.Enc(), v.Tree) {
			t.Fatal(i, "encoding")
		}
		if v.Suite > 3 && v.Suite != 7 {
			continue
		}
		var walk func(s Span)
		walk = func(s Span) {
			res := tr.Resolution(s)
			want := v.Resolutions[s.Index()]
			if len(res) != len(want) {
				t.Fatal(i, "resolution", s)
			}
			for k := range res {
				if res[k].Index() != want[k] {
					t.Fatal(i, "resolution", s)
				}
			}
			if !eq(tr.Hash(v.Suite, s, nil), v.Hashes[s.Index()]) {
				t.Fatal(i, "hash", s)
			}
			if !s.Leaf() {
				walk(s.Left())
				walk(s.Right())
			}
		}
		walk(tr.Root())
		if err := tr.Verify(v.Suite, v.GroupID); err != nil {
			t.Fatal(i, err)
		}
	}
	t.Log(len(vs))
}

func TestTreeOps(t *testing.T) {
	var vs []struct {
		Suite    Suite `json:"cipher_suite"`
		Before   hx    `json:"tree_before"`
		Proposal hx    `json:"proposal"`
		Sender   int   `json:"proposal_sender"`
		After    hx    `json:"tree_after"`
		HBefore  hx    `json:"tree_hash_before"`
		HAfter   hx    `json:"tree_hash_after"`
	}
	load(t, "tree-operations", &vs)
	for i, v := range vs {
		tr, err := ParseTree(v.Before)
		if err != nil {
			t.Fatal(err)
		}
		var p *Proposal
		if err := Decode(v.Proposal, func(r *R) { p = decProposal(r) }); err != nil {
			t.Fatal(err)
		}
		if !eq(p.Enc(), v.Proposal) {
			t.Fatal("proposal encoding")
		}
		n, _ := applyList(tr, []resolved{{p, v.Sender}})
		if !eq(n.Enc(), v.After) || !eq(n.RootHash(v.Suite), v.HAfter) || !eq(tr.RootHash(v.Suite), v.HBefore) || !eq(tr.Enc(), v.Before) {
			t.Fatal(i)
		}
	}
	t.Log(len(vs))
}

func TestSelf(t *testing.T) {
	for _, s := range []Suite{1, 2, 3, 7} {
		ring := NewRing()
		a := NewParty(ring, s, "a", PartyOpts{})
		b := NewParty(ring, s, "b", PartyOpts{})
		c := NewParty(ring, s, "c", PartyOpts{})
		g := CreateGroup(ring, s, []byte("g"), a, NewRng("x"))
		r, err := g.Commit(CommitOpts{Sender: 0, List: []PropOrRef{{Prop: Add(b.KP)}, {Prop: Add(c.KP)}}, Path: true, Rng: NewRng("y")})
		if err != nil {
			t.Fatal(err)
		}
		w, err := r.Next.Welcome(WelcomeOpts{Signer: 0, Parties: []*KeyPackage{b.KP, c.KP}, Path: r.Secrets, Rng: NewRng("z")})
		if err != nil {
			t.Fatal(err)
		}
		for i, p := range []*Party{b, c} {
			j, err := Join(ring, w, p, nil)
			if err != nil {
				t.Fatal(err)
			}
			if j.Leaf != i+1 || !eq(j.Group.Epoch, r.Next.Epoch) {
				t.Fatal("join")
			}
		}
		g = r.Next
		ul := g.UpdateLeaf(2, NewRng("u"), nil, true)
		_, pend, g := g.Propose(2, UpdateWith(ul), Frame{Private: true})
		r, err = g.Commit(CommitOpts{Sender: 1, List: []PropOrRef{{Ref: pend.Ref}}, Path: true, Rng: NewRng("q"), Frame: Frame{Private: true, Gen: 3, Pad: 5, AAD: []byte("aad")}})
		if err != nil {
			t.Fatal(err)
		}
		n, _, err := g.Process(r.Msg)
		if err != nil {
			t.Fatal(err)
		}
		if !eq(n.Epoch, r.Next.Epoch) {
			t.Fatal("epoch")
		}
		if err := n.Tree.Verify(s, []byte("g")); err != nil {
			t.Fatal(err)
		}
	}
}

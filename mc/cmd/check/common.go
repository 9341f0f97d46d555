package main

import (
	"fmt"
	"sort"
	"strings"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

// suites lists the supported cipher suites, the cheapest first.
var suites = []ref.Suite{1, 3, 2, 7}

// gid is the usual group identifier.
var gid = []byte("a group")

// setup runs f as a named case outside of any enumeration and tells whether it
// went without violation.
func setup(r *eng.Run, name string, f func(t *eng.T)) bool {
	only := r.Only
	r.Only = ""
	ok := r.Do(eng.Case{Name: "setup/" + name, Run: f})
	r.Only = only
	return ok && !r.Done()
}

// recipe is a named way to reach a group shape, as a sequence of operations
// starting from a group of n members who all joined at once.
type recipe struct {
	name string
	n    int
	ops  []eng.Op
	at   []int  // positions, if not the first n
	mode string // odd, ctx or bare
}

func path(by int) eng.Op { return eng.Op{By: by, Path: true} }

// recipes covers the structurally different shapes of small groups.
var recipes = []recipe{
	{name: "pair", n: 2},
	{name: "pair-path", n: 2, ops: []eng.Op{path(1)}},
	{name: "three", n: 3, ops: []eng.Op{path(0), path(2)}},
	{name: "four-blank", n: 4},
	{name: "four-full", n: 4, ops: []eng.Op{path(0), path(2), path(3)}},
	{name: "hole", n: 4, ops: []eng.Op{path(0), path(3), {By: 0, Rem: []int{1}, Path: true}}},
	{name: "unmerged", n: 3, ops: []eng.Op{path(0), path(2), {By: 1, Add: 1}}},
	{name: "five", n: 5, ops: []eng.Op{path(0), path(4), path(2)}},
	{name: "five-holes", n: 6, ops: []eng.Op{path(1), path(4), {By: 5, Rem: []int{2}, Path: true}, path(0)}},
	{name: "eight", n: 8, ops: []eng.Op{path(0), path(2), path(4), path(6), path(1), path(7)}},
	{name: "refilled", n: 7, ops: []eng.Op{path(0), path(6), {By: 0, Rem: []int{3, 5}, Path: true}, path(4), {By: 6, Add: 1}}},
}

// far has its members at positions around the limit of eight bits.
var farRecipe = recipe{name: "far", n: 4, at: []int{1, 2, 255, 257}, ops: []eng.Op{path(257), path(1)}}

// deep has a member on either side of every node above the first, so that the
// paths of the first two are as long as the tree is high.
var deepRecipe = recipe{name: "deep", n: 8, at: []int{0, 1, 2, 4, 8, 16, 32, 64}, ops: []eng.Op{path(1), path(64), path(0)}}

// recipeOf finds a recipe by name. "@odd" asks for a group in which everything
// optional is present, "@ctx" for one where this goes for the context only, and
// "@bare" for one in which everything that may be empty is.
func recipeOf(name string) recipe {
	if base, mode, ok := strings.Cut(name, "@"); ok {
		x := recipeOf(base)
		x.name, x.mode = name, mode
		return x
	}
	for _, x := range append([]recipe{farRecipe, deepRecipe}, recipes...) {
		if x.name == name {
			return x
		}
	}
	eng.Harness("no recipe %s", name)
	return recipe{}
}

// build makes the world of a recipe; library groups of every member are
// present.
func (x recipe) build(t *eng.T, s ref.Suite, id []byte) *eng.World {
	label := fmt.Sprintf("%s/%d/%x", x.name, s, id)
	var w *eng.World
	switch {
	case x.at != nil:
		w = farWorld(t, s, x.at, label)
	case x.mode != "":
		w = unusual(t, s, x, label)
	default:
		w = eng.ModelWorld(t, s, id, label, x.n, 3)
	}
	if w == nil {
		return nil
	}
	for k, o := range x.ops {
		w, _ = w.Step(t, o, fmt.Sprintf("%s/%d", label, k))
		w.Complete(t.Run)
	}
	if t.Failed() {
		return nil
	}
	return w
}

// unusual starts a group with uncommon but valid parameters.
func unusual(t *eng.T, s ref.Suite, x recipe, label string) *eng.World {
	var ps []*ref.Party
	ring := ref.NewRing()
	for i := 0; i < x.n; i++ {
		o := ref.PartyOpts{}
		switch {
		case x.mode == "ctx":
		case x.mode == "bare":
			o.Cred = ref.Cred{Type: ref.CredBasic}
			o.Mut = func(kp *ref.KeyPackage) { kp.Leaf.Caps.Exts, kp.Leaf.Caps.Props = nil, nil }
		case i%3 == 0:
			o.Mut = func(kp *ref.KeyPackage) {
				kp.Leaf.Exts = []ref.Ext{{Type: 1, Data: []byte("app")}, {Type: 0xff01, Data: make([]byte, 70)}}
				kp.Leaf.Caps.Exts = []uint16{0x0a0a, 0xff01}
			}
		default:
			o.Cred = ref.Cred{Type: ref.CredBasic, Identity: make([]byte, 300)}
			o.Mut = func(kp *ref.KeyPackage) {
				kp.Exts = []ref.Ext{{Type: 0xff03, Data: []byte{0}}}
				kp.Leaf.Caps.Suites = []uint16{0x0a0a, uint16(s), 0xfafa}
				kp.Leaf.Caps.Creds = []uint16{0x1a1a, 2, 1}
			}
		}
		ps = append(ps, ref.NewParty(ring, s, fmt.Sprintf("%s/m%d", label, i), o))
	}
	id, epoch := []byte{}, uint64(1)
	if x.mode != "bare" {
		id, epoch = append(make([]byte, 299), 1), 1<<32-1
	}
	g := ref.CreateGroup(ring, s, id, ps[0], ref.NewRng("create", label))
	for _, p := range ps[1:] {
		g.Tree = g.Tree.Copy()
		g.Tree.AddLeaf(p.KP.Leaf)
	}
	if x.mode != "bare" {
		// without requirements and without external senders
		g.Ctx.Exts = []ref.Ext{{Type: 3, Data: []byte{0, 0, 0}}, {Type: 5, Data: []byte{0}}}
	}
	return eng.FromModel(t, eng.Reseed(g, epoch, label), label, ps, nil)
}

// shapes builds the named recipes as the starting points of a check.
func shapes(r *eng.Run, s ref.Suite, names ...string) map[string]*eng.World {
	out := map[string]*eng.World{}
	for _, n := range names {
		n := n
		setup(r, fmt.Sprintf("%s/%d", n, s), func(t *eng.T) {
			if w := recipeOf(n).build(t, s, gid); w != nil {
				out[n] = w
			}
		})
	}
	return out
}

func keys(m map[string]*eng.World) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func has(v []int, x int) bool {
	for _, y := range v {
		if x == y {
			return true
		}
	}
	return false
}

func others(v []int, x int) (out []int) {
	for _, y := range v {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func eq(a, b []byte) bool { return string(a) == string(b) }

func inline(ps ...*ref.Proposal) (out []ref.PropOrRef) {
	for _, p := range ps {
		out = append(out, ref.PropOrRef{Prop: p})
	}
	return out
}

// attack is a message that must be rejected, after the messages in pre have
// been offered (and possibly rejected themselves).
type attack struct {
	name string
	pre  [][]byte
	msg  []byte
}

// refuses checks that the library member at leaf i refuses the attack.
func refuses(t *eng.T, w *eng.World, i int, a attack) {
	c := eng.Clone(w.R[i])
	t.Transition()
	t.Case(a.msg)
	for _, p := range a.pre {
		if _, err := eng.Proc(c, p); eng.Panicked(err) {
			t.Fail("%s: leaf %d: %v", a.name, i, err)
			return
		}
	}
	if _, err := eng.Proc(c, a.msg); err == nil {
		t.Fail("%s: accepted by leaf %d", a.name, i)
	} else if eng.Panicked(err) {
		t.Fail("%s: leaf %d: %v at %s", a.name, i, err, err.(*eng.PanicErr).Where())
	}
	t.Count("refused")
}

// accepts checks that the library member at leaf i takes a message, and
// returns its group afterwards (nil on failure).
func accepts(t *eng.T, w *eng.World, i int, a attack) *mls.Group {
	c := eng.Clone(w.R[i])
	t.Transition()
	for _, p := range a.pre {
		if _, err := eng.Proc(c, p); err != nil {
			t.Fail("%s: leaf %d rejects valid proposal: %v", a.name, i, err)
			return nil
		}
	}
	if _, err := eng.Proc(c, a.msg); err != nil {
		t.Fail("%s: rejected by leaf %d: %v", a.name, i, err)
		return nil
	}
	t.Count("accepted")
	return c
}

// reads checks that a library group shares the model's epoch, in both
// directions.
func reads(t *eng.T, g *ref.Group, i int, c *mls.Group, what string) bool {
	t.Trace()
	members := g.Tree.Members()
	q := members[0]
	if q == i && len(members) > 1 {
		q = members[1]
	}
	if data, err := eng.Proc(c, g.App(q, []byte(what), ref.Frame{Pad: 3})); err != nil || string(data) != what {
		t.Fail("%s: leaf %d cannot read leaf %d: %v", what, i, q, err)
		return false
	}
	msg, err := eng.Send(c, []byte(what))
	if err != nil {
		t.Fail("%s: leaf %d cannot send: %v", what, i, err)
		return false
	}
	rv, err := g.Receive(msg)
	if err != nil || rv.Sender != i || string(rv.App) != what {
		t.Fail("%s: others cannot read leaf %d: %v", what, i, err)
		return false
	}
	return true
}

// follows checks that a library group can process a path commit by each of the
// other members, which takes the private keys it ought to hold.
func follows(t *eng.T, g *ref.Group, i int, c *mls.Group, what string) {
	for _, q := range others(g.Tree.Members(), i) {
		res, err := g.Commit(ref.CommitOpts{Sender: q, Path: true, Rng: ref.NewRng("follows", what, q)})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		if g.SigPriv(q) == nil {
			continue
		}
		n := eng.Clone(c)
		t.Transition()
		if _, err := eng.Proc(n, res.Msg); err != nil {
			t.Fail("%s: leaf %d then rejects a path commit by leaf %d: %v", what, i, q, err)
			return
		}
		reads(t, res.Next, i, n, what+" followed")
	}
}

// otherSuite is a supported cipher suite that is not s.
func otherSuite(s ref.Suite) ref.Suite {
	if s == 1 {
		return 3
	}
	return 1
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

package eng

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	mls "github.com/emersion/go-mls"

	"verif/mc/ref"
)

// StepLib lets the library member at leaf by invite n newcomers; everybody
// processes the commit and the newcomers join.
func (w *World) StepLib(t *T, by, n int, label string) *World {
	t.Transition()
	next := &World{R: map[int]*mls.Group{}, Kind: map[int]byte{}}
	var ps []*ref.Party
	var kps [][]byte
	for k := 0; k < n; k++ {
		p := ref.NewParty(w.M.Ring, w.M.Suite, fmt.Sprintf("%s/lib%d/%d", label, by, k), ref.PartyOpts{})
		ps = append(ps, p)
		kps = append(kps, p.KP.Msg())
	}
	inviter := Clone(w.R[by])
	wel, commit, err := InviteRaw(inviter, kps...)
	if err != nil {
		t.Fail("%s: leaf %d in state %s cannot invite %d: %v", label, by, w.Key(), n, err)
		return nil
	}
	next.Commit, next.Welcome = commit, wel
	next.M = CheckInvite(t, w.M, by, wel, commit, ps, label)
	if next.M == nil {
		return nil
	}
	for _, i := range w.Leaves() {
		c := inviter
		if i != by {
			c = Clone(w.R[i])
		}
		if _, err := Proc(c, commit); err != nil {
			t.Fail("%s: leaf %d in state %s rejects invitation commit of leaf %d: %v", label, i, w.Key(), by, err)
			continue
		}
		next.R[i], next.Kind[i] = c, w.Kind[i]
	}
	for k, p := range ps {
		g, err := Join(wel, p)
		if err != nil {
			t.Fail("%s: invitee %d of leaf %d in state %s cannot join: %v", label, k, by, w.Key(), err)
			continue
		}
		li := leafOf(next.M.Tree, p.KP.Leaf.EncKey)
		next.R[li], next.Kind[li] = g, 'w'
	}
	return next
}

// Move is an operation by the model (Op) or an invitation by the library.
type Move struct {
	Op
	Lib bool
}

func (m Move) String() string {
	if m.Lib {
		return fmt.Sprintf("lib%d+a%d", m.By, m.Add)
	}
	return m.Op.String()
}

// Apply performs a move.
func (w *World) Apply(t *T, m Move, label string) (*World, *Built) {
	if m.Lib {
		return w.StepLib(t, m.By, m.Add, label), nil
	}
	return w.Step(t, m.Op, label)
}

// AllOps enumerates every combination of updates and removals of the other
// members, additions up to maxAdd, with and without path, keeping the group
// within maxMembers. Framing is assigned by frame(k) to the k-th operation.
func AllOps(w *World, maxMembers, maxAdd int, frame func(k int, o Op) []Op) (out []Move) {
	members := w.M.Tree.Members()
	k := 0
	add := func(o Op) {
		for _, f := range frame(k, o) {
			out = append(out, Move{Op: f})
		}
		k++
	}
	for _, by := range members {
		var others []int
		for _, m := range members {
			if m != by {
				others = append(others, m)
			}
		}
		n := 1
		for range others {
			n *= 3
		}
		for code := 0; code < n; code++ {
			o := Op{By: by}
			c := code
			for _, m := range others {
				switch c % 3 {
				case 1:
					o.Upd = append(o.Upd, m)
				case 2:
					o.Rem = append(o.Rem, m)
				}
				c /= 3
			}
			for a := 0; a <= maxAdd && len(members)-len(o.Rem)+a <= maxMembers; a++ {
				o.Add = a
				o.Path = true
				add(o)
				if !o.NeedsPath() {
					o.Path = false
					add(o)
				}
			}
		}
		if _, ok := w.R[by]; ok {
			for a := 1; a <= maxAdd && len(members)+a <= maxMembers; a++ {
				out = append(out, Move{Op: Op{By: by, Add: a}, Lib: true})
			}
		}
	}
	return out
}

// Frames enumerates all framings of an operation.
func Frames(o Op) (out []Op) {
	for m := 0; m < 16; m++ {
		f := o
		f.Priv, f.Ref, f.RefPriv, f.NewSig = m&1 > 0, m&2 > 0, m&4 > 0, m&8 > 0
		if f.RefPriv && !f.Ref && len(f.Upd) == 0 {
			continue
		}
		if f.NewSig && !f.Path {
			continue
		}
		if f.Ref && len(f.Rem)+f.Add == 0 {
			continue
		}
		out = append(out, f)
	}
	return out
}

// OneFrame assigns the k-th operation one of the framings in rotation.
func OneFrame(k int, o Op) []Op {
	fs := Frames(o)
	f := fs[k%len(fs)]
	f.Rev = k%3 == 2
	if k%5 == 1 {
		f.Pad, f.AAD = 1+k%70, "aad"
	}
	return []Op{f}
}

// AllFrames assigns every framing.
func AllFrames(k int, o Op) []Op { return Frames(o) }

// Node is a state in an exploration.
type Node struct {
	W    *World
	Path string
}

// Explore runs a breadth-first search over canonical states. moves enumerates
// the transitions of a state; check is called on every transition with the
// resulting world (nil if the move itself failed). New states continue the
// search up to depth levels (0: to the fixpoint).
func (r *Run) Explore(init []Node, depth int, key func(w *World) string, moves func(w *World) []Move, onState func(t *T, n Node), check func(t *T, from Node, m Move, to *World, b *Built)) {
	var mu sync.Mutex
	seen := map[string]bool{}
	var frontier []Node
	id := func(n Node) string { return fmt.Sprint(n.W.M.Suite) + key(n.W) }
	enter := func(n Node) bool {
		k := id(n)
		if seen[k] {
			return false
		}
		seen[k] = true
		r.State()
		if len(seen)%37 == 1 {
			r.Sample("state", n.Path+" -> "+n.W.Key())
		}
		return true
	}
	match := func(p string) bool {
		return r.Only == "" || strings.HasPrefix(r.Only, p) || strings.HasPrefix(p, r.Only)
	}
	var fresh []Node
	for _, n := range init {
		if match(n.Path) && enter(n) {
			fresh = append(fresh, n)
		}
	}
	for level := 0; len(fresh) > 0; level++ {
		frontier, fresh = fresh, nil
		type job struct {
			n Node
			m Move
		}
		var jobs []job
		for _, n := range frontier {
			if onState != nil {
				jobs = append(jobs, job{n: n, m: Move{Op: Op{By: -1}}})
			}
			if depth > 0 && level >= depth {
				continue
			}
			for _, m := range moves(n.W) {
				jobs = append(jobs, job{n, m})
			}
		}
		// a state is represented by the first job that leads to it, whatever
		// order the jobs end in
		found := map[string]int{}
		reached := map[int]Node{}
		Par(len(jobs), func(i int) {
			if r.Done() {
				return
			}
			j := jobs[i]
			if j.m.By < 0 {
				if match(j.n.Path + "/state") {
					r.doAny(Case{j.n.Path + "/state", func(t *T) { onState(t, j.n) }})
				}
				return
			}
			name := j.n.Path + "/" + j.m.String()
			if !match(name) {
				return
			}
			var to *World
			r.doAny(Case{name, func(t *T) {
				var b *Built
				to, b = j.n.W.Apply(t, j.m, name)
				if check != nil {
					check(t, j.n, j.m, to, b)
				}
			}})
			if to != nil && len(to.R) > 0 {
				n := Node{to, name}
				k := id(n)
				mu.Lock()
				if old, ok := found[k]; !seen[k] && (!ok || i < old) {
					delete(reached, old)
					found[k], reached[i] = i, n
				}
				mu.Unlock()
			}
		})
		var order []int
		for i := range reached {
			order = append(order, i)
		}
		sort.Ints(order)
		for _, i := range order {
			if enter(reached[i]) {
				fresh = append(fresh, reached[i])
			}
		}
		Par(len(fresh), func(i int) { fresh[i].W.Complete(r) })
		if r.Done() {
			return
		}
	}
}

// doAny is Do without the name filter, which Explore applies itself.
func (r *Run) doAny(c Case) bool {
	if r.Done() {
		return true
	}
	t := r.exec(c, false)
	if len(t.fails) == 0 {
		return true
	}
	if r.OnViolation != nil {
		r.report(c.Name, strings.Join(t.fails, "; "), 0, 5)
		r.OnViolation()
	}
	again := 0
	for i := 0; i < 5; i++ {
		if u := r.exec(c, true); len(u.fails) > 0 {
			again++
		}
	}
	r.report(c.Name, strings.Join(t.fails, "; "), again, 5)
	return false
}

// SmallOps enumerates, per committer, a path alone, each single update, each
// single removal, an addition with and without path, and a removal together
// with an addition.
func SmallOps(w *World, maxMembers int, frame func(k int, o Op) []Op) (out []Move) {
	members := w.M.Tree.Members()
	k := 0
	add := func(o Op) {
		for _, f := range frame(k, o) {
			out = append(out, Move{Op: f})
		}
		k++
	}
	for _, by := range members {
		add(Op{By: by, Path: true})
		if len(members) < maxMembers {
			add(Op{By: by, Add: 1, Path: true})
			add(Op{By: by, Add: 1})
			if _, ok := w.R[by]; ok {
				out = append(out, Move{Op: Op{By: by, Add: 1}, Lib: true})
			}
		}
		for _, m := range members {
			if m == by {
				continue
			}
			add(Op{By: by, Upd: []int{m}, Path: true})
			add(Op{By: by, Rem: []int{m}, Path: true})
			add(Op{By: by, Rem: []int{m}, Add: 1, Path: true})
		}
	}
	return out
}

package main

import (
	"fmt"
	"math/big"
	"testing"
	"testing/synctest"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C19"] = check{"model_checking", eng.Meta{
		Rule: "a state is an assignment of current time, start and end of a lifetime (on a controlled clock) together with a way for the key package to reach a member; a transition is the library's decision on it, compared with the definition of a lifetime in arbitrary precision",
		Assumptions: []string{
			"within the very second at which a lifetime ends the decision is left open",
			"the permitted maximum is the 90 days the library states; lifetimes of 90 days are accepted, of 90 days and a second are not",
		},
	}, c19}
}

// clocked runs a case on a fake clock set to the given time.
func clocked(emit func(eng.Case), name string, at time.Time, run func(t *eng.T)) {
	emit(eng.Case{Name: name, Run: func(t *eng.T) {
		var p interface{}
		synctest.Test(tt, func(*testing.T) {
			defer func() { p = recover() }()
			time.Sleep(time.Until(at))
			if !time.Now().Equal(at) {
				eng.Harness("clock at %v", time.Now())
			}
			run(t)
		})
		if p != nil {
			panic(p)
		}
	}})
}

const maxLife = 90 * 86400

type verdict int

const (
	invalid verdict = iota
	valid
	open
)

// judgeLife is the definition.
func judgeLife(now time.Time, start, end uint64) verdict {
	s, e := new(big.Int).SetUint64(start), new(big.Int).SetUint64(end)
	d := new(big.Int).Sub(e, s)
	if d.Sign() <= 0 || d.Cmp(big.NewInt(maxLife)) > 0 {
		return invalid
	}
	sec := big.NewInt(now.Unix()) // rounded down
	if sec.Cmp(s) < 0 || sec.Cmp(e) > 0 {
		return invalid
	}
	if sec.Cmp(e) == 0 {
		return open
	}
	return valid
}

func lifetimes(now int64, small bool) (out [][2]uint64) {
	var marks []uint64
	ds := []int64{-maxLife - 2, -maxLife - 1, -maxLife, -maxLife + 1, -86400, -2, -1, 0, 1, 2, 86400, maxLife - 2, maxLife - 1, maxLife, maxLife + 1, maxLife + 2}
	if small {
		ds = []int64{-maxLife, -1, 0, 1, maxLife - 1, maxLife, maxLife + 1}
	}
	for _, d := range ds {
		marks = append(marks, uint64(now+d))
	}
	if !small {
		marks = append(marks, 0, 1, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<63-1, 1<<63, 1<<64-2, 1<<64-1)
		// what becomes of the present when a bit is lost
		for _, b := range []uint{31, 32, 62, 63} {
			marks = append(marks, uint64(now)^1<<b, uint64(now+100)^1<<b)
		}
	}
	for _, a := range marks {
		for _, b := range marks {
			out = append(out, [2]uint64{a, b})
		}
	}
	// lengths that wrap around when counted in nano-, micro- or milliseconds,
	// or that lose bits
	for _, a := range []int64{-86400, -1, 0} {
		for _, d := range []uint64{1<<63/1000000000 - 1, 1<<63/1000000000 + 1, 1<<64/1000000000 + 1, 1<<64/1000000000 + 90000, 1<<65/1000000000 + 90000,
			1<<31 + 90000, 1<<32 + 90000, 1<<33 + 90000, 1<<53 + 90000, 1<<54 + 90000, 1<<55 + 90000, 1<<56 + 90000, 1<<58 + 90000, 1<<61 + 90000, 1<<62 + 90000, 1<<63 + 90000} {
			out = append(out, [2]uint64{uint64(now + a), uint64(now+a) + d})
		}
	}
	return out
}

// lifeWorld is a group on the present clock.
func lifeWorld(t *eng.T, s ref.Suite, shape string) *eng.World {
	w := recipeOf(shape).build(t, s, gid)
	if w == nil {
		eng.Harness("no group: %v", t.Failed())
	}
	return w
}

func withLife(ring *ref.Ring, s ref.Suite, name string, life [2]uint64) *ref.Party {
	return ref.NewParty(ring, s, name, ref.PartyOpts{Mut: func(kp *ref.KeyPackage) {
		kp.Leaf.NotBefore, kp.Leaf.NotAfter = life[0], life[1]
	}})
}

func decide(t *eng.T, v verdict, what string, err error) {
	t.Transition()
	switch {
	case eng.Panicked(err):
		t.Fail("%s: %v", what, err)
	case v == valid && err != nil:
		t.Fail("%s: refused although within its lifetime: %v", what, err)
	case v == invalid && err == nil:
		t.Fail("%s: accepted", what)
	case v == open:
		t.Count("left open")
	case err == nil:
		t.Count("accepted")
	default:
		t.Count("refused")
	}
}

func c19(r *eng.Run) {
	base := time.Date(2000, 6, 1, 12, 0, 0, 0, time.UTC)
	type conf struct {
		s     ref.Suite
		shape string
		at    time.Time
		small bool
	}
	var confs []conf
	for _, frac := range []time.Duration{0, 1, 500 * time.Millisecond, time.Second - 1} {
		confs = append(confs, conf{1, "three", base.Add(frac), frac == 1 && !r.Thorough()})
	}
	confs = append(confs, conf{1, "three", time.Unix(1<<31-1, 0), true}, conf{1, "three", time.Unix(1<<31, 0), true}, conf{1, "three", time.Unix(1<<32-1, 0), true},
		conf{1, "three", time.Unix(1<<32+5, 0), true}, conf{1, "five-holes", base, true}, conf{1, "unmerged", base.Add(time.Millisecond), true})
	for _, s := range suites[1:] {
		confs = append(confs, conf{s, "three", base, !r.Thorough()})
	}
	if r.Thorough() {
		for _, x := range recipes {
			confs = append(confs, conf{1, x.name, base.Add(time.Second / 4), false})
		}
	}
	r.All(func(emit func(eng.Case)) {
		for k, c := range confs {
			c := c
			name := fmt.Sprintf("%d/s%d/%s/%d", k, c.s, c.shape, c.at.UnixNano())
			ls := lifetimes(c.at.Unix(), c.small)
			const size = 60
			for lo := 0; lo < len(ls); lo += size {
				part := ls[lo:min(lo+size, len(ls))]
				each := func(way string, f func(t *eng.T, w *eng.World, life [2]uint64, what string)) {
					clocked(emit, fmt.Sprintf("%s/%s/%d", name, way, lo), c.at, func(t *eng.T) {
						w := lifeWorld(t, c.s, c.shape)
						for _, l := range part {
							if t.Failed() || r.Done() {
								return
							}
							t.State()
							f(t, w, l, fmt.Sprintf("%s: lifetime %d to %d", name, l[0], l[1]))
						}
						t.Sample("lifetimes", fmt.Sprintf("%s %s: %d", name, way, part[:3]))
					})
				}
				each("add", lifeAdd)
				each("join", lifeJoin)
			}
		}
		for _, s := range suites {
			s := s
			for _, frac := range []time.Duration{0, 1, 300 * time.Millisecond, time.Second - 1} {
				name := fmt.Sprintf("generated/s%d/%d", s, frac)
				clocked(emit, name, base.Add(frac), func(t *eng.T) { lifeGenerated(t, s, name) })
			}
			clocked(emit, fmt.Sprintf("passing/s%d", s), base, func(t *eng.T) { lifePassing(t, s) })
		}
		for k, l := range crowdLives(base.Unix()) {
			l := l
			for _, n := range []int{12, r.Pick(40, 100)} {
				name := fmt.Sprintf("crowd/%d/%d", n, k)
				clocked(emit, name, base, func(t *eng.T) { lifeCrowd(t, n, l, name) })
			}
		}
	})
}

// lifeAdd lets a newcomer be added in every way.
func lifeAdd(t *eng.T, w *eng.World, life [2]uint64, what string) {
	g := w.M
	s := g.Suite
	v := judgeLife(time.Now(), life[0], life[1])
	p := withLife(g.Ring, s, "newcomer", life)
	ok := ref.NewParty(g.Ring, s, "ordinary", ref.PartyOpts{})
	members := g.Tree.Members()
	by := members[0]
	var target int
	for _, m := range members {
		if m != by {
			target = m
		}
	}
	pm, pend, ng := g.Propose(by, ref.Add(p.KP), ref.Frame{})
	pm2, pend2, ng2 := g.Propose(members[1], ref.Add(p.KP), ref.Frame{Private: true, Gen: 5})
	forms := []struct {
		name string
		base *ref.Group
		pre  [][]byte
		list []ref.PropOrRef
		path bool
	}{
		{"inline", g, nil, inline(ref.Add(p.KP)), false},
		{"inline with path", g, nil, inline(ref.Add(p.KP)), true},
		{"by reference", ng, [][]byte{pm}, []ref.PropOrRef{{Ref: pend.Ref}}, false},
		{"by another's reference with path", ng2, [][]byte{pm2}, []ref.PropOrRef{{Ref: pend2.Ref}}, true},
		{"after another", g, nil, inline(ref.Add(ok.KP), ref.Add(p.KP)), false},
		{"before another", g, nil, inline(ref.Add(p.KP), ref.Add(ok.KP)), true},
		{"with a removal", g, nil, inline(ref.Remove(target), ref.Add(p.KP)), true},
	}
	for k, f := range forms {
		res, err := f.base.Commit(ref.CommitOpts{Sender: by, List: f.list, Path: f.path, Frame: ref.Frame{Private: k%2 == 1}, Rng: ref.NewRng("life", what, k)})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		for _, i := range others(members, by) {
			if i == target && f.name == "with a removal" {
				continue
			}
			c := eng.Clone(w.R[i])
			for _, m := range f.pre {
				// the proposal itself may be refused or kept
				if _, err := eng.Proc(c, m); v == valid && err != nil {
					t.Fail("%s %s: proposal refused: %v", what, f.name, err)
				}
			}
			_, err := eng.Proc(c, res.Msg)
			decide(t, v, fmt.Sprintf("%s %s by leaf %d", what, f.name, i), err)
			if err == nil && v == valid && i == 1 {
				reads(t, res.Next, i, c, what)
			}
		}
	}
	// the library invites: it refuses, or nobody takes the commit
	inv := eng.Clone(w.R[by])
	_, commit, err := eng.InviteRaw(inv, p.KP.Msg())
	if err == nil {
		_, err = eng.Proc(inv, commit)
		decide(t, v, what+" invited, by the inviter", err)
		for _, i := range others(members, by) {
			_, err := eng.Proc(eng.Clone(w.R[i]), commit)
			decide(t, v, fmt.Sprintf("%s invited, by leaf %d", what, i), err)
		}
	} else {
		decide(t, v, what+" invited", err)
	}
}

// crowdLives has a lifetime of each kind.
func crowdLives(now int64) [][2]uint64 {
	n := uint64(now)
	return [][2]uint64{{n - 3600, n + 3600}, {n - 7200, n - 3600}, {n + 3600, n + 7200}, {n + 60, n - 60}, {0, 1<<63 - 1}}
}

// lifeCrowd puts an entry of the given lifetime at every place among many.
func lifeCrowd(t *eng.T, n int, life [2]uint64, what string) {
	w := lifeWorld(t, 1, "three")
	g := w.M
	v := judgeLife(time.Now(), life[0], life[1])
	p := withLife(g.Ring, 1, "newcomer", life)
	me := ref.NewParty(g.Ring, 1, "me", ref.PartyOpts{})
	var crowd []*ref.Proposal
	for k := 0; k < n; k++ {
		crowd = append(crowd, ref.Add(ref.NewParty(g.Ring, 1, fmt.Sprintf("%s/%d", what, k), ref.PartyOpts{}).KP))
	}
	for pos := 0; pos <= n; pos++ {
		list := append(append(append([]*ref.Proposal{}, crowd[:pos]...), ref.Add(p.KP)), crowd[pos:]...)
		res, err := g.Commit(ref.CommitOpts{Sender: 0, List: inline(list...), Path: pos%2 == 0, Rng: ref.NewRng(what, pos)})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		t.State()
		t.Case([]byte(fmt.Sprint(what, pos)))
		for _, i := range []int{1, 2} {
			c := eng.Clone(w.R[i])
			_, err := eng.Proc(c, res.Msg)
			decide(t, v, fmt.Sprintf("%s at %d by leaf %d", what, pos, i), err)
		}
		next, err := res.Next.Commit(ref.CommitOpts{Sender: 1, List: inline(ref.Add(me.KP)), Rng: ref.NewRng(what, "me")})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		wel, err := next.Next.Welcome(ref.WelcomeOpts{Signer: 1, Parties: []*ref.KeyPackage{me.KP}, Rng: ref.NewRng(what, "welcome")})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		_, err = eng.Join(wel.Msg(), me)
		decide(t, v, fmt.Sprintf("%s at %d of a group being joined", what, pos), err)
		if t.Failed() {
			return
		}
	}
	t.Sample("crowd", what)
}

// lifeJoin lets newcomers join groups with an entry of the given lifetime: one
// that joined earlier, one that joins along, or the newcomer itself.
func lifeJoin(t *eng.T, w *eng.World, life [2]uint64, what string) {
	g := w.M
	s := g.Suite
	v := judgeLife(time.Now(), life[0], life[1])
	other := withLife(g.Ring, s, "other", life)
	me := ref.NewParty(g.Ring, s, "me", ref.PartyOpts{})
	mine := withLife(g.Ring, s, "mine", life)
	by := g.Tree.Members()[0]
	commit := func(g *ref.Group, path bool, kps ...*ref.KeyPackage) *ref.CommitResult {
		var ps []*ref.Proposal
		for _, kp := range kps {
			ps = append(ps, ref.Add(kp))
		}
		res, err := g.Commit(ref.CommitOpts{Sender: by, List: inline(ps...), Path: path, Rng: ref.NewRng("lifej", what, len(ps))})
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		return res
	}
	try := func(how string, res *ref.CommitResult, path bool, p *ref.Party) {
		o := ref.WelcomeOpts{Signer: by, Parties: []*ref.KeyPackage{p.KP}, Rng: ref.NewRng("lifew", what)}
		if path {
			o.Path = res.Secrets
		}
		wel, err := res.Next.Welcome(o)
		if err != nil {
			eng.Harness("%s: %v", what, err)
		}
		t.Case([]byte(what + how))
		c, err := eng.Join(wel.Msg(), p)
		decide(t, v, what+" "+how, err)
		if err == nil && v == valid {
			reads(t, res.Next, leafOf(res.Next, p), c, what+" "+how)
		}
	}
	earlier := commit(g, false, other.KP)
	for _, path := range []bool{false, true} {
		try("joined earlier", commit(earlier.Next, path, me.KP), path, me)
		try("joins along", commit(g, path, other.KP, me.KP), path, me)
		try("joins along, after", commit(g, path, me.KP, other.KP), path, me)
		try("is the newcomer", commit(g, path, mine.KP), path, mine)
	}
}

// lifeGenerated follows generated packages through their lives.
func lifeGenerated(t *eng.T, s ref.Suite, name string) {
	born := time.Now()
	kpp, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s), mls.NewBasicCredential([]byte("x")))
	if err != nil {
		t.Fail("generate: %v", err)
		return
	}
	p, err := eng.Party(kpp)
	if err != nil {
		t.Fail("generate: %v", err)
		return
	}
	l := p.KP.Leaf
	if v := judgeLife(born, l.NotBefore, l.NotAfter); v != valid {
		t.Fail("%s: lifetime %d to %d, generated at %v", name, l.NotBefore, l.NotAfter, born)
		return
	}
	end := time.Unix(int64(l.NotAfter), 0)
	for _, at := range []time.Time{born, born.Add(1), born.Add(time.Second), born.Add(time.Hour), born.Add(25 * time.Hour), end.Add(-time.Second), end.Add(-1), end.Add(time.Second), end.Add(time.Hour)} {
		if at.Before(time.Now()) {
			continue
		}
		time.Sleep(time.Until(at))
		t.State()
		// the group is young
		v := judgeLife(at, l.NotBefore, l.NotAfter)
		w := lifeWorld(t, s, "three")
		what := fmt.Sprintf("%s: %v after generation", name, at.Sub(born))
		res, err := w.M.Commit(ref.CommitOpts{Sender: 0, List: inline(ref.Add(p.KP)), Rng: ref.NewRng("lifeg", what)})
		if err != nil {
			eng.Harness("%v", err)
		}
		for _, i := range []int{1, 2} {
			_, err := eng.Proc(eng.Clone(w.R[i]), res.Msg)
			decide(t, v, what, err)
		}
		wel, err := res.Next.Welcome(ref.WelcomeOpts{Signer: 0, Parties: []*ref.KeyPackage{p.KP}, Rng: ref.NewRng("lifeg", what)})
		if err != nil {
			eng.Harness("%v", err)
		}
		lw, err := mls.UnmarshalWelcome(wel.Msg())
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		_, err = join(lw, kpp)
		decide(t, v, what+" (join)", err)
		// two library members
		o, err := mls.GenerateKeyPairPackage(mls.CipherSuite(s), mls.NewBasicCredential([]byte("o")))
		if err != nil {
			t.Fail("%s: %v", what, err)
			return
		}
		g, err := mls.CreateGroup(gid, o)
		if err != nil {
			t.Fail("%s: create: %v", what, err)
			return
		}
		iw, commit, err := eng.Invite(g, []mls.KeyPackage{kpp.Public})
		if err == nil {
			_, err = eng.Proc(g, commit)
		}
		if err == nil {
			_, err = join(iw, kpp)
		}
		decide(t, v, what+" (library only)", err)
	}
}

// lifePassing lets time pass between steps.
func lifePassing(t *eng.T, s ref.Suite) {
	w := lifeWorld(t, s, "unmerged")
	g := w.M
	now := uint64(time.Now().Unix())
	// proposed while valid, committed when expired
	p := withLife(g.Ring, s, "short", [2]uint64{now - 10, now + 60})
	for _, wait := range []time.Duration{0, 30 * time.Second, 29 * time.Second, 3 * time.Second, 10 * time.Second} {
		pm, pend, ng := g.Propose(0, ref.Add(p.KP), ref.Frame{AAD: []byte(wait.String())})
		res, err := ng.Commit(ref.CommitOpts{Sender: 2, List: []ref.PropOrRef{{Ref: pend.Ref}}, Path: true, Rng: ref.NewRng("pass", wait)})
		if err != nil {
			eng.Harness("%v", err)
		}
		t.State()
		c := eng.Clone(w.R[1])
		if _, err := eng.Proc(c, pm); err != nil && judgeLife(time.Now(), p.KP.Leaf.NotBefore, p.KP.Leaf.NotAfter) == valid {
			t.Fail("proposal refused: %v", err)
			return
		}
		time.Sleep(wait)
		_, err = eng.Proc(c, res.Msg)
		decide(t, judgeLife(time.Now(), p.KP.Leaf.NotBefore, p.KP.Leaf.NotAfter), fmt.Sprintf("committed %v after the proposal", wait), err)
	}
	// members whose packages have expired since they joined stay members:
	// their commits and those of others are processed
	for _, wait := range []time.Duration{61 * 24 * time.Hour, 400 * 24 * time.Hour} {
		time.Sleep(wait)
		t.State()
		for _, by := range g.Tree.Members() {
			res, err := g.Commit(ref.CommitOpts{Sender: by, Path: true, Rng: ref.NewRng("late", by)})
			if err != nil {
				eng.Harness("%v", err)
			}
			young := ref.NewParty(g.Ring, s, fmt.Sprintf("young%d", by), ref.PartyOpts{})
			res2, err := g.Commit(ref.CommitOpts{Sender: by, List: inline(ref.Add(young.KP)), Rng: ref.NewRng("late2", by)})
			if err != nil {
				eng.Harness("%v", err)
			}
			for _, i := range others(g.Tree.Members(), by) {
				for k, r := range []*ref.CommitResult{res, res2} {
					c := eng.Clone(w.R[i])
					_, err := eng.Proc(c, r.Msg)
					decide(t, valid, fmt.Sprintf("commit %d by leaf %d, %v later", k, by, wait), err)
					if err == nil {
						reads(t, r.Next, i, c, "later")
					}
				}
			}
		}
		// but nobody joins them any more while such entries remain
		young := ref.NewParty(g.Ring, s, "young", ref.PartyOpts{})
		res, err := g.Commit(ref.CommitOpts{Sender: 0, List: inline(ref.Add(young.KP)), Rng: ref.NewRng("late3")})
		if err != nil {
			eng.Harness("%v", err)
		}
		wel, err := res.Next.Welcome(ref.WelcomeOpts{Signer: 0, Parties: []*ref.KeyPackage{young.KP}, Rng: ref.NewRng("late3")})
		if err != nil {
			eng.Harness("%v", err)
		}
		_, err = eng.Join(wel.Msg(), young)
		decide(t, invalid, "join among expired entries", err)
	}
}

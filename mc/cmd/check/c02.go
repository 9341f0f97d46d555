package main

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C02"] = check{"model_checking", eng.Meta{
		Rule: "a state is a group (cipher suite, tree shape); a transition is one application message created by a member and delivered to one receiver; a trace is a message carried between the library and the reference model or between two library members and compared byte by byte",
		Assumptions: []string{
			"payload contents are opaque to the library except for their length and trailing zero bytes",
		},
	}, c02}
}

// carry sends data from every given sender to every given receiver, library to
// library, library to model and model to library.
func carry(t *eng.T, w *eng.World, senders, receivers []int, data []byte, f ref.Frame, what string) {
	for _, q := range senders {
		var msgs [][]byte
		if g := w.R[q]; g != nil {
			keep := append([]byte{}, data...)
			msg, err := eng.Send(g, data)
			if err != nil {
				t.Fail("%s: leaf %d cannot send %d bytes: %v", what, q, len(data), err)
				return
			}
			if !bytes.Equal(keep, data) {
				t.Fail("%s: sending alters the payload", what)
			}
			t.Trace()
			if rv, err := w.M.Receive(msg); err != nil {
				t.Fail("%s: model cannot read %d bytes from leaf %d: %v", what, len(data), q, err)
			} else if rv.Sender != q || !bytes.Equal(rv.App, data) {
				t.Fail("%s: model reads something else from leaf %d", what, q)
			}
			msgs = append(msgs, msg)
		}
		msgs = append(msgs, w.M.App(q, data, f))
		for k, msg := range msgs {
			keep := append([]byte{}, msg...)
			for _, i := range receivers {
				if w.R[i] == nil {
					continue
				}
				t.Transition()
				t.Trace()
				got, err := eng.Proc(w.R[i], msg)
				if err != nil {
					t.Fail("%s: leaf %d cannot read %d bytes from leaf %d (%d): %v", what, i, len(data), q, k, err)
					return
				}
				if !bytes.Equal(got, data) {
					t.Fail("%s: leaf %d reads %d bytes from leaf %d, want %d (%d)", what, i, len(got), q, len(data), k)
					return
				}
			}
			if !bytes.Equal(keep, msg) {
				t.Fail("%s: receiving alters the message", what)
			}
		}
	}
}

func c02(r *eng.Run) {
	lengths := []int{0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 16300, 16382, 16383, 16384, 16385, 65535, 65536, 65537, 1 << 20}
	if r.Thorough() {
		lengths = append(lengths, 1<<22, 1<<24+1)
		for n := 0; n < 400; n++ {
			lengths = append(lengths, n)
		}
	}
	pattern := func(kind, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			switch kind {
			case 1:
				b[i] = 0xff
			case 2:
				b[i] = byte(i*7 + n)
			case 3: // trailing zeros
				if i < n/2 {
					b[i] = byte(i + 1)
				}
			}
		}
		return b
	}
	world := func(t *eng.T, s ref.Suite, n int, label string) *eng.World {
		t.State()
		return bigWorld(t, s, n, label)
	}
	r.All(func(emit func(eng.Case)) {
		// payload lengths and contents
		for _, s := range suites {
			for _, l := range lengths {
				for kind := 0; kind < 4; kind++ {
					s, l, kind := s, l, kind
					name := fmt.Sprintf("payload/s%d/%d/%d", s, l, kind)
					emit(eng.Case{Name: name, Run: func(t *eng.T) {
						if w := world(t, s, 3, "payload"); w != nil {
							carry(t, w, []int{0, 2}, []int{0, 1}, pattern(kind, l), ref.Frame{}, name)
							t.Sample("payload", name)
						}
					}})
				}
			}
			// a nil payload is an empty one
			s := s
			emit(eng.Case{Name: fmt.Sprintf("payload/s%d/nil", s), Run: func(t *eng.T) {
				if w := world(t, s, 2, "payload"); w != nil {
					carry(t, w, []int{0, 1}, []int{0, 1}, nil, ref.Frame{}, "nil")
				}
			}})
		}

		// framing of messages by other implementations
		for _, s := range suites {
			for _, l := range []int{0, 1, 15, 16, 63, 64, 255, 16383, 16384, 65536, 100000} {
				s, l := s, l
				name := fmt.Sprintf("framing/s%d/%d", s, l)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					w := world(t, s, 3, "framing")
					if w == nil {
						return
					}
					for _, data := range [][]byte{nil, []byte("x"), {1, 0, 0}, pattern(2, 100)} {
						carry(t, w, []int{0, 2}, []int{1}, data, ref.Frame{Pad: l}, name+"/pad")
						carry(t, w, []int{0, 2}, []int{1}, data, ref.Frame{AAD: pattern(2, l)}, name+"/aad")
						carry(t, w, []int{0, 2}, []int{1}, data, ref.Frame{AAD: pattern(0, l), Pad: l, Gen: 3}, name+"/both")
					}
				}})
			}
			for k := 0; k < 34; k++ {
				s, k := s, k
				name := fmt.Sprintf("guard/s%d/%d", s, k)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					w := world(t, s, 3, "guard")
					if w == nil {
						return
					}
					f := ref.Frame{}
					switch {
					case k < 32:
						f.Guard[k/8] = 1 << (k % 8)
					case k == 32:
						f.Guard = [4]byte{255, 255, 255, 255}
					default:
						f.Guard = [4]byte{1, 2, 3, 4}
					}
					carry(t, w, []int{1}, []int{0, 2}, []byte("guarded"), f, name)
				}})
			}
			gens := []uint32{65535, 65536}
			for g := uint32(0); g < 300; g++ {
				if s == 1 || g < 20 || g%51 == 0 || g == 256 {
					gens = append(gens, g)
				}
			}
			if r.Thorough() {
				gens = append(gens, 1<<16+1, 1<<17, 500000)
			}
			for _, g := range gens {
				s, g := s, g
				name := fmt.Sprintf("generation/s%d/%d", s, g)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					if w := world(t, s, 3, "generation"); w != nil {
						carry(t, w, []int{2}, []int{0, 1}, []byte(name), ref.Frame{Gen: g}, name)
					}
				}})
			}
		}

		// group sizes and positions
		max := r.Pick(20, 66)
		ns := []int{31, 32, 33, 63, 64, 65}
		if r.Thorough() {
			ns = append(ns, 127, 128, 129, 255, 256, 257, 400)
		} else {
			ns = append(ns, 130)
		}
		for n := 2; n <= max; n++ {
			ns = append(ns, n)
		}
		for _, n := range ns {
			n := n
			name := fmt.Sprintf("size/%d", n)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := world(t, 1, n, name)
				if w == nil {
					return
				}
				members := w.M.Tree.Members()
				carry(t, w, members, w.Leaves(), []byte(name), ref.Frame{Pad: n}, name)
				t.Sample("size", name)
			}})
		}

		// members far apart
		for _, at := range [][]int{{0, 128, 255}, {1, 256, 300}, {2, 257, 1024}, {0, 65536}, {1, 65537}, {0, 1, 2, 4, 8, 16, 32, 64, 128}} {
			at := at
			name := fmt.Sprintf("far/%v", at)
			emit(eng.Case{Name: name, Run: func(t *eng.T) {
				w := farWorld(t, 1, at, name)
				if w == nil {
					return
				}
				t.State()
				carry(t, w, at, at, []byte(name), ref.Frame{Gen: 2}, name)
				t.Sample("far", name)
			}})
		}

		// every shape: each member to each member
		for _, s := range suites {
			for _, x := range recipes {
				s, x := s, x
				name := fmt.Sprintf("shape/s%d/%s", s, x.name)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					w := x.build(t, s, gid)
					if w == nil {
						return
					}
					t.State()
					carry(t, w, w.M.Tree.Members(), w.Leaves(), []byte(name), ref.Frame{}, name)
					t.Sample("shape", name+" "+w.Key())
				}})
			}
		}

		// delivery orders: messages of three senders in every order, to two receivers
		for _, s := range suites {
			s := s
			name := fmt.Sprintf("order/s%d", s)
			emit(eng.Case{Name: name, Run: func(t *eng.T) { orders(t, s, name) }})
		}
		// many messages, delivered forwards, backwards and last first
		for _, s := range suites {
			s := s
			name := fmt.Sprintf("many/s%d", s)
			emit(eng.Case{Name: name, Run: func(t *eng.T) { manyMessages(t, s, 300, name) }})
		}
		// more messages than fit a 16-bit counter, and as many as it takes
		emit(eng.Case{Name: "endless", Run: func(t *eng.T) { endless(t, 1<<16+2, r.Pick(1<<16+2, 1<<20+4)) }})

		// conversations: encrypted proposals and application messages of two
		// senders, with every choice and order of generations
		for _, s := range suites {
			for _, x := range []string{"three", "five-holes"} {
				max := 3
				if s == 1 && (x == "three" || r.Thorough()) {
					max = 4
				}
				name := fmt.Sprintf("talk/s%d/%s", s, x)
				talks(r, emit, recipeOf(x), s, max, name)
			}
		}

		// uncommon groups
		for _, s := range suites {
			for _, x := range []string{"five@odd", "four-full@odd", "three@bare", "far"} {
				s, x := s, x
				name := fmt.Sprintf("uncommon/s%d/%s", s, x)
				emit(eng.Case{Name: name, Run: func(t *eng.T) {
					w := recipeOf(x).build(t, s, gid)
					if w == nil {
						return
					}
					t.State()
					for k, data := range [][]byte{nil, []byte(name), pattern(2, 70)} {
						carry(t, w, w.M.Tree.Members(), w.Leaves(), data, ref.Frame{AAD: pattern(2, 300*k), Gen: uint32(k), Pad: k}, name)
					}
				}})
			}
		}
	})
}

type sent struct {
	from int
	data string
	msg  []byte
}

func orders(t *eng.T, s ref.Suite, name string) {
	w := recipeOf("five").build(t, s, gid)
	if w == nil {
		return
	}
	t.State()
	var list []sent
	for k, q := range []int{0, 1, 0, 4, 1} {
		data := fmt.Sprintf("message %d from %d", k, q)
		msg, err := eng.Send(w.R[q], []byte(data))
		if err != nil {
			t.Fail("%s: %v", name, err)
			return
		}
		list = append(list, sent{q, data, msg})
	}
	// the model keeps sending in the same epoch, with later generations
	for k, q := range []int{3, 2} {
		data := fmt.Sprintf("model message %d from %d", k, q)
		list = append(list, sent{q, data, w.M.App(q, []byte(data), ref.Frame{Gen: uint32(5 * k)})})
	}
	list = list[:6]
	permute(len(list), func(p []int) {
		recv := map[int]*mls.Group{2: eng.Clone(w.R[2]), 4: eng.Clone(w.R[4])}
		for _, i := range []int{2, 4} {
			for _, k := range p {
				m := list[k]
				if m.from == i {
					continue
				}
				t.Transition()
				t.Trace()
				data, err := eng.Proc(recv[i], m.msg)
				if err != nil || string(data) != m.data {
					t.Fail("%s: order %v: leaf %d cannot read message %d: %v", name, p, i, k, err)
					return
				}
			}
			// and can still be read
			if _, err := w.M.Receive(must(eng.Send(recv[i], []byte("reply")))); err != nil {
				t.Fail("%s: order %v: reply of leaf %d: %v", name, p, i, err)
			}
		}
	})
}

// talks delivers encrypted messages of two members to a third, in every order
// up to a length, followed by everything not yet delivered and by a commit.
func talks(r *eng.Run, emit func(eng.Case), x recipe, s ref.Suite, max int, name string) {
	var (
		w     *eng.World
		list  []sent
		ends  []*ref.CommitResult
		who   int
		after [][]sent
	)
	setup(r, name, func(t *eng.T) {
		if w = x.build(t, s, gid); w == nil {
			return
		}
		t.State()
		members := w.Leaves()
		a, b := members[0], members[1]
		who = members[len(members)-1]
		say := func(m *ref.Group, q int, gen uint32) sent {
			data := fmt.Sprintf("%d from %d in %d", gen, q, m.Ctx.Epoch)
			return sent{q, data, m.App(q, []byte(data), ref.Frame{Gen: gen})}
		}
		for _, q := range []int{a, b} {
			for gen := uint32(0); gen < 3; gen++ {
				list = append(list, say(w.M, q, gen))
				msg, _, _ := w.M.Propose(q, &ref.Proposal{Type: ref.PropRemove, Removed: uint32(a + b - q)}, ref.Frame{Private: true, Gen: gen})
				list = append(list, sent{q, "", msg})
			}
		}
		for _, gen := range []uint32{3, 7} {
			res, err := w.M.Commit(ref.CommitOpts{Sender: a, Path: true, Rng: ref.NewRng(name), Frame: ref.Frame{Private: true, Gen: gen}})
			if err != nil {
				eng.Harness("%v", err)
			}
			ends = append(ends, res)
			after = append(after, []sent{say(res.Next, b, 2), say(res.Next, a, 1), say(res.Next, a, 0)})
		}
	})
	if w == nil || len(ends) == 0 {
		return
	}
	var rec func(word []int)
	rec = func(word []int) {
		if len(word) == max {
			word := append([]int{}, word...)
			what := fmt.Sprintf("%s/%v", name, word)
			emit(eng.Case{Name: what, Run: func(t *eng.T) { talk(t, eng.Clone(w.R[who]), list, word, ends, after, what) }})
			return
		}
		for k := range list {
			if !has(word, k) {
				rec(append(word, k))
			}
		}
	}
	rec(nil)
}

func talk(t *eng.T, g *mls.Group, list []sent, word []int, ends []*ref.CommitResult, after [][]sent, what string) {
	t.Sample("talk", what)
	hear := func(m sent, k int) bool {
		t.Transition()
		t.Trace()
		data, err := eng.Proc(g, m.msg)
		if err != nil || string(data) != m.data {
			t.Fail("%s: message %d of leaf %d: %q %v", what, k, m.from, data, err)
			return false
		}
		return true
	}
	for _, k := range word {
		if !hear(list[k], k) {
			return
		}
	}
	for k, m := range list {
		if m.data != "" && !has(word, k) && !hear(m, k) {
			return
		}
	}
	e := (word[0] + word[len(word)-1]) % len(ends)
	if !hear(sent{-1, "", ends[e].Msg}, -1) {
		return
	}
	for k, m := range after[e] {
		if !hear(m, 100+k) {
			return
		}
	}
}

func must(b []byte, err error) []byte {
	if err != nil {
		return nil
	}
	return b
}

func permute(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// endless lets a member send until it has sent max messages or says that it
// cannot send any more, which it may not say before min.
func endless(t *eng.T, min, max int) {
	w := recipeOf("pair").build(t, 1, gid)
	if w == nil {
		return
	}
	t.State()
	for k := 0; k < max; k++ {
		what := fmt.Sprint("m", k)
		msg, err := eng.Send(w.R[1], []byte(what))
		if err != nil {
			if k < min || eng.Panicked(err) {
				t.Fail("message %d: %v", k, err)
			}
			return
		}
		// around powers of two
		if (k+2)&(k+1) != 0 && (k+1)&k != 0 && k&(k-1) != 0 && (k-1)&(k-2) != 0 {
			continue
		}
		t.Transition()
		t.Trace()
		if data, err := eng.Proc(w.R[0], msg); err != nil || string(data) != what {
			t.Fail("message %d cannot be read: %v", k, err)
			return
		}
		if rv, err := w.M.Receive(msg); err != nil || string(rv.App) != what {
			t.Fail("the model cannot read message %d: %v", k, err)
			return
		}
	}
}

func manyMessages(t *eng.T, s ref.Suite, n int, name string) {
	w := recipeOf("three").build(t, s, gid)
	if w == nil {
		return
	}
	t.State()
	var list [][]byte
	for k := 0; k < n; k++ {
		msg, err := eng.Send(w.R[1], []byte(fmt.Sprint("m", k)))
		if err != nil {
			t.Fail("%s: message %d: %v", name, k, err)
			return
		}
		list = append(list, msg)
		if k == n/2 {
			// receiving in between changes nothing
			if _, err := eng.Proc(w.R[1], w.M.App(0, []byte("in between"), ref.Frame{})); err != nil {
				t.Fail("%s: %v", name, err)
			}
		}
	}
	for i, order := range []func(k int) int{
		func(k int) int { return k },
		func(k int) int { return n - 1 - k },
		func(k int) int { return (k*7 + n - 1) % n },
	} {
		recv := eng.Clone(w.R[2])
		if i == 1 {
			recv = eng.Clone(w.R[0])
		}
		for k := 0; k < n; k++ {
			j := order(k)
			t.Transition()
			t.Trace()
			data, err := eng.Proc(recv, list[j])
			if err != nil || string(data) != fmt.Sprint("m", j) {
				t.Fail("%s: order %d: message %d of %d: %v", name, i, j, n, err)
				return
			}
		}
	}
	for j := 0; j < n; j++ {
		if rv, err := w.M.Receive(list[j]); err != nil || string(rv.App) != fmt.Sprint("m", j) {
			t.Fail("%s: model cannot read message %d: %v", name, j, err)
			return
		}
	}
}

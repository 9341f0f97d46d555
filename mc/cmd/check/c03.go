package main

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/ref"
)

func init() {
	checks["C03"] = check{"model_checking", eng.Meta{
		Rule: "a state is a group; a transition is one altered or forged message offered to one member, which must refuse it; a trace is an honest message of the same kind that the member must accept and the model must agree on",
		Assumptions: []string{
			"signatures, MACs and AEADs are unforgeable: a forger is given every key except the ones it must not have",
			"ECDSA signatures are compared by what they sign, not bit by bit, when the forger is the signer",
		},
	}, c03}
}

func c03(r *eng.Run) {
	type base struct {
		s     ref.Suite
		shape string
		from  int
	}
	bases := []base{{1, "three", 1}, {1, "five-holes", 4}, {3, "three", 0}, {2, "three", 2}, {7, "three", 1}, {1, "pair@odd", 1}, {1, "pair@bare", 0}, {1, "far", 257}}
	if r.Thorough() {
		for _, s := range suites {
			bases = append(bases, base{s, "unmerged", 3}, base{s, "eight", 5}, base{s, "hole", 0})
		}
	}
	r.All(func(emit func(eng.Case)) {
		for bi, b := range bases {
			b := b
			full := bi == 0 || r.Thorough()
			label := fmt.Sprintf("c03/%s/%d", b.shape, b.s)
			var w *eng.World
			setup(r, label, func(t *eng.T) { w = recipeOf(b.shape).build(t, b.s, gid) })
			if w == nil {
				continue
			}
			r.State()
			leaves := w.Leaves()
			receivers := others(leaves, b.from)
			first := receivers[0]
			for _, s := range specimens(w, b.from, label) {
				s := s
				prefix := fmt.Sprintf("s%d/%s/%s", b.s, b.shape, s.name)
				honest := s.msg()
				// the honest message is accepted
				emit(eng.Case{Name: prefix + "/honest", Run: func(t *eng.T) {
					for _, i := range receivers {
						if s.name == "commit-ref-public" || s.name == "commit-ref-private" {
							if i == w.M.Tree.Members()[len(w.M.Tree.Members())-1] {
								continue // the one being removed
							}
							if b.from == w.M.Tree.Members()[len(w.M.Tree.Members())-1] && i == others(w.M.Tree.Members(), b.from)[len(receivers)-1] {
								continue
							}
						}
						t.Trace()
						accepts(t, w, i, attack{s.name, s.pre, honest})
					}
				}})
				// structural forgeries, offered to everyone including the claimed sender
				for _, a := range forgeries(w, s, label) {
					a := a
					emit(eng.Case{Name: prefix + "/forged" + a.name[len(s.name):], Run: func(t *eng.T) {
						for _, i := range leaves {
							refuses(t, w, i, a)
						}
						t.Sample("forged", t.Name)
					}})
				}
				// every bit on the wire
				step := 1
				if !full {
					step = 3
				}
				for off := 0; off < len(honest); off++ {
					off := off
					emit(eng.Case{Name: fmt.Sprintf("%s/wire/%d", prefix, off), Run: func(t *eng.T) {
						for bit := off % step; bit < 8; bit += step {
							m := append([]byte{}, honest...)
							m[off] ^= 1 << bit
							refuses(t, w, first, attack{fmt.Sprintf("bit %d.%d", off, bit), s.pre, m})
						}
						if off > 0 {
							refuses(t, w, first, attack{fmt.Sprintf("cut at %d", off), s.pre, honest[:off]})
						}
					}})
				}
				emit(eng.Case{Name: prefix + "/extended", Run: func(t *eng.T) {
					for _, tail := range [][]byte{{0}, {1}, {0, 0}, honest} {
						refuses(t, w, first, attack{"extended", s.pre, append(append([]byte{}, honest...), tail...)})
					}
				}})
				// every bit of the signed content, by an insider that re-protects the message
				insider(w, s, first, prefix, step, emit)
			}
			// library-made messages
			libMessages(w, b.from, first, label, full, emit)
		}
	})
}

// insider alters each bit of content, signature and confirmation tag of a
// specimen, and recomputes the membership tag or encryption.
func insider(w *eng.World, s specimen, to int, prefix string, step int, emit func(eng.Case)) {
	ecdsa := w.M.Suite == 2 || w.M.Suite == 7
	try := func(name string, n int, mk func(pos int, bit uint) []byte) {
		for pos := 0; pos < n; pos++ {
			pos := pos
			emit(eng.Case{Name: fmt.Sprintf("%s/insider-%s/%d", prefix, name, pos), Run: func(t *eng.T) {
				for bit := pos % step; bit < 8; bit += step {
					refuses(t, w, to, attack{fmt.Sprintf("%s %d.%d", name, pos, bit), s.pre, mk(pos, uint(bit))})
				}
			}})
		}
	}
	var auth ref.Auth
	s.make(ref.Frame{Signed: func(a *ref.Auth) { auth = *a }})
	flip := func(b []byte, pos int, bit uint) []byte {
		b = append([]byte{}, b...)
		b[pos] ^= 1 << bit
		return b
	}
	_ = ecdsa
	try("body", len(auth.Content.Body), func(pos int, bit uint) []byte {
		return s.make(ref.Frame{Signed: func(a *ref.Auth) { a.Content.Body = flip(auth.Content.Body, pos, bit); a.Sig = auth.Sig }})
	})
	try("signature", len(auth.Sig), func(pos int, bit uint) []byte {
		return s.make(ref.Frame{Signed: func(a *ref.Auth) { a.Sig = flip(auth.Sig, pos, bit) }})
	})
	if s.typ == ref.CTCommit {
		try("confirmation", w.M.Suite.Nh(), func(pos int, bit uint) []byte {
			return s.remake(func(o *ref.CommitOpts) {
				o.ConfTag = func(tag []byte) []byte { return flip(tag, pos, bit) }
			})
		})
	}
}

// libMessages flips every bit of messages created by the library itself.
func libMessages(w *eng.World, from, to int, label string, full bool, emit func(eng.Case)) {
	c := eng.Clone(w.R[from])
	app, err := eng.Send(c, []byte("library payload"))
	if err != nil {
		return
	}
	p := ref.NewParty(w.M.Ring, w.M.Suite, label+"/invitee", ref.PartyOpts{})
	_, commit, err := eng.InviteRaw(c, p.KP.Msg())
	if err != nil {
		return
	}
	step := 1
	if !full {
		step = 5
	}
	for k, msg := range [][]byte{app, commit} {
		k, msg := k, msg
		for off := range msg {
			off := off
			emit(eng.Case{Name: fmt.Sprintf("s%d/lib%d/%s/%d", w.M.Suite, k, label, off), Run: func(t *eng.T) {
				for bit := off % step; bit < 8; bit += step {
					m := append([]byte{}, msg...)
					m[off] ^= 1 << bit
					refuses(t, w, to, attack{fmt.Sprintf("library message, bit %d.%d", off, bit), nil, m})
				}
			}})
		}
		emit(eng.Case{Name: fmt.Sprintf("s%d/lib%d/%s/honest", w.M.Suite, k, label), Run: func(t *eng.T) {
			for _, i := range w.Leaves() {
				t.Trace()
				accepts(t, w, i, attack{"library message", nil, msg})
			}
		}})
	}
}

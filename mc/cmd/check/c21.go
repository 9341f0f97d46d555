package main

import (
	"bytes"
	"fmt"

	mls "github.com/emersion/go-mls"

	"verif/mc/eng"
)

func init() {
	checks["C21"] = check{"model_checking", eng.Meta{
		Rule: "a state is one of the 65536 cipher suite numbers, or an identifier of the enumerated set; transitions are the questions put to it: its name, whether it is supported, whether it is of use (key packages can be generated and a group of two formed), whether it equals each other identifier; a trace is the comparison of the answer with the table of the registry or with the octets",
		Assumptions: []string{
			"the registry of 2023 is the table of names; the other suites of the table cannot be used with update paths, for want of a key derivation, and so are not supported",
		},
	}, c21}
}

var suiteNames = map[int]string{
	1: "MLS_128_DHKEMX25519_AES128GCM_SHA256_Ed25519",
	2: "MLS_128_DHKEMP256_AES128GCM_SHA256_P256",
	3: "MLS_128_DHKEMX25519_CHACHA20POLY1305_SHA256_Ed25519",
	4: "MLS_256_DHKEMX448_AES256GCM_SHA512_Ed448",
	5: "MLS_256_DHKEMP521_AES256GCM_SHA512_P521",
	6: "MLS_256_DHKEMX448_CHACHA20POLY1305_SHA512_Ed448",
	7: "MLS_256_DHKEMP384_AES256GCM_SHA384_P384",
}

// worth tells whether two members can use a suite: key packages can be
// generated, a member invited, and messages exchanged both ways.
func worth(n int) error {
	return eng.Guarded(func() error {
		a, err := mls.GenerateKeyPairPackage(mls.CipherSuite(n), mls.NewBasicCredential([]byte("a")))
		if err != nil {
			return err
		}
		b, err := mls.GenerateKeyPairPackage(mls.CipherSuite(n), mls.NewBasicCredential([]byte("b")))
		if err != nil {
			return err
		}
		g, err := mls.CreateGroup(mls.GroupID("g"), a)
		if err != nil {
			return err
		}
		wel, commit, err := g.CreateWelcome([]mls.KeyPackage{b.Public})
		if err != nil {
			return err
		}
		if _, err := g.UnmarshalAndProcessMessage(commit); err != nil {
			return err
		}
		h, err := mls.GroupFromWelcome(wel, b)
		if err != nil {
			return err
		}
		for _, p := range [][2]*mls.Group{{g, h}, {h, g}} {
			msg, err := p[0].CreateApplicationMessage([]byte("text"))
			if err != nil {
				return err
			}
			got, err := p[1].UnmarshalAndProcessMessage(msg)
			if err != nil {
				return err
			}
			if string(got) != "text" {
				return fmt.Errorf("read %q", got)
			}
		}
		return nil
	})
}

// identifiers enumerates octet strings close to one another.
func identifiers(thorough bool) [][]byte {
	out := [][]byte{nil, {}}
	for i := 0; i < 256; i++ {
		out = append(out, []byte{byte(i)})
	}
	lens := []int{2, 3, 16, 32}
	if thorough {
		lens = []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65}
	}
	for _, n := range lens {
		base := make([]byte, n)
		for i := range base {
			base[i] = byte(17*i + 65)
		}
		out = append(out, base, make([]byte, n))
		for i := 0; i < n; i++ {
			for bit := 0; bit < 8; bit++ {
				if n > 3 && bit != 0 && bit != 5 && bit != 7 {
					continue
				}
				x := append([]byte{}, base...)
				x[i] ^= 1 << bit
				out = append(out, x)
			}
			// swapped with the next, doubled
			if i+1 < n {
				x := append([]byte{}, base...)
				x[i], x[i+1] = x[i+1], x[i]
				out = append(out, x)
			}
			out = append(out, append([]byte{}, base[:i]...))
		}
		out = append(out, append(append([]byte{}, base...), 0), append([]byte{0}, base...))
	}
	out = append(out, []byte("group"), []byte("Group"), []byte("GROUP"), []byte("é"), []byte("é"),
		[]byte("\xff"), []byte("\xfe"), []byte("�"), []byte("K"), []byte("K"), []byte("a b"), []byte("a b "))
	return out
}

func c21(r *eng.Run) {
	r.All(func(emit func(eng.Case)) {
		for lo := 0; lo < 65536; lo += 256 {
			emit(eng.Case{Name: fmt.Sprintf("suites/%d", lo), Run: func(t *eng.T) {
				for n := lo; n < lo+256; n++ {
					t.State()
					cs := mls.CipherSuite(n)
					name, sup := "", false
					err := eng.Guarded(func() error {
						t.Transition()
						t.Transition()
						name, sup = cs.String(), cs.Supported()
						return nil
					})
					if err != nil {
						t.Fail("suite %d: %v", n, err)
						continue
					}
					want, ok := suiteNames[n]
					if !ok {
						want = fmt.Sprintf("<%d>", n)
					}
					if name != want {
						t.Fail("suite %d is named %q, not %q", n, name, want)
					}
					if sup != (n == 1 || n == 2 || n == 3 || n == 7) {
						t.Fail("suite %d: supported is %v", n, sup)
					}
					t.Trace()
					if sup {
						t.Transition()
						if err := worth(n); err != nil {
							t.Fail("suite %d is said to be supported, but: %v", n, err)
						}
						t.Trace()
						t.Count("supported")
					} else {
						t.Count("not supported")
					}
				}
			}})
		}
		ids := identifiers(r.Thorough())
		for i := range ids {
			emit(eng.Case{Name: fmt.Sprintf("identifier/%d", i), Run: func(t *eng.T) {
				t.State()
				a := ids[i]
				for _, b := range ids {
					want := bytes.Equal(a, b)
					x, y := append([]byte{}, a...), append([]byte{}, b...)
					if a == nil {
						x = nil
					}
					if b == nil {
						y = nil
					}
					var ge, ke bool
					err := eng.Guarded(func() error {
						t.Transition()
						t.Transition()
						ge, ke = mls.GroupID(x).Equal(mls.GroupID(y)), mls.KeyPackageRef(x).Equal(mls.KeyPackageRef(y))
						return nil
					})
					if err != nil {
						t.Fail("%x and %x: %v", a, b, err)
						return
					}
					if ge != want || ke != want {
						t.Fail("%x and %x: group identifiers equal %v, references equal %v", a, b, ge, ke)
						return
					}
					t.Trace()
					if want {
						t.Count("equal")
					} else {
						t.Count("different")
					}
				}
			}})
		}
	})
}

package ref

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/sha256"
	_ "crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash"
	"math/big"
	"sync"

	"github.com/cloudflare/circl/hpke"
	"github.com/cloudflare/circl/sign/ed448"
)

// Suite is an MLS cipher suite.
type Suite uint16

const (
	X25519AES   Suite = 1
	P256AES     Suite = 2
	X25519Chaha Suite = 3
	X448AES     Suite = 4
	P521AES     Suite = 5
	X448Chacha  Suite = 6
	P384AES     Suite = 7
)

type suiteInfo struct {
	h     crypto.Hash
	kem   hpke.KEM
	kdf   hpke.KDF
	aead  hpke.AEAD
	sig   byte // 'e' ed25519, 'E' ed448, 'p' ecdsa
	curve elliptic.Curve
}

var suites = map[Suite]suiteInfo{
	1: {crypto.SHA256, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, 'e', nil},
	2: {crypto.SHA256, hpke.KEM_P256_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_AES128GCM, 'p', elliptic.P256()},
	3: {crypto.SHA256, hpke.KEM_X25519_HKDF_SHA256, hpke.KDF_HKDF_SHA256, hpke.AEAD_ChaCha20Poly1305, 'e', nil},
	4: {crypto.SHA512, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, 'E', nil},
	5: {crypto.SHA512, hpke.KEM_P521_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_AES256GCM, 'p', elliptic.P521()},
	6: {crypto.SHA512, hpke.KEM_X448_HKDF_SHA512, hpke.KDF_HKDF_SHA512, hpke.AEAD_ChaCha20Poly1305, 'E', nil},
	7: {crypto.SHA384, hpke.KEM_P384_HKDF_SHA384, hpke.KDF_HKDF_SHA384, hpke.AEAD_AES256GCM, 'p', elliptic.P384()},
}

func (s Suite) info() suiteInfo {
	i, ok := suites[s]
	if !ok {
		panic(fmt.Sprintf("ref: unknown suite %d", s))
	}
	return i
}

func (s Suite) Nh() int          { return s.info().h.Size() }
func (s Suite) Nk() int          { return int(s.info().aead.KeySize()) }
func (s Suite) Nn() int          { return int(s.info().aead.NonceSize()) }
func (s Suite) new() hash.Hash   { return s.info().h.New() }
func (s Suite) hpke() hpke.Suite { i := s.info(); return hpke.NewSuite(i.kem, i.kdf, i.aead) }

func (s Suite) Hash(parts ...[]byte) []byte {
	h := s.new()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s Suite) MAC(key, msg []byte) []byte {
	m := hmac.New(s.new, key)
	m.Write(msg)
	return m.Sum(nil)
}

// Extract is KDF.Extract(salt, ikm).
func (s Suite) Extract(salt, ikm []byte) []byte {
	prk, err := hkdf.Extract(s.new, ikm, salt)
	if err != nil {
		panic(err)
	}
	return prk
}

func (s Suite) ExpandLabel(secret []byte, label string, ctx []byte, n int) []byte {
	info := Cat(U16(uint16(n)), Vec([]byte("MLS 1.0 "+label)), Vec(ctx))
	out, err := hkdf.Expand(s.new, secret, string(info), n)
	if err != nil {
		panic(err)
	}
	return out
}

func (s Suite) Derive(secret []byte, label string) []byte {
	return s.ExpandLabel(secret, label, nil, s.Nh())
}

func (s Suite) DeriveTree(secret []byte, label string, gen uint32, n int) []byte {
	return s.ExpandLabel(secret, label, U32(gen), n)
}

func (s Suite) RefHash(label string, value []byte) []byte {
	return s.Hash(Vec([]byte(label)), Vec(value))
}

func (s Suite) Seal(key, nonce, aad, pt []byte) []byte {
	a, err := s.info().aead.New(key)
	if err != nil {
		panic(err)
	}
	return a.Seal(nil, nonce, pt, aad)
}

func (s Suite) Open(key, nonce, aad, ct []byte) ([]byte, error) {
	a, err := s.info().aead.New(key)
	if err != nil {
		panic(err)
	}
	return a.Open(nil, nonce, ct, aad)
}

// Rng is a deterministic random stream.
type Rng struct {
	seed [32]byte
	ctr  uint64
	buf  []byte
}

func NewRng(label string, args ...interface{}) *Rng {
	return &Rng{seed: sha256.Sum256([]byte(label + fmt.Sprint(args...)))}
}

func (r *Rng) Read(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		if len(r.buf) == 0 {
			var in [40]byte
			copy(in[:], r.seed[:])
			binary.BigEndian.PutUint64(in[32:], r.ctr)
			r.ctr++
			h := sha256.Sum256(in[:])
			r.buf = h[:]
		}
		k := copy(p, r.buf)
		p, r.buf = p[k:], r.buf[k:]
	}
	return n, nil
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (s Suite) SealHPKE(rng *Rng, pub []byte, label string, ctx, pt []byte) (kemOut, ct []byte, err error) {
	info := Cat(Vec([]byte("MLS 1.0 "+label)), Vec(ctx))
	pk, err := s.info().kem.Scheme().UnmarshalBinaryPublicKey(pub)
	if err != nil {
		return nil, nil, err
	}
	snd, err := s.hpke().NewSender(pk, info)
	if err != nil {
		return nil, nil, err
	}
	enc, sealer, err := snd.Setup(rng)
	if err != nil {
		return nil, nil, err
	}
	ct, err = sealer.Seal(pt, nil)
	return enc, ct, err
}

func (s Suite) OpenHPKE(priv []byte, label string, ctx, kemOut, ct []byte) ([]byte, error) {
	info := Cat(Vec([]byte("MLS 1.0 "+label)), Vec(ctx))
	sk, err := s.info().kem.Scheme().UnmarshalBinaryPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	rcv, err := s.hpke().NewReceiver(sk, info)
	if err != nil {
		return nil, err
	}
	op, err := rcv.Setup(kemOut)
	if err != nil {
		return nil, err
	}
	return op.Open(ct, nil)
}

// KeyPair derives an HPKE key pair from a seed of any length.
func (s Suite) KeyPair(seed []byte) (pub, priv []byte) {
	sch := s.info().kem.Scheme()
	if len(seed) != sch.SeedSize() {
		seed = NewRng("kem", seed).Bytes(sch.SeedSize())
	}
	pk, sk := sch.DeriveKeyPair(seed)
	pub, _ = pk.MarshalBinary()
	priv, _ = sk.MarshalBinary()
	return pub, priv
}

// PubOf returns the public key of an HPKE private key.
func (s Suite) PubOf(priv []byte) ([]byte, error) {
	sk, err := s.info().kem.Scheme().UnmarshalBinaryPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	return sk.Public().MarshalBinary()
}

// SigPair derives a signature key pair from a seed.
func (s Suite) SigPair(seed []byte) (pub, priv []byte) {
	i := s.info()
	rng := NewRng("sig", seed)
	switch i.sig {
	case 'e':
		priv = rng.Bytes(ed25519.SeedSize)
		return ed25519.NewKeyFromSeed(priv).Public().(ed25519.PublicKey), priv
	case 'E':
		priv = rng.Bytes(ed448.SeedSize)
		return []byte(ed448.NewKeyFromSeed(priv).Public().(ed448.PublicKey)), priv
	default:
		n := (i.curve.Params().BitSize + 7) / 8
		for {
			d := new(big.Int).SetBytes(rng.Bytes(n))
			if d.Sign() == 0 || d.Cmp(i.curve.Params().N) >= 0 {
				continue
			}
			priv = d.FillBytes(make([]byte, n))
			k, err := ecdsa.ParseRawPrivateKey(i.curve, priv)
			if err != nil {
				continue
			}
			pub, err = k.PublicKey.Bytes()
			if err != nil {
				panic(err)
			}
			return pub, priv
		}
	}
}

// SigPubOf returns the public key of a signature private key.
func (s Suite) SigPubOf(priv []byte) ([]byte, error) {
	i := s.info()
	switch i.sig {
	case 'e':
		if len(priv) != ed25519.SeedSize {
			return nil, fmt.Errorf("bad ed25519 key")
		}
		return ed25519.NewKeyFromSeed(priv).Public().(ed25519.PublicKey), nil
	case 'E':
		if len(priv) != ed448.SeedSize {
			return nil, fmt.Errorf("bad ed448 key")
		}
		return []byte(ed448.NewKeyFromSeed(priv).Public().(ed448.PublicKey)), nil
	}
	k, err := s.ecdsaPriv(priv)
	if err != nil {
		return nil, err
	}
	return k.PublicKey.Bytes()
}

func (s Suite) ecdsaPriv(priv []byte) (*ecdsa.PrivateKey, error) {
	i := s.info()
	n := (i.curve.Params().BitSize + 7) / 8
	if len(priv) < n {
		priv = append(make([]byte, n-len(priv)), priv...)
	}
	return ecdsa.ParseRawPrivateKey(i.curve, priv)
}

// Sign signs label||content.
func (s Suite) Sign(priv []byte, label string, content []byte) []byte {
	i := s.info()
	msg := Cat(Vec([]byte("MLS 1.0 "+label)), Vec(content))
	switch i.sig {
	case 'e':
		return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg)
	case 'E':
		return ed448.Sign(ed448.NewKeyFromSeed(priv), msg, "")
	}
	k, err := s.ecdsaPriv(priv)
	if err != nil {
		panic(err)
	}
	sig, err := k.Sign(nil, s.Hash(msg), i.h) // deterministic ECDSA
	if err != nil {
		panic(err)
	}
	return sig
}

func (s Suite) Verify(pub []byte, label string, content, sig []byte) bool {
	i := s.info()
	msg := Cat(Vec([]byte("MLS 1.0 "+label)), Vec(content))
	switch i.sig {
	case 'e':
		return len(pub) == ed25519.PublicKeySize && ed25519.Verify(pub, msg, sig)
	case 'E':
		return len(pub) == ed448.PublicKeySize && ed448.Verify(pub, msg, sig, "")
	}
	k, err := ecdsa.ParseUncompressedPublicKey(i.curve, pub)
	if err != nil {
		return false
	}
	return ecdsa.VerifyASN1(k, s.Hash(msg), sig)
}

// Ring maps public keys to private keys for every participant.
type Ring struct {
	mu  sync.RWMutex
	enc map[string][]byte
	sig map[string][]byte
}

func NewRing() *Ring { return &Ring{enc: map[string][]byte{}, sig: map[string][]byte{}} }

func (r *Ring) PutEnc(pub, priv []byte) {
	r.mu.Lock()
	r.enc[string(pub)] = priv
	r.mu.Unlock()
}
func (r *Ring) PutSig(pub, priv []byte) {
	r.mu.Lock()
	r.sig[string(pub)] = priv
	r.mu.Unlock()
}
func (r *Ring) Enc(pub []byte) []byte {
	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.enc[string(pub)]
}
func (r *Ring) Sig(pub []byte) []byte {
	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.sig[string(pub)]
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// Package ref is an independent implementation of the parts of RFC 9420 the
// checks need. It is the model: purely functional group states, an omniscient
// key ring, and full control over every field of every message.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Encoding: plain functions producing bytes.

func U8(v uint8) []byte   { return []byte{v} }
func U16(v uint16) []byte { return binary.BigEndian.AppendUint16(nil, v) }
func U32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func U64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func Cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]byte, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// VarLen encodes a variable-size length with the minimal number of bytes.
func VarLen(n int) []byte {
	switch {
	case n <= 63:
		return []byte{byte(n)}
	case n <= 16383:
		return U16(uint16(n) | 0x4000)
	case n <= 1<<30-1:
		return U32(uint32(n) | 0x80000000)
	}
	panic("ref: vector too long")
}

// Vec prefixes b with its length.
func Vec(b []byte) []byte { return Cat(VarLen(len(b)), b) }

func VecU16(vs []uint16) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint16(b, v)
	}
	return Vec(b)
}

func VecU32(vs []uint32) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return Vec(b)
}

func Opt(present bool, b []byte) []byte {
	if !present {
		return []byte{0}
	}
	return Cat([]byte{1}, b)
}

// Decoding: a reader that panics with decodeErr, converted to an error by
// Decode.

type decodeErr struct{ error }

type R struct {
	b   []byte
	off int
	lay *Layout
	up  []int
}

// Mark is a length prefix found while decoding.
type Mark struct {
	Off, Size, Len int   // position and size of the prefix, and its value
	Up             []int // the vectors around it, from the outside in
}

// Layout lists the length prefixes of an encoded structure.
type Layout []Mark

// LayoutOf decodes b and notes its length prefixes.
func LayoutOf(b []byte, f func(r *R)) (Layout, error) {
	var lay Layout
	err := decode(b, &lay, f)
	return lay, err
}

// Edit rewrites vector k: its content is replaced by f's result and its prefix
// by size bytes (0: minimal). The lengths around it follow.
func (lay Layout) Edit(b []byte, k int, size int, f func(c []byte) []byte) []byte {
	m := lay[k]
	content := append([]byte{}, b[m.Off+m.Size:m.Off+m.Size+m.Len]...)
	if f != nil {
		content = f(content)
	}
	out := Cat(PrefixOf(len(content), size), content)
	lo, hi := m.Off, m.Off+m.Size+m.Len
	for i := len(m.Up) - 1; i >= 0; i-- {
		u := lay[m.Up[i]]
		out = Cat(b[u.Off+u.Size:lo], out, b[hi:u.Off+u.Size+u.Len])
		out = Vec(out)
		lo, hi = u.Off, u.Off+u.Size+u.Len
	}
	return Cat(b[:lo], out, b[hi:])
}

// PrefixOf encodes a length in the given number of bytes (0: minimal).
func PrefixOf(n, size int) []byte {
	switch size {
	case 2:
		return U16(uint16(n) | 0x4000)
	case 4:
		return U32(uint32(n) | 0x80000000)
	case 8:
		return U64(uint64(n) | 0xc0<<56)
	}
	return VarLen(n)
}

func fail(format string, a ...interface{}) { panic(decodeErr{fmt.Errorf(format, a...)}) }

func (r *R) Left() int   { return len(r.b) }
func (r *R) Empty() bool { return len(r.b) == 0 }

func (r *R) Take(n int) []byte {
	if n < 0 || n > len(r.b) {
		fail("ref: short input")
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	r.off += n
	return v
}
func (r *R) U8() uint8   { return r.Take(1)[0] }
func (r *R) U16() uint16 { return binary.BigEndian.Uint16(r.Take(2)) }
func (r *R) U32() uint32 { return binary.BigEndian.Uint32(r.Take(4)) }
func (r *R) U64() uint64 { return binary.BigEndian.Uint64(r.Take(8)) }

func (r *R) Len() int {
	b0 := r.U8()
	switch b0 >> 6 {
	case 0:
		return int(b0)
	case 1:
		n := int(b0&0x3f)<<8 | int(r.U8())
		if n <= 63 {
			fail("ref: non-minimal length")
		}
		return n
	case 2:
		rest := r.Take(3)
		n := int(b0&0x3f)<<24 | int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		if n <= 16383 {
			fail("ref: non-minimal length")
		}
		return n
	}
	fail("ref: bad length prefix")
	return 0
}

// vec reads a length prefix and gives a reader for what it covers.
func (r *R) vec() *R {
	start := r.off
	n := r.Len()
	sub := &R{off: r.off, lay: r.lay}
	if r.lay != nil {
		*r.lay = append(*r.lay, Mark{start, r.off - start, n, r.up})
		sub.up = append(append([]int{}, r.up...), len(*r.lay)-1)
	}
	sub.b = r.Take(n)
	return sub
}

func (r *R) Vec() []byte { return append([]byte{}, r.vec().b...) }

func (r *R) Each(f func(r *R)) {
	sub := r.vec()
	for !sub.Empty() {
		f(sub)
	}
}

func (r *R) Opt() bool {
	switch r.U8() {
	case 0:
		return false
	case 1:
		return true
	}
	fail("ref: bad optional")
	return false
}

func (r *R) VecU16() []uint16 {
	var out []uint16
	r.Each(func(r *R) { out = append(out, r.U16()) })
	return out
}

func (r *R) VecU32() []uint32 {
	var out []uint32
	r.Each(func(r *R) { out = append(out, r.U32()) })
	return out
}

// Decode runs f over all of b.
func Decode(b []byte, f func(r *R)) (err error) { return decode(b, nil, f) }

func decode(b []byte, lay *Layout, f func(r *R)) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if de, ok := x.(decodeErr); ok {
				err = de.error
				return
			}
			panic(x)
		}
	}()
	r := &R{b: b, lay: lay}
	f(r)
	if !r.Empty() {
		return errors.New("ref: trailing bytes")
	}
	return nil
}

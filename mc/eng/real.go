package eng

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	mls "github.com/emersion/go-mls"

	"verif/mc/ref"
)

// PanicErr is a panic of the library turned into an error.
type PanicErr struct {
	V     interface{}
	Stack string
}

func (p *PanicErr) Error() string { return fmt.Sprintf("PANIC: %v", p.V) }

// Panicked tells whether err is a library panic.
func Panicked(err error) bool {
	_, ok := err.(*PanicErr)
	return ok
}

// call is a library call in progress.
type call struct{ ticks int }

var (
	callsMu sync.Mutex
	calls   = map[*call]bool{}
)

func enter() *call {
	c := &call{}
	callsMu.Lock()
	calls[c] = true
	callsMu.Unlock()
	return c
}

func (c *call) leave(err *error) {
	if p := recover(); p != nil {
		*err = &PanicErr{p, string(debug.Stack())}
	}
	callsMu.Lock()
	delete(calls, c)
	callsMu.Unlock()
}

// Guarded runs f as a library call, turning panics into errors.
func Guarded(f func() error) (err error) {
	defer enter().leave(&err)
	return f()
}

// hangTicks is how many seconds of running time a library call may take. The
// calls made by the checks take milliseconds.
const hangTicks = 90

// memoryLimit is how much memory may stay in use. The checks need a fraction of
// it.
const memoryLimit = 8 << 30

// bloated tells whether the memory in use exceeds the limit.
func bloated() bool {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	if metrics.Read(s); s[0].Value.Uint64() < memoryLimit {
		return false
	}
	runtime.GC()
	metrics.Read(s)
	return s[0].Value.Uint64() >= memoryLimit
}

// Watch keeps the time, on a clock the cases cannot move. It reports cases in
// which a library call does not return or uses up the memory, then ends the run
// by calling end.
func (r *Run) Watch(end func()) {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if bloated() {
				r.stuck("uses up the memory")
				end()
			}
		}
	}()
	go func() {
		for {
			time.Sleep(time.Second)
			if !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
				r.late.Store(true)
			}
			hung := false
			callsMu.Lock()
			for c := range calls {
				c.ticks++
				hung = hung || c.ticks > hangTicks
			}
			callsMu.Unlock()
			if hung {
				r.stuck("does not return")
				end()
			}
		}
	}()
}

// stuck reports the library call being made.
func (r *Run) stuck(what string) {
	r.mu.Lock()
	var names []string
	for n := range r.live {
		names = append(names, n)
	}
	r.mu.Unlock()
	sort.Strings(names)
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r.hang(names, what, where(string(buf)))
}

// where picks a library function from a dump of all goroutines.
func where(stacks string) string {
	for _, l := range strings.Split(stacks, "\n") {
		if strings.Contains(l, "go-mls.") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// Where is the innermost library frame of a panic.
func (p *PanicErr) Where() string {
	for _, l := range strings.Split(p.Stack, "\n") {
		if strings.Contains(l, "go-mls.") || strings.Contains(l, "/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// Proc delivers a message.
func Proc(g *mls.Group, msg []byte) (data []byte, err error) {
	defer enter().leave(&err)
	return g.UnmarshalAndProcessMessage(msg)
}

// Send makes an application message.
func Send(g *mls.Group, data []byte) (msg []byte, err error) {
	defer enter().leave(&err)
	return g.CreateApplicationMessage(data)
}

// Invite makes a Welcome and commit.
func Invite(g *mls.Group, kps []mls.KeyPackage) (w *mls.Welcome, msg []byte, err error) {
	defer enter().leave(&err)
	return g.CreateWelcome(kps)
}

// InviteRaw is Invite for encoded key packages, returning an encoded Welcome.
func InviteRaw(g *mls.Group, kps ...[]byte) (w, msg []byte, err error) {
	defer enter().leave(&err)
	var list []mls.KeyPackage
	for _, b := range kps {
		kp, err := mls.UnmarshalKeyPackage(b)
		if err != nil {
			return nil, nil, err
		}
		list = append(list, *kp)
	}
	wel, msg, err := g.CreateWelcome(list)
	if err != nil {
		return nil, nil, err
	}
	return wel.Bytes(), msg, nil
}

// KeyPair turns a model party into the library's type.
func KeyPair(p *ref.Party) (kpp *mls.KeyPairPackage, err error) {
	defer enter().leave(&err)
	kp, err := mls.UnmarshalKeyPackage(p.KP.Msg())
	if err != nil {
		return nil, err
	}
	return &mls.KeyPairPackage{Public: *kp, Private: mls.PrivateKeyPackage{
		InitKey: cp(p.Priv.Init), EncryptionKey: cp(p.Priv.Enc), SignatureKey: cp(p.Priv.Sig)}}, nil
}

// Party turns a library key pair into the model's type.
func Party(kpp *mls.KeyPairPackage) (*ref.Party, error) {
	kp, err := ref.ParseKeyPackage(kpp.Public.Bytes())
	if err != nil {
		return nil, err
	}
	return &ref.Party{KP: kp, Priv: ref.Priv{Init: kpp.Private.InitKey, Enc: kpp.Private.EncryptionKey, Sig: kpp.Private.SignatureKey}}, nil
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// Create starts a library group.
func Create(gid []byte, p *ref.Party) (g *mls.Group, err error) {
	defer enter().leave(&err)
	kpp, err := KeyPair(p)
	if err != nil {
		return nil, err
	}
	return mls.CreateGroup(mls.GroupID(cp(gid)), kpp)
}

// Join joins from an encoded Welcome.
func Join(welcome []byte, p *ref.Party) (g *mls.Group, err error) {
	defer enter().leave(&err)
	w, err := mls.UnmarshalWelcome(welcome)
	if err != nil {
		return nil, err
	}
	kpp, err := KeyPair(p)
	if err != nil {
		return nil, err
	}
	return mls.GroupFromWelcome(w, kpp)
}

// Clone deep-copies a library value without knowing its fields. Sharing inside
// the value and spare slice capacity are preserved.
func Clone(g *mls.Group) *mls.Group {
	c := cloner{ptrs: map[ptrKey]reflect.Value{}}
	return c.clone(reflect.ValueOf(g)).Interface().(*mls.Group)
}

type ptrKey struct {
	p uintptr
	n int
	t reflect.Type
}

type cloner struct{ ptrs map[ptrKey]reflect.Value }

func plain(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128 || k == reflect.String
}

// immutable tells whether values of a foreign type are never altered once
// made (keys, curves, numbers), so that clones may and must share them.
func immutable(t reflect.Type) bool {
	p := t.PkgPath()
	for _, pre := range []string{"crypto", "math/big", "github.com/cloudflare/circl", "hash", "reflect", "internal", "time", "golang.org/x/crypto"} {
		if p == pre || strings.HasPrefix(p, pre+"/") {
			return true
		}
	}
	return false
}

func (c *cloner) clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || immutable(v.Type().Elem()) {
			return v
		}
		k := ptrKey{v.Pointer(), 0, v.Type()}
		if n, ok := c.ptrs[k]; ok {
			return n
		}
		n := reflect.New(v.Type().Elem())
		if n.Type() != v.Type() {
			n = n.Convert(v.Type())
		}
		c.ptrs[k] = n
		c.into(n.Elem(), v.Elem())
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Pointer(), v.Cap(), v.Type()}
		full := v.Slice3(0, v.Cap(), v.Cap())
		n, ok := c.ptrs[k]
		if !ok || v.Cap() == 0 {
			n = reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			c.ptrs[k] = n
			if plain(v.Type().Elem().Kind()) {
				reflect.Copy(n, full)
			} else {
				for i := 0; i < v.Cap(); i++ {
					c.into(n.Index(i), full.Index(i))
				}
			}
		}
		return n.Slice3(0, v.Len(), v.Cap())
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Pointer(), 0, v.Type()}
		if n, ok := c.ptrs[k]; ok {
			return n
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		c.ptrs[k] = n
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(c.clone(open(it.Key())), c.clone(open(it.Value())))
		}
		return n
	case reflect.Interface:
		if v.IsNil() || immutable(v.Elem().Type()) {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(c.clone(open(v.Elem())))
		return n
	case reflect.Struct, reflect.Array:
		n := reflect.New(v.Type()).Elem()
		c.into(n, v)
		return n
	default:
		return v
	}
}

// open gives access to a value obtained through an unexported field.
func open(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	// copy through an addressable value of the same type
	reflect.ValueOf(n.Addr().Interface()).Elem().Set(forceInterface(v))
	return n
}

func forceInterface(v reflect.Value) reflect.Value {
	type rv struct {
		typ  unsafe.Pointer
		ptr  unsafe.Pointer
		flag uintptr
	}
	c := v
	(*rv)(unsafe.Pointer(&c)).flag &^= 3 << 5 // drop the read-only bits
	return c
}

func (c *cloner) into(dst, src reflect.Value) {
	dst, src = open(dst), open(src)
	if src.Kind() != reflect.Slice && immutable(src.Type()) {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Struct:
		if strings.HasPrefix(src.Type().PkgPath(), "sync") {
			return // fresh lock
		}
		for i := 0; i < src.NumField(); i++ {
			c.into(dst.Field(i), src.Field(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.into(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(c.clone(src))
	}
}

// Same tells whether two library groups are structurally identical, which
// implies identical behaviour.
func Same(a, b *mls.Group) bool { return reflect.DeepEqual(a, b) }

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

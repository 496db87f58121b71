package ex

import (
	"encoding/binary"
	"hash/maphash"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Deep structural fingerprint of live objects, including unexported fields and
// the aliasing structure (which pointers and backing arrays are shared).  Two
// objects with the same fingerprint behave the same under every later call, so
// states may be merged on it.  Contexts, channels, functions, locks and the
// harness's own types (storage) carry no property-relevant state of the object
// and are reduced to "nil or not".

var (
	seedA = maphash.MakeSeed()
	seedB = maphash.MakeSeed()
)

type Fp [2]uint64

type hasher struct {
	buf  []byte
	ptrs map[ptrKey]uint32
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func FpBytes(b []byte) Fp { return Fp{maphash.Bytes(seedA, b), maphash.Bytes(seedB, b)} }

func DeepHash(vals ...any) Fp {
	h := &hasher{ptrs: map[ptrKey]uint32{}}
	for _, v := range vals {
		h.walk(reflect.ValueOf(v), 0)
	}
	return FpBytes(h.buf)
}

func (h *hasher) u64(x uint64) { h.buf = binary.LittleEndian.AppendUint64(h.buf, x) }
func (h *hasher) u8(x byte)    { h.buf = append(h.buf, x) }

func opaque(t reflect.Type) bool {
	p := t.PkgPath()
	switch p {
	case "context", "sync", "sync/atomic", "time", "internal/sync", "io":
		return true
	}
	if strings.HasPrefix(p, "github.com/ipfs/go-unixfs/zzverif") {
		return true
	}
	if p == "github.com/ipfs/go-ipld-format" && t.Name() == "NodePromise" {
		return true
	}
	return false
}

func (h *hasher) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		h.u8(0)
		return
	}
	if depth > 400 {
		h.u8(0xEE)
		return
	}
	t := v.Type()
	if opaque(t) && t.Kind() != reflect.Interface {
		h.u8(0xE0)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.u8(2)
		} else {
			h.u8(1)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.u8(3)
		h.u64(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.u8(4)
		h.u64(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.u8(5)
		h.u64(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		h.u8(5)
	case reflect.String:
		h.u8(6)
		s := v.String()
		h.u64(uint64(len(s)))
		h.buf = append(h.buf, s...)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			h.u8(7)
		} else {
			h.u8(8)
		}
	case reflect.Pointer:
		if v.IsNil() {
			h.u8(9)
			return
		}
		if opaque(t.Elem()) {
			h.u8(0xE1)
			return
		}
		k := ptrKey{v.UnsafePointer(), t}
		if id, ok := h.ptrs[k]; ok {
			h.u8(10)
			h.u64(uint64(id))
			return
		}
		h.ptrs[k] = uint32(len(h.ptrs))
		h.u8(11)
		h.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			h.u8(12)
			return
		}
		e := v.Elem()
		h.u8(13)
		h.buf = append(h.buf, e.Type().String()...)
		h.walk(e, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			h.u8(14)
			return
		}
		h.u8(15)
		n := v.Len()
		h.u64(uint64(n))
		if v.Cap() > n {
			h.u8(1)
		} else {
			h.u8(0)
		}
		if t.Elem().Kind() == reflect.Uint8 {
			h.buf = append(h.buf, v.Bytes()...)
			return
		}
		if n > 0 {
			k := ptrKey{v.UnsafePointer(), t}
			id, ok := h.ptrs[k]
			if !ok {
				id = uint32(len(h.ptrs))
				h.ptrs[k] = id
			}
			h.u64(uint64(id))
		}
		for i := 0; i < n; i++ {
			h.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			h.u8(16)
			return
		}
		h.u8(17)
		var parts []string
		for it := v.MapRange(); it.Next(); {
			sub := &hasher{ptrs: h.ptrs}
			sub.walk(it.Key(), depth+1)
			kl := len(sub.buf)
			_ = kl
			sub.walk(it.Value(), depth+1)
			parts = append(parts, string(sub.buf))
		}
		sort.Strings(parts)
		h.u64(uint64(len(parts)))
		for _, p := range parts {
			h.buf = append(h.buf, p...)
		}
	case reflect.Struct:
		h.u8(18)
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i), depth+1)
		}
	}
}

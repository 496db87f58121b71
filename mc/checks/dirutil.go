package checks

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	_ "github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/internal"
	"github.com/spaolacci/murmur3"

	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// realHash is the hash function the package under test installs.
var realHash func([]byte) []byte

func init() {
	realHash = internal.HAMTHashFunction
	internal.HAMTHashFunction = func(b []byte) []byte {
		if h, ok := chosenHash(string(b)); ok {
			return h
		}
		return realHash(b)
	}
}

// chosenHash: a name of the form <hex>!rest hashes to those bits.
func chosenHash(name string) ([]byte, bool) {
	i := strings.IndexByte(name, '!')
	if i < 0 || i > 16 {
		return nil, false
	}
	x := name[:i]
	for len(x) < 16 {
		x += "0"
	}
	b, err := hex.DecodeString(x)
	if err != nil {
		return nil, false
	}
	return b, true
}

// refHash is the reference for both: chosen names and real murmur3.
func refHash(name string) []byte {
	if h, ok := chosenHash(name); ok {
		return h
	}
	h := murmur3.Sum64([]byte(name))
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(h >> uint(56-8*i))
	}
	return b
}

// slotName makes a name whose hash selects the given slots at successive
// levels of a HAMT of the given width.
func slotName(width int, tag string, slots ...int) string {
	lg := 0
	for 1<<uint(lg) < width {
		lg++
	}
	var h [8]byte
	p := 0
	for _, s := range slots {
		for i := lg - 1; i >= 0; i-- {
			if p < 64 && s>>uint(i)&1 == 1 {
				h[p/8] |= 1 << uint(7-p%8)
			}
			p++
		}
	}
	x := strings.TrimRight(hex.EncodeToString(h[:]), "0")
	return x + "!" + tag
}

// repSlots repeats slot s n times, then appends last.
func repSlots(s, n int, last ...int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, s)
	}
	return append(out, last...)
}

// value is a directory entry's target.
type value struct {
	node ipld.Node
	e    refm.Entry
}

func mkValue(p *cid.Prefix, s string) value {
	n := dag.NodeWithData(ft.FilePBData([]byte(s), uint64(len(s))))
	if p != nil {
		n.SetCidBuilder(*p)
	}
	l, err := ipld.MakeLink(n)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return value{n, refm.Entry{Cid: n.Cid(), Tsize: l.Size}}
}

func mkRawValue(s string) value {
	n := dag.NewRawNode([]byte(s))
	return value{n, refm.Entry{Cid: n.Cid(), Tsize: uint64(len(s))}}
}

func entStr(m map[string]refm.Entry) string {
	var out []string
	for k, e := range m {
		c := e.Cid.String()
		out = append(out, fmt.Sprintf("%q->..%s/%d", k, c[len(c)-4:], e.Tsize))
	}
	sort.Strings(out)
	return "{" + strings.Join(out, " ") + "}"
}

func cloneEnts(m map[string]refm.Entry) map[string]refm.Entry {
	o := make(map[string]refm.Entry, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// sameLinks compares a listing with a map.
func sameLinks(ls []*ipld.Link, m map[string]refm.Entry) error {
	seen := map[string]bool{}
	for _, l := range ls {
		if l == nil {
			return fmt.Errorf("nil link listed")
		}
		e, ok := m[l.Name]
		if !ok {
			return fmt.Errorf("listed %q, which is not an entry", l.Name)
		}
		if seen[l.Name] {
			return fmt.Errorf("%q listed twice", l.Name)
		}
		seen[l.Name] = true
		if !l.Cid.Equals(e.Cid) {
			return fmt.Errorf("%q listed with target %s, want %s", l.Name, l.Cid, e.Cid)
		}
		if l.Size != e.Tsize {
			return fmt.Errorf("%q listed with size %d, want %d", l.Name, l.Size, e.Tsize)
		}
	}
	if len(seen) != len(m) {
		for k := range m {
			if !seen[k] {
				return fmt.Errorf("%q is missing from the listing of %d", k, len(ls))
			}
		}
	}
	return nil
}

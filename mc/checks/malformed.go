package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
	"github.com/ipfs/go-unixfs/zzverif/sched"
)

func init() {
	ex.Register(&ex.Check{ID: "C23", Level: "exploration", Run: runC23, Quick: 400 * time.Second, Thorough: 50 * time.Minute})
}

// mlink is a link of a node to be built: to another node of the shape or to a
// special target.
type mlink struct {
	kid   int // index in the shape; negative: special
	name  string
	tsize *uint64
}

const (
	spMissing   = -1 - iota // never stored
	spRawLeaf               // a raw block
	spGarbage               // dag-pb CID over bytes that are none
	spNoUnixfs              // dag-pb without data
	spBadUnixfs             // dag-pb whose data is no UnixFS message
	spCbor                  // another codec
	spIdentity              // identity hash, raw
	spDir
	spSymlink
	spMeta
	spHamt16 // a shard of another fan-out
	spFile
	spCount = 12
)

var spNames = []string{"missing block", "raw leaf", "undecodable block", "dag-pb without data", "dag-pb with junk data", "other codec", "identity CID", "directory", "symlink", "metadata", "shard of fan-out 16", "file"}

// mnode is a node to be built.
type mnode struct {
	refm.Node
	ls      []mlink
	pb      []byte // replaces the UnixFS message
	usePB   bool
	block   []byte // replaces the whole block
	useBlk  bool
	mutated bool
}

type mshape struct {
	name  string
	nodes []*mnode // children before parents; the last is the root
	kind  int      // mFile, mDir, mHamt
	names []string // names to look up
}

const (
	mFile = iota
	mDir
	mHamt
)

func (s *mshape) clone() *mshape {
	o := *s
	o.nodes = make([]*mnode, len(s.nodes))
	for i, n := range s.nodes {
		m := *n
		m.ls = append([]mlink{}, n.ls...)
		m.Blocksizes = append([]uint64{}, n.Blocksizes...)
		o.nodes[i] = &m
	}
	return &o
}

func special(st *env.Store, k int) (cid.Cid, uint64) {
	put := func(n *refm.Node) (cid.Cid, uint64) {
		b := n.EncodeBlock()
		p := v0
		if n.RawBlock {
			p = cid.Prefix{Version: 1, Codec: cid.Raw, MhType: v0.MhType, MhLength: -1}
		}
		c, err := p.Sum(b)
		if err != nil {
			panic(err)
		}
		st.Put(c, b)
		return c, uint64(len(b))
	}
	bytesAt := func(p cid.Prefix, b []byte, stored bool) (cid.Cid, uint64) {
		c, err := p.Sum(b)
		if err != nil {
			panic(err)
		}
		if stored {
			st.Put(c, b)
		}
		return c, uint64(len(b))
	}
	switch k {
	case spMissing:
		return bytesAt(v0, []byte("nowhere"), false)
	case spRawLeaf:
		return put(&refm.Node{RawBlock: true, Data: []byte("rw")})
	case spGarbage:
		return bytesAt(v0, []byte{0x12, 0xff, 0x01}, true)
	case spNoUnixfs:
		return bytesAt(v0, nil, true)
	case spBadUnixfs:
		return bytesAt(v0, refm.EncodePB(nil, []byte("junk")), true)
	case spCbor:
		return bytesAt(cid.Prefix{Version: 1, Codec: cid.DagCBOR, MhType: v0.MhType, MhLength: -1}, []byte{0xa0}, true)
	case spIdentity:
		return bytesAt(cid.Prefix{Version: 1, Codec: cid.Raw, MhType: 0, MhLength: -1}, []byte("id"), true)
	case spDir:
		return put(&refm.Node{Type: refm.Directory})
	case spSymlink:
		return put(&refm.Node{Type: refm.Symlink, Data: []byte("/t"), HasData: true})
	case spMeta:
		return put(&refm.Node{Type: refm.Metadata, Data: refm.EncodeMime("a/b"), HasData: true})
	case spHamt16:
		l, ls := special(st, spRawLeaf)
		return put(&refm.Node{Type: refm.HAMT, Data: []byte{0x02}, HasData: true, HasHash: true, HashType: 0x22, HasFanout: true, Fanout: 16,
			Links: []refm.Link{{Name: "1x", Cid: l, Tsize: ls}}})
	case spFile:
		return put(&refm.Node{Type: refm.File, Data: []byte("fl"), HasData: true, HasSize: true, FileSize: 2})
	}
	panic("special")
}

// build stores the shape and returns the root and every node's CID.
func (s *mshape) build(st *env.Store) (cid.Cid, []cid.Cid) {
	ids := make([]cid.Cid, len(s.nodes))
	sizes := make([]uint64, len(s.nodes))
	for i, n := range s.nodes {
		var links []refm.Link
		sum := uint64(0)
		for _, l := range n.ls {
			var k cid.Cid
			var t uint64
			if l.kid < 0 {
				k, t = special(st, l.kid)
			} else {
				k, t = ids[l.kid], sizes[l.kid]
			}
			if l.tsize != nil {
				t = *l.tsize
			}
			sum += t
			links = append(links, refm.Link{Name: l.name, Cid: k, Tsize: t})
		}
		var b []byte
		switch {
		case n.useBlk:
			b = n.block
		case n.RawBlock:
			b = n.Data
		case n.usePB:
			b = refm.EncodePB(links, n.pb)
		default:
			b = refm.EncodePB(links, n.EncodeUnixfs())
		}
		p := v0
		if n.RawBlock {
			p = cid.Prefix{Version: 1, Codec: cid.Raw, MhType: v0.MhType, MhLength: -1}
		}
		k, err := p.Sum(b)
		if err != nil {
			panic(err)
		}
		st.Put(k, b)
		ids[i], sizes[i] = k, sum+uint64(len(b))
	}
	return ids[len(ids)-1], ids
}

// mut changes one thing of a node; it reports whether it applies.
type mut struct {
	name string
	f    func(n *mnode) bool
}

func mutations() []mut {
	var ms []mut
	add := func(name string, f func(n *mnode) bool) { ms = append(ms, mut{name, f}) }
	pb := func(n *mnode) bool { return !n.RawBlock && !n.usePB && !n.useBlk }
	for t := 0; t <= 7; t++ {
		t := t
		if t == 7 {
			t = math.MaxInt32
		}
		add(fmt.Sprintf("type %d", t), func(n *mnode) bool {
			if !pb(n) || n.Type == t {
				return false
			}
			n.Type = t
			return true
		})
	}
	for _, x := range []struct {
		n string
		b []byte
	}{{"no data field", nil}, {"empty data field", []byte{}}, {"junk data field", []byte("junk")}, {"no type", []byte{0x12, 1, 'x', 0x18, 1}}} {
		x := x
		add(x.n, func(n *mnode) bool {
			if !pb(n) {
				return false
			}
			n.usePB, n.pb = true, x.b
			return true
		})
	}
	add("undecodable block", func(n *mnode) bool {
		if !pb(n) {
			return false
		}
		n.useBlk, n.block = true, []byte{0x0a, 0x7f}
		return true
	})
	add("empty block", func(n *mnode) bool {
		if n.useBlk {
			return false
		}
		n.useBlk, n.block = true, nil
		return true
	})
	for _, d := range [][]byte{nil, {}, {0}, {0x80}, {0xff}, []byte("abc"), bytes.Repeat([]byte{0xff}, 2), bytes.Repeat([]byte{0xff}, 200), append([]byte{0, 0}, 0x03), bytes.Repeat([]byte{0}, 33)} {
		d := d
		add(fmt.Sprintf("data %x", cut(d)), func(n *mnode) bool {
			if n.RawBlock || !pb(n) || (bytes.Equal(n.Data, d) && n.HasData == (d != nil)) {
				return false
			}
			n.Data, n.HasData = d, d != nil
			return true
		})
	}
	add("data without its last byte", func(n *mnode) bool {
		if !pb(n) || len(n.Data) == 0 {
			return false
		}
		n.Data = n.Data[:len(n.Data)-1]
		return true
	})
	add("data with a zero byte before", func(n *mnode) bool {
		if !pb(n) || !n.HasData {
			return false
		}
		n.Data = append([]byte{0}, n.Data...)
		return true
	})
	for bit := 0; bit < 8; bit++ {
		bit := bit
		add(fmt.Sprintf("bit %d of the data flipped", bit), func(n *mnode) bool {
			if !pb(n) || n.Type != refm.HAMT || len(n.Data) == 0 {
				return false
			}
			n.Data = append([]byte{}, n.Data...)
			n.Data[len(n.Data)-1] ^= 1 << uint(bit)
			return true
		})
	}
	big := []uint64{1, 1 << 20, 1 << 31, 1 << 40, 1<<63 - 1, 1 << 63, math.MaxUint64}
	num := func(what string, set func(n *mnode, v uint64, has bool) bool, extra ...uint64) {
		add("no "+what, func(n *mnode) bool { return pb(n) && set(n, 0, false) })
		for _, v := range append(append([]uint64{0}, extra...), big...) {
			v := v
			add(fmt.Sprintf("%s %d", what, v), func(n *mnode) bool { return pb(n) && set(n, v, true) })
		}
	}
	num("file size", func(n *mnode, v uint64, has bool) bool { n.FileSize, n.HasSize = v, has; return true }, 2, 3, 4, 5, 6, 7)
	num("fan-out", func(n *mnode, v uint64, has bool) bool {
		n.Fanout, n.HasFanout = v, has
		return n.Type == refm.HAMT
	}, 2, 3, 4, 7, 8, 9, 16, 24, 32, 256, 512, 1024, 2048, 1<<16, 1<<24, 1<<32, 1<<32+8)
	num("hash type", func(n *mnode, v uint64, has bool) bool { n.HashType, n.HasHash = v, has; return n.Type == refm.HAMT })
	for _, v := range append([]uint64{0}, big...) {
		v := v
		for _, first := range []bool{true, false} {
			first := first
			add(fmt.Sprintf("block size %d (first: %v)", v, first), func(n *mnode) bool {
				if !pb(n) || len(n.Blocksizes) == 0 {
					return false
				}
				i := 0
				if !first {
					i = len(n.Blocksizes) - 1
				}
				n.Blocksizes[i] = v
				return true
			})
		}
		add(fmt.Sprintf("all block sizes %d", v), func(n *mnode) bool {
			for i := range n.Blocksizes {
				n.Blocksizes[i] = v
			}
			return pb(n) && len(n.Blocksizes) > 1
		})
		add(fmt.Sprintf("one more block size %d", v), func(n *mnode) bool {
			n.Blocksizes = append(n.Blocksizes, v)
			return pb(n)
		})
	}
	add("no block sizes", func(n *mnode) bool {
		ok := pb(n) && len(n.Blocksizes) > 0
		n.Blocksizes = nil
		return ok
	})
	add("one block size less", func(n *mnode) bool {
		if !pb(n) || len(n.Blocksizes) < 2 {
			return false
		}
		n.Blocksizes = n.Blocksizes[:len(n.Blocksizes)-1]
		return true
	})
	add("block sizes in another order", func(n *mnode) bool {
		if !pb(n) || len(n.Blocksizes) < 2 {
			return false
		}
		b := n.Blocksizes
		b[0], b[len(b)-1] = b[len(b)-1]+1, b[0]
		return true
	})
	linked := func(n *mnode) bool { return !n.RawBlock && !n.useBlk && len(n.ls) > 0 }
	add("no links", func(n *mnode) bool { ok := linked(n); n.ls = nil; return ok })
	add("last link gone", func(n *mnode) bool {
		if !linked(n) {
			return false
		}
		n.ls = n.ls[:len(n.ls)-1]
		return true
	})
	add("first link gone", func(n *mnode) bool {
		if !linked(n) {
			return false
		}
		n.ls = n.ls[1:]
		return true
	})
	add("first link twice", func(n *mnode) bool {
		if !linked(n) {
			return false
		}
		n.ls = append([]mlink{n.ls[0]}, n.ls...)
		return true
	})
	add("links in reverse", func(n *mnode) bool {
		if !linked(n) || len(n.ls) < 2 {
			return false
		}
		for i, j := 0, len(n.ls)-1; i < j; i, j = i+1, j-1 {
			n.ls[i], n.ls[j] = n.ls[j], n.ls[i]
		}
		return true
	})
	for k := -1; k >= -spCount; k-- {
		k := k
		for _, where := range []string{"first", "last", "one more"} {
			where := where
			add(fmt.Sprintf("%s link to: %s", where, spNames[-1-k]), func(n *mnode) bool {
				if n.RawBlock || n.useBlk {
					return false
				}
				if where == "one more" {
					n.ls = append(n.ls, mlink{kid: k, name: "zz"})
					return true
				}
				if len(n.ls) == 0 {
					return false
				}
				i := 0
				if where == "last" {
					i = len(n.ls) - 1
				}
				n.ls[i].kid = k
				return true
			})
		}
	}
	for _, nm := range []string{"", "0", "7", "00", "000", "ZZ", "é", "a/b", ".", "\x00", strings.Repeat("n", 300), "3", "F"} {
		nm := nm
		for _, first := range []bool{true, false} {
			first := first
			add(fmt.Sprintf("link name %q (first: %v)", nm, first), func(n *mnode) bool {
				if !linked(n) {
					return false
				}
				i := 0
				if !first {
					i = len(n.ls) - 1
				}
				if n.ls[i].name == nm {
					return false
				}
				n.ls[i].name = nm
				return true
			})
		}
	}
	for _, v := range []uint64{0, 1 << 40} { // go-merkledag panics on sizes past 1<<63
		v := v
		add(fmt.Sprintf("link size %d", v), func(n *mnode) bool {
			if !linked(n) {
				return false
			}
			n.ls[0].tsize = &v
			return true
		})
	}
	return ms
}

func mshapes() []*mshape {
	raw := func(s string) *mnode { return &mnode{Node: refm.Node{RawBlock: true, Data: []byte(s)}} }
	leaf := func(t int, s string) *mnode {
		return &mnode{Node: refm.Node{Type: t, Data: []byte(s), HasData: true, HasSize: true, FileSize: uint64(len(s))}}
	}
	inner := func(ls []int, sizes ...uint64) *mnode {
		n := &mnode{Node: refm.Node{Type: refm.File, HasSize: true, Blocksizes: sizes}}
		for _, k := range ls {
			n.ls = append(n.ls, mlink{kid: k})
		}
		for _, s := range sizes {
			n.FileSize += s
		}
		return n
	}
	shard := func(width int, ents ...any) *mnode { // slot, name (""=sub-shard), kid
		n := &mnode{Node: refm.Node{Type: refm.HAMT, HasData: true, HasHash: true, HashType: 0x22, HasFanout: true, Fanout: uint64(width)}}
		bits := make([]byte, width/8)
		pad := len(fmt.Sprintf("%X", width-1))
		for i := 0; i < len(ents); i += 3 {
			s := ents[i].(int)
			bits[len(bits)-1-s/8] |= 1 << uint(s%8)
			n.ls = append(n.ls, mlink{kid: ents[i+2].(int), name: fmt.Sprintf("%0*X", pad, s) + ents[i+1].(string)})
		}
		for len(bits) > 1 && bits[0] == 0 {
			bits = bits[1:]
		}
		n.Data = bits
		return n
	}
	a := slotName(8, "a", 1)
	b := slotName(8, "b", 3, 2)
	cc := slotName(8, "c", 3, 5)
	d := slotName(8, "d", 6, 1, 4)
	e := slotName(8, "e", 6, 1, 7)
	wa := slotName(256, "a", 0x11)
	wb := slotName(256, "b", 0x20, 0x07)
	wc := slotName(256, "c", 0x20, 0xf0)
	dir := &mnode{Node: refm.Node{Type: refm.Directory}, ls: []mlink{{kid: 0, name: "a"}, {kid: 1, name: "b"}}}
	meta := &mnode{Node: refm.Node{Type: refm.Metadata, HasData: true, Data: refm.EncodeMime("a/b"), HasSize: true, FileSize: 3}, ls: []mlink{{kid: 0, name: ""}}}
	return []*mshape{
		{name: "file, raw leaves", kind: mFile, nodes: []*mnode{raw("abc"), raw("de"), inner([]int{0, 1}, 3, 2)}},
		{name: "file, protobuf leaves", kind: mFile, nodes: []*mnode{leaf(refm.File, "abc"), leaf(refm.Raw, "de"), inner([]int{0, 1}, 3, 2)}},
		{name: "file of one protobuf node", kind: mFile, nodes: []*mnode{leaf(refm.File, "abcde")}},
		{name: "file of one raw block", kind: mFile, nodes: []*mnode{raw("abcde")}},
		{name: "file, three levels", kind: mFile, nodes: []*mnode{leaf(refm.File, "ab"), raw("c"), inner([]int{0, 1}, 2, 1), leaf(refm.Raw, "de"), inner([]int{3}, 2), inner([]int{2, 4}, 3, 2)}},
		{name: "trickle file", kind: mFile, nodes: []*mnode{leaf(refm.Raw, "a"), leaf(refm.Raw, "b"), leaf(refm.Raw, "c"), inner([]int{1, 2}, 1, 1), inner([]int{0, 0, 3}, 1, 1, 2)}},
		{name: "metadata", kind: mFile, nodes: []*mnode{leaf(refm.File, "abc"), meta}},
		{name: "symlink", kind: mFile, nodes: []*mnode{{Node: refm.Node{Type: refm.Symlink, HasData: true, Data: []byte("/t")}}}},
		{name: "directory", kind: mDir, names: []string{"a", "b"}, nodes: []*mnode{raw("abc"), leaf(refm.File, "de"), dir}},
		{name: "sharded, fan-out 8", kind: mHamt, names: []string{a, b, cc, d, e}, nodes: []*mnode{raw("abc"), leaf(refm.File, "de"),
			shard(8, 2, b, 0, 5, cc, 1), shard(8, 4, d, 0, 7, e, 1), shard(8, 1, "", 3), shard(8, 1, a, 0, 3, "", 2, 6, "", 4)}},
		{name: "sharded, fan-out 256", kind: mHamt, names: []string{wa, wb, wc}, nodes: []*mnode{raw("abc"), leaf(refm.File, "de"),
			shard(256, 0x07, wb, 0, 0xf0, wc, 1), shard(256, 0x11, wa, 1, 0x20, "", 2)}},
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	s := []metrics.Sample{allocSample[0]}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// quiet is held for writing while an allocation is measured.
var quiet sync.RWMutex

const allocCap = 32 << 20

// mctx is one malformed DAG and one operation on it.
type mctx struct {
	c     *ex.Ctl
	st    *env.Store
	s     *mshape
	root  cid.Cid
	ids   []cid.Cid
	gets  int
	deep  bool
	loops bool
}

func (m *mctx) node() ipld.Node {
	n, err := m.st.Get(bg, m.root)
	if err != nil {
		m.c.Outcome("root does not load")
		m.c.Skip()
	}
	return n
}

// content is what reading the file from its start must give: the leaves' bytes
// up to the first node that is none, and whether that is the whole file.
func (m *mctx) content() (data []byte, whole bool, ok bool) {
	var rec func(k cid.Cid) bool
	rec = func(k cid.Cid) bool {
		blk, stored := m.st.Raw(k)
		if !stored {
			return false
		}
		if k.Type() == cid.Raw {
			data = append(data, blk...)
			return true
		}
		if k.Type() != cid.DagProtobuf {
			return false
		}
		n, data1, err := refm.ParsePB(k, blk)
		if err != nil {
			return false
		}
		err = n.ParseUnixfs(data1)
		if len(n.Links) > 0 {
			// What an inner node says of itself is not looked at.
			if len(n.Data) > 0 {
				ok = false // data in an inner node: what it stands for is not defined
			}
			for _, l := range n.Links {
				if !rec(l.Cid) {
					return false
				}
			}
			return true
		}
		if err != nil || !n.HasPB || (n.Type != refm.File && n.Type != refm.Raw) {
			return false
		}
		data = append(data, n.Data...)
		return true
	}
	ok = true
	k := m.root
	for {
		blk, stored := m.st.Raw(k)
		if !stored {
			return nil, false, false
		}
		if k.Type() != cid.DagProtobuf {
			break
		}
		n, data1, err := refm.ParsePB(k, blk)
		if err != nil {
			return nil, false, false
		}
		if n.ParseUnixfs(data1) != nil || n.Type != refm.Metadata || len(n.Links) == 0 {
			break
		}
		k = n.Links[0].Cid
	}
	whole = rec(k)
	return data, whole, ok
}

const readCap = 100000

func (m *mctx) readAll(r io.Reader, what string) ([]byte, error) {
	var out []byte
	buf := make([]byte, 7)
	idle := 0
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err == io.EOF {
				return out, nil
			}
			return out, err
		}
		if n == 0 {
			if idle++; idle > 1000 {
				m.c.Failf("%s: Read gives nothing and no error for ever", what)
			}
		} else {
			idle = 0
		}
		if len(out) > readCap {
			m.c.Failf("%s: more than %d bytes out of a DAG of a few dozen", what, readCap)
		}
	}
}

func (m *mctx) checkRead(got []byte, err error, what string) {
	want, whole, known := m.content()
	if !known {
		return
	}
	if !bytes.HasPrefix(want, got) {
		m.c.Failf("%s gives %q (%v); the leaves hold %q", what, got, err, want)
	}
	if err == nil && (!whole || len(got) != len(want)) {
		m.c.Failf("%s gives %q and no error; the leaves hold %q (whole: %v)", what, got, want, whole)
	}
}

var seekPos = []int64{0, 1, 3, 4, 5, 100, -1, -3, 1 << 40, math.MaxInt64, math.MinInt64}

func mops() []struct {
	name string
	kind int // shape kind, -1 all
	f    func(m *mctx)
} {
	type op = struct {
		name string
		kind int
		f    func(m *mctx)
	}
	var ops []op
	add := func(name string, kind int, f func(m *mctx)) { ops = append(ops, op{name, kind, f}) }
	run := func(m *mctx, what string, f func()) { wRun(m.c, sched.Opt{Fixed: true, MaxSteps: 50000}, what, f) }

	add("read", -1, func(m *mctx) {
		nd := m.node()
		run(m, "reading", func() {
			r, err := uio.NewDagReader(bg, nd, m.st)
			if err != nil {
				return
			}
			defer r.Close()
			r.Size()
			got, err := m.readAll(r, "reading")
			m.checkRead(got, err, "reading")
		})
	})
	add("write to", -1, func(m *mctx) {
		nd := m.node()
		run(m, "WriteTo", func() {
			r, err := uio.NewDagReader(bg, nd, m.st)
			if err != nil {
				return
			}
			defer r.Close()
			var b bytes.Buffer
			_, err = r.WriteTo(&b)
			m.checkRead(b.Bytes(), err, "WriteTo")
		})
	})
	add("seek and read", -1, func(m *mctx) {
		nd := m.node()
		p, wh, pre := seekPos[m.c.Choose(len(seekPos))], m.c.Choose(3), m.c.Choose(3)
		run(m, "seeking", func() {
			r, err := uio.NewDagReader(bg, nd, m.st)
			if err != nil {
				return
			}
			defer r.Close()
			if pre > 0 {
				if _, err := io.ReadFull(r, make([]byte, pre*2)); err != nil {
					return
				}
			}
			if _, err = r.Seek(p, wh); err != nil {
				return
			}
			m.readAll(r, fmt.Sprintf("reading after Seek(%d,%d)", p, wh))
			if _, err := r.Seek(0, io.SeekStart); err != nil {
				return
			}
			got, err := m.readAll(r, "reading")
			m.checkRead(got, err, "reading after Seek(0,0)")
		})
	})
	add("view", -1, func(m *mctx) {
		nd := m.node()
		run(m, "viewing", func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			n, err := unixfile.NewUnixfsFile(ctx, m.st, nd)
			if err != nil {
				return
			}
			var walk func(n files.Node, depth int)
			walk = func(n files.Node, depth int) {
				n.Size()
				defer n.Close()
				switch x := n.(type) {
				case files.Directory:
					if depth > 5 {
						m.c.Failf("the view is deeper than the DAG")
					}
					it := x.Entries()
					k := 0
					for it.Next() {
						if k++; k > 100 {
							m.c.Failf("the view lists more than the DAG holds")
						}
						it.Name()
						if it.Node() != nil {
							walk(it.Node(), depth+1)
						}
					}
					it.Err()
				case *files.Symlink:
				case files.File:
					if _, err := m.readAll(x, "reading the view"); err == nil {
						x.Seek(1, io.SeekStart)
						m.readAll(x, "reading the view")
					}
				}
			}
			walk(n, 0)
		})
	})
	names := func(m *mctx) []string {
		return append(append([]string{}, m.s.names...), "nope", "", slotName(8, "q", 3, 2, 1), slotName(8, "r", 0, 0), slotName(256, "s", 0x20, 0x07), slotName(8, "t", 7))
	}
	// intact tells whether every shard on the way to an entry is as it was.
	intact := func(m *mctx) bool {
		for i, n := range m.s.nodes {
			if n.mutated && i >= 2 {
				return false
			}
		}
		return m.s.kind != mFile
	}
	add("directory: list", -1, func(m *mctx) {
		nd := m.node()
		which := m.c.Choose(3)
		run(m, "listing", func() {
			d, err := uio.NewDirectoryFromNode(m.st, nd)
			if err != nil {
				return
			}
			n := 0
			switch which {
			case 0:
				var ls []*ipld.Link
				ls, err = d.Links(bg)
				n = len(ls)
			case 1:
				err = d.ForEachLink(bg, func(*ipld.Link) error {
					if n++; n > 100 {
						return errors.New("enough")
					}
					return nil
				})
			case 2:
				for r := range d.EnumLinksAsync(bg) {
					if r.Err != nil {
						err = r.Err
						continue
					}
					if r.Link == nil {
						m.c.Failf("the stream gives neither a link nor an error")
					}
					n++
				}
			}
			if n > 50 {
				m.c.Failf("listing gives %d entries out of a few links", n)
			}
			if intact(m) && (err != nil || n != len(m.s.names)) {
				m.c.Failf("listing an intact directory gives %d of %d entries, %v", n, len(m.s.names), err)
			}
		})
	})
	add("directory: find", -1, func(m *mctx) {
		nd := m.node()
		ns := names(m)
		name := ns[m.c.Choose(len(ns))]
		run(m, "finding", func() {
			d, err := uio.NewDirectoryFromNode(m.st, nd)
			if err != nil {
				return
			}
			n, err := d.Find(bg, name)
			if err == nil && n == nil {
				m.c.Failf("Find gives neither a node nor an error")
			}
		})
	})
	add("directory: change", -1, func(m *mctx) {
		nd := m.node()
		ns := names(m)
		steps := 1 + m.c.Choose(2)
		var what []int
		for i := 0; i < steps; i++ {
			if i == 0 || m.deep {
				what = append(what, m.c.Choose(2*len(ns)+1))
				continue
			}
			// Removing a known name, or storing.
			k := m.c.Choose(len(m.s.names) + 1)
			if k == len(m.s.names) {
				what = append(what, 2*len(ns))
			} else {
				what = append(what, 2*k+1)
			}
		}
		run(m, "changing", func() {
			d, err := uio.NewDirectoryFromNode(m.st, nd)
			if err != nil {
				return
			}
			for _, w := range what {
				switch {
				case w == 2*len(ns):
					d.GetNode()
				case w%2 == 0:
					d.AddChild(bg, ns[w/2], dag.NewRawNode([]byte("new")))
				default:
					d.RemoveChild(bg, ns[w/2])
				}
			}
			if n, err := d.GetNode(); err == nil {
				n.Cid()
			}
			d.Links(bg)
		})
	})
	add("shard: direct", mHamt, func(m *mctx) {
		nd := m.node()
		ns := names(m)
		k := m.c.Choose(len(ns))
		what := m.c.Choose(5)
		fi := m.c.Choose(len(m.s.names))
		run(m, "using the shard", func() {
			s, err := hamt.NewHamtFromDag(m.st, nd)
			if err != nil {
				return
			}
			switch what {
			case 0:
				l, err := s.Take(bg, ns[k])
				if l == nil && err == nil {
					m.c.Failf("Take gives neither a link nor an error")
				}
			case 1:
				s.Swap(bg, ns[k], dag.NewRawNode([]byte("new")))
			case 2:
				s.SetLink(bg, ns[k], &ipld.Link{Cid: m.ids[0], Size: 3})
			case 3:
				s.ForEachLink(bg, func(*ipld.Link) error { return nil })
				s.Remove(bg, ns[k])
			case 4:
				s.EnumLinks(bg)
				s.Set(bg, ns[k], dag.NewRawNode([]byte("new")))
			}
			s.Link()
			if n, err := s.Node(); err == nil {
				n.Cid()
			}
			s.Find(bg, m.s.names[fi])
			s.EnumLinks(bg)
		})
	})
	add("resolve", -1, func(m *mctx) {
		nd := m.node()
		ns := names(m)
		k := m.c.Choose(2 * len(ns))
		path := []string{ns[k/2]}
		if k%2 == 1 {
			path = append(path, "x")
		}
		l, _, err := uio.ResolveUnixfsOnce(bg, m.st, nd, path)
		if err == nil && l == nil {
			m.c.Failf("resolving gives neither a link nor an error")
		}
	})
	add("modify", mFile, func(m *mctx) {
		nd := m.node()
		type mo struct {
			k int
			v int64
		}
		all := []mo{{0, 0}, {1, 0}, {1, 2}, {1, 4}, {1, 9}, {2, 0}, {2, 1}, {2, 3}, {2, 4}, {2, 8}, {3, 0}, {4, 0}, {5, 2}, {5, 100}, {6, 0}}
		var seq []mo
		for i := 0; i < 2; i++ {
			k := m.c.Choose(len(all) + 1)
			if k == len(all) {
				break
			}
			seq = append(seq, all[k])
		}
		raw := m.c.Bool()
		run(m, "modifying", func() {
			dm, err := mod.NewDagModifier(bg, nd, m.st, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 2) })
			if err != nil {
				return
			}
			dm.RawLeaves = raw
			for _, o := range seq {
				switch o.k {
				case 0:
					dm.Size()
				case 1:
					dm.WriteAt([]byte("xyz"), o.v)
				case 2:
					dm.Truncate(o.v)
				case 3:
					io.CopyN(io.Discard, dm, readCap)
				case 4:
					if _, err := dm.Seek(0, io.SeekEnd); err == nil {
						dm.Write([]byte("pq"))
					}
				case 5:
					if _, err := dm.Seek(o.v, io.SeekStart); err == nil {
						dm.Read(make([]byte, 3))
					}
				case 6:
					dm.Sync()
				}
			}
			dm.Sync()
			if n, err := dm.GetNode(); err == nil {
				n.Cid()
			}
		})
	})
	add("append", -1, func(m *mctx) {
		nd := m.node()
		p := h.DagBuilderParams{Dagserv: m.st, Maxlinks: 2 + m.c.Choose(2)}
		n := m.c.Choose(7)
		db, err := p.New(splitList(chunksOf(pat(n), 1)))
		if err != nil {
			panic(err)
		}
		trickle.Append(bg, nd, db)
	})
	add("verify trickle", -1, func(m *mctx) {
		nd := m.node()
		trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: m.st, Direct: 2, LayerRepeat: 4, Prefix: &v0, RawLeaves: m.c.Bool()})
	})
	add("extract", -1, func(m *mctx) {
		nd := m.node()
		ft.ReadUnixFSNodeData(nd)
		if f, err := ft.ExtractFSNode(nd); err == nil {
			f.FileSize()
			f.BlockSizes()
			f.GetBytes()
		}
		if pn, ok := nd.(*dag.ProtoNode); ok {
			ft.DataSize(pn.Data())
			ft.MetadataFromBytes(pn.Data())
			if f, err := h.NewFSNFromDag(pn); err == nil {
				f.FileSize()
				for i := range pn.Links() {
					f.GetChild(bg, i, m.st)
				}
				f.Commit()
			}
		}
	})
	return ops
}

func runC23(r *ex.Run) {
	ex.HangLimit = 60 * time.Second
	ops := mops()
	muts := mutations()
	body := func(s *mshape, pairs int, only string) func(c *ex.Ctl) {
		return func(c *ex.Ctl) {
			var mine []int
			for i, o := range ops {
				if (o.kind < 0 || o.kind == s.kind) && (only == "" || o.name == only) {
					mine = append(mine, i)
				}
			}
			sh := s.clone()
			k := 1 + c.Choose(pairs)
			last := -1
			for i := 0; i < k; i++ {
				ni := c.Choose(len(sh.nodes))
				if i > 0 && ni < len(sh.nodes)-1 {
					c.Skip() // the second change is to the root
				}
				mi := c.Choose(len(muts))
				if ni*len(muts)+mi <= last {
					c.Skip()
				}
				last = ni*len(muts) + mi
				if !muts[mi].f(sh.nodes[ni]) {
					c.Skip()
				}
				sh.nodes[ni].mutated = true
				c.Logf("node %d: %s", ni, muts[mi].name)
			}
			o := ops[mine[c.Choose(len(mine))]]
			m := &mctx{c: c, st: env.NewStore(), s: sh, deep: r.Thorough()}
			m.root, m.ids = sh.build(m.st)
			c.Logf("%s", o.name)
			m.st.OnGet = func(cid.Cid) error {
				m.gets++
				if m.gets > 5000 {
					m.loops = true
					return env.ErrInjected
				}
				return nil
			}
			c.Step()
			mark := c.Mark()
			quiet.RLock()
			locked := true
			defer func() {
				if locked {
					quiet.RUnlock()
				}
			}()
			before := allocated()
			o.f(m)
			got := allocated() - before
			quiet.RUnlock()
			locked = false
			if m.loops {
				c.Failf("%s: more than 5000 fetches from a DAG of %d nodes", o.name, len(sh.nodes))
			}
			if got > allocCap {
				// Others allocate at the same time; measure with nobody else running.
				quiet.Lock()
				defer quiet.Unlock()
				c.Again(mark, func() {
					m2 := &mctx{c: c, st: env.NewStore(), s: sh, deep: r.Thorough()}
					m2.root, m2.ids = sh.build(m2.st)
					before := allocated()
					o.f(m2)
					got = allocated() - before
				})
				if got > allocCap {
					c.FailSig("allocation", "%s allocates %d bytes for a DAG of a few hundred", o.name, got)
				}
			}
			c.Outcome(o.name)
		}
	}
	shapes := mshapes()
	n := len(shapes) + 2
	if r.Thorough() {
		n += len(shapes)
	}
	for _, s := range shapes {
		r.Share(n, 2)
		n--
		r.Enum(s.name+", one change", ex.Opt{}, body(s, 1, ""))
	}
	// Directories that switch their form on the way.
	for _, s := range shapes {
		if s.kind == mFile || s.name == "sharded, fan-out 256" {
			continue
		}
		old := uio.HAMTShardingSize
		uio.HAMTShardingSize = 100
		r.Share(n, 2)
		n--
		r.Enum(s.name+", one change, switching", ex.Opt{}, body(s, 1, "directory: change"))
		uio.HAMTShardingSize = old
	}
	if r.Thorough() {
		for _, s := range shapes {
			r.Share(n, 2)
			n--
			r.Enum(s.name+", two changes", ex.Opt{}, body(s, 2, ""))
		}
	}
	r.Share(0, 0)
}

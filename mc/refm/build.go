package refm

import (
	"bytes"
	"fmt"
	"sort"

	cid "github.com/ipfs/go-cid"
	mh "github.com/multiformats/go-multihash"
)

// Getter returns stored block bytes.
type Getter interface {
	Raw(c cid.Cid) ([]byte, bool)
}

// B builds reference DAGs.
type B struct {
	Prefix *cid.Prefix // nil: CIDv0
	Blocks map[string][]byte
}

func NewB(p *cid.Prefix) *B { return &B{Prefix: p, Blocks: map[string][]byte{}} }

// Raw implements Getter.
func (b *B) Raw(c cid.Cid) ([]byte, bool) { x, ok := b.Blocks[c.KeyString()]; return x, ok }

// Built is a finished subtree.
type Built struct {
	Cid   cid.Cid
	Size  uint64 // file bytes
	Tsize uint64 // cumulative block bytes
}

func (b *B) cidOf(raw bool, block []byte) cid.Cid {
	p := cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	if b.Prefix != nil {
		p = *b.Prefix
	}
	p.Codec = cid.DagProtobuf
	if raw {
		p.Codec = cid.Raw
		if p.Version == 0 {
			p.Version = 1
		}
	}
	c, err := p.Sum(block)
	if err != nil {
		panic("refm: " + err.Error())
	}
	return c
}

// Put encodes and stores a node; its links' Tsize must be set.
func (b *B) Put(n *Node) Built {
	blk := n.EncodeBlock()
	c := b.cidOf(n.RawBlock, blk)
	b.Blocks[c.KeyString()] = blk
	r := Built{Cid: c, Size: n.FileSize, Tsize: uint64(len(blk))}
	if n.RawBlock {
		r.Size = uint64(len(n.Data))
	}
	for _, l := range n.Links {
		r.Tsize += l.Tsize
	}
	return r
}

// Leaf builds a leaf of type typ.
func (b *B) Leaf(data []byte, typ int, raw bool) Built {
	if raw {
		return b.Put(&Node{RawBlock: true, Data: data, HasData: true})
	}
	return b.Put(&Node{Type: typ, Data: data, HasData: data != nil, FileSize: uint64(len(data)), HasSize: true})
}

// Inner builds an internal file node over children.
func (b *B) Inner(kids []Built) Built {
	n := &Node{Type: File, HasSize: true}
	for _, k := range kids {
		n.Links = append(n.Links, Link{Cid: k.Cid, Tsize: k.Tsize})
		n.Blocksizes = append(n.Blocksizes, k.Size)
		n.FileSize += k.Size
	}
	return b.Put(n)
}

// Balanced is the canonical balanced DAG over chunks: all leaves at the same
// depth, nodes filled left to right, minimal depth.
func (b *B) Balanced(chunks [][]byte, maxlinks int, raw bool) Built {
	if len(chunks) == 0 {
		return b.Leaf(nil, File, raw)
	}
	var level []Built
	for _, c := range chunks {
		level = append(level, b.Leaf(c, File, raw))
	}
	for len(level) > 1 {
		var up []Built
		for i := 0; i < len(level); i += maxlinks {
			j := i + maxlinks
			if j > len(level) {
				j = len(level)
			}
			up = append(up, b.Inner(level[i:j]))
		}
		level = up
	}
	return level[0]
}

// Trickle is the canonical trickle DAG: maxlinks direct leaves, then layers of
// four subtrees each, of growing depth.
func (b *B) Trickle(chunks [][]byte, maxlinks int, raw bool) Built {
	return b.TrickleKinds(chunks, maxlinks, func(int) bool { return raw })
}

// TrickleKinds is Trickle with the kind of every leaf given.
func (b *B) TrickleKinds(chunks [][]byte, maxlinks int, raw func(i int) bool) Built {
	pos := 0
	var rec func(depth int) Built
	rec = func(depth int) Built {
		var kids []Built
		for len(kids) < maxlinks && pos < len(chunks) {
			kids = append(kids, b.Leaf(chunks[pos], Raw, raw(pos)))
			pos++
		}
		for d := 1; (depth < 0 || d < depth) && pos < len(chunks); d++ {
			for r := 0; r < 4 && pos < len(chunks); r++ {
				kids = append(kids, rec(d))
			}
		}
		return b.Inner(kids)
	}
	return rec(-1)
}

// Entry is a directory entry.
type Entry struct {
	Cid   cid.Cid
	Tsize uint64
}

// BasicDir builds the canonical basic directory.
func (b *B) BasicDir(ents map[string]Entry) Built {
	n := &Node{Type: Directory}
	names := SortedNames(ents)
	for _, nm := range names {
		n.Links = append(n.Links, Link{Name: nm, Cid: ents[nm].Cid, Tsize: ents[nm].Tsize})
	}
	return b.Put(n)
}

// SortedNames lists the names bytewise sorted.
func SortedNames(ents map[string]Entry) []string {
	var names []string
	for nm := range ents {
		names = append(names, nm)
	}
	sort.Slice(names, func(i, j int) bool { return bytes.Compare([]byte(names[i]), []byte(names[j])) < 0 })
	return names
}

// HAMTHashType is the code recorded for the 64-bit murmur3 hash.
const HAMTHashType = 0x22

// HashFn gives the hash bits of a name.
type HashFn func(name string) []byte

// HAMTDir builds the canonical HAMT of ents with the given width (power of 2,
// at least 8).
func (b *B) HAMTDir(ents map[string]Entry, width int, hash HashFn) (Built, error) {
	return b.hamtNode(ents, width, hash, 0)
}

func log2(w int) int {
	n := 0
	for 1<<uint(n) < w {
		n++
	}
	return n
}

// bitsAt reads nb bits of h at offset, most significant first.
func bitsAt(h []byte, off, nb int) (int, error) {
	v := 0
	for i := 0; i < nb; i++ {
		p := off + i
		if p/8 >= len(h) {
			return 0, fmt.Errorf("refm: hash bits exhausted")
		}
		bit := h[p/8] >> uint(7-p%8) & 1
		v = v<<1 | int(bit)
	}
	return v, nil
}

func (b *B) hamtNode(ents map[string]Entry, width int, hash HashFn, off int) (Built, error) {
	lg := log2(width)
	slots := make([]map[string]Entry, width)
	for nm, e := range ents {
		i, err := bitsAt(hash(nm), off, lg)
		if err != nil {
			return Built{}, err
		}
		if slots[i] == nil {
			slots[i] = map[string]Entry{}
		}
		slots[i][nm] = e
	}
	pad := len(fmt.Sprintf("%X", width-1))
	n := &Node{Type: HAMT, HasHash: true, HashType: HAMTHashType, HasFanout: true, Fanout: uint64(width)}
	bf := make([]byte, width/8)
	for i, s := range slots {
		if len(s) == 0 {
			continue
		}
		// bit i set, big-endian bytes, least significant bit first in the last byte
		bf[len(bf)-1-i/8] |= 1 << uint(i%8)
		pre := fmt.Sprintf("%0*X", pad, i)
		if len(s) == 1 {
			for nm, e := range s {
				n.Links = append(n.Links, Link{Name: pre + nm, Cid: e.Cid, Tsize: e.Tsize})
			}
			continue
		}
		k, err := b.hamtNode(s, width, hash, off+lg)
		if err != nil {
			return Built{}, err
		}
		n.Links = append(n.Links, Link{Name: pre, Cid: k.Cid, Tsize: k.Tsize})
	}
	for len(bf) > 0 && bf[0] == 0 {
		bf = bf[1:]
	}
	n.Data, n.HasData = bf, len(bf) > 0
	return b.Put(n), nil
}

// HAMTEntries reads a stored HAMT independently: name -> entry; errors when
// the structure is not a well-formed one (bitfield/link agreement, slot
// prefixes, single home of each name, compactness, recorded sizes).
func HAMTEntries(g Getter, root cid.Cid, hash HashFn) (map[string]Entry, uint64, error) {
	out := map[string]Entry{}
	var width int
	var rec func(c cid.Cid, off int, isRoot bool, prefix []int) (uint64, int, error)
	rec = func(c cid.Cid, off int, isRoot bool, prefix []int) (uint64, int, error) {
		blk, ok := g.Raw(c)
		if !ok {
			return 0, 0, fmt.Errorf("shard block %s is not stored", c)
		}
		n, err := Parse(c, blk)
		if err != nil {
			return 0, 0, err
		}
		if n.Type != HAMT || !n.HasFanout || !n.HasHash || n.HashType != HAMTHashType {
			return 0, 0, fmt.Errorf("not a HAMT shard node: type %d", n.Type)
		}
		if isRoot {
			width = int(n.Fanout)
		} else if int(n.Fanout) != width {
			return 0, 0, fmt.Errorf("fanout %d under fanout %d", n.Fanout, width)
		}
		lg := log2(width)
		pad := len(fmt.Sprintf("%X", width-1))
		if len(n.Data)*8 > width {
			return 0, 0, fmt.Errorf("bitfield of %d bytes for width %d", len(n.Data), width)
		}
		var idx []int
		for i := 0; i < width; i++ {
			by := len(n.Data) - 1 - i/8
			if by >= 0 && n.Data[by]>>uint(i%8)&1 == 1 {
				idx = append(idx, i)
			}
		}
		if len(idx) != len(n.Links) {
			return 0, 0, fmt.Errorf("%d bits set but %d links", len(idx), len(n.Links))
		}
		total := uint64(len(blk))
		count := 0
		for k, l := range n.Links {
			pre := fmt.Sprintf("%0*X", pad, idx[k])
			if len(l.Name) < pad || l.Name[:pad] != pre {
				return 0, 0, fmt.Errorf("link %q in slot %s", l.Name, pre)
			}
			total += l.Tsize
			if len(l.Name) > pad {
				nm := l.Name[pad:]
				h := hash(nm)
				for d, want := range append(append([]int{}, prefix...), idx[k]) {
					got, err := bitsAt(h, d*lg, lg)
					if err != nil {
						return 0, 0, err
					}
					if got != want {
						return 0, 0, fmt.Errorf("name %q is in slot %d at depth %d, its hash says %d", nm, want, d, got)
					}
				}
				if _, dup := out[nm]; dup {
					return 0, 0, fmt.Errorf("name %q twice", nm)
				}
				out[nm] = Entry{Cid: l.Cid, Tsize: l.Tsize}
				count++
				continue
			}
			ts, cnt, err := rec(l.Cid, off+lg, false, append(append([]int{}, prefix...), idx[k]))
			if err != nil {
				return 0, 0, err
			}
			if ts != l.Tsize {
				return 0, 0, fmt.Errorf("subshard size recorded %d, is %d", l.Tsize, ts)
			}
			if cnt < 2 {
				return 0, 0, fmt.Errorf("subshard with %d entries", cnt)
			}
			count += cnt
		}
		return total, count, nil
	}
	ts, _, err := rec(root, 0, true, nil)
	return out, ts, err
}

// DirEntries reads a stored directory of either representation.
func DirEntries(g Getter, root cid.Cid, hash HashFn) (ents map[string]Entry, isHAMT bool, err error) {
	blk, ok := g.Raw(root)
	if !ok {
		return nil, false, fmt.Errorf("directory block %s is not stored", root)
	}
	n, err := Parse(root, blk)
	if err != nil {
		return nil, false, err
	}
	switch n.Type {
	case HAMT:
		e, _, err := HAMTEntries(g, root, hash)
		return e, true, err
	case Directory:
		ents = map[string]Entry{}
		for _, l := range n.Links {
			if _, dup := ents[l.Name]; dup {
				return nil, false, fmt.Errorf("name %q twice", l.Name)
			}
			ents[l.Name] = Entry{l.Cid, l.Tsize}
		}
		return ents, false, nil
	}
	return nil, false, fmt.Errorf("not a directory: type %d", n.Type)
}

// FileInfo is what CheckFile finds.
type FileInfo struct {
	Content []byte
	Tsize   uint64
	Nodes   int
	Leaves  int
	MaxFan  int
}

// FileOpt relaxes CheckFile.
type FileOpt struct {
	AnyTsize bool // do not check recorded link sizes
}

// CheckFile reads the file DAG under root independently and verifies its
// metadata: every block is stored and hashes to its CID, every node's recorded
// size equals the bytes below it, every recorded child size equals that
// child's bytes, every link size equals the cumulative size of its subtree.
func CheckFile(g Getter, root cid.Cid, opt FileOpt) (*FileInfo, error) {
	fi := &FileInfo{}
	type memo struct {
		content []byte
		tsize   uint64
	}
	done := map[string]memo{}
	var rec func(c cid.Cid, depth int) (memo, error)
	rec = func(c cid.Cid, depth int) (memo, error) {
		if m, ok := done[c.KeyString()]; ok {
			return m, nil
		}
		if depth > 64 {
			return memo{}, fmt.Errorf("too deep")
		}
		blk, ok := g.Raw(c)
		if !ok {
			return memo{}, fmt.Errorf("block %s is not stored", c)
		}
		p := c.Prefix()
		got, err := p.Sum(blk)
		if err != nil || !got.Equals(c) {
			return memo{}, fmt.Errorf("block %s does not hash to its CID", c)
		}
		n, err := Parse(c, blk)
		if err != nil {
			return memo{}, err
		}
		fi.Nodes++
		m := memo{tsize: uint64(len(blk))}
		if n.RawBlock {
			m.content = n.Data
			fi.Leaves++
			done[c.KeyString()] = m
			return m, nil
		}
		if n.Type != File && n.Type != Raw {
			return memo{}, fmt.Errorf("node type %d in a file", n.Type)
		}
		if len(n.Links) > fi.MaxFan {
			fi.MaxFan = len(n.Links)
		}
		if len(n.Links) == 0 {
			fi.Leaves++
			if len(n.Blocksizes) != 0 {
				return memo{}, fmt.Errorf("leaf with block sizes")
			}
			m.content = n.Data
		} else {
			if n.Type != File {
				return memo{}, fmt.Errorf("internal node of type %d", n.Type)
			}
			if len(n.Data) != 0 {
				return memo{}, fmt.Errorf("internal node with %d inline bytes and %d links", len(n.Data), len(n.Links))
			}
			if len(n.Blocksizes) != len(n.Links) {
				return memo{}, fmt.Errorf("%d block sizes for %d links", len(n.Blocksizes), len(n.Links))
			}
			for i, l := range n.Links {
				k, err := rec(l.Cid, depth+1)
				if err != nil {
					return memo{}, err
				}
				if uint64(len(k.content)) != n.Blocksizes[i] {
					return memo{}, fmt.Errorf("child %d holds %d bytes, recorded %d", i, len(k.content), n.Blocksizes[i])
				}
				if !opt.AnyTsize && l.Tsize != k.tsize {
					return memo{}, fmt.Errorf("child %d has cumulative size %d, link says %d", i, k.tsize, l.Tsize)
				}
				m.tsize += k.tsize
				m.content = append(m.content[:len(m.content):len(m.content)], k.content...)
			}
		}
		if n.FileSize != uint64(len(m.content)) {
			return memo{}, fmt.Errorf("node records size %d, holds %d", n.FileSize, len(m.content))
		}
		done[c.KeyString()] = m
		return m, nil
	}
	m, err := rec(root, 0)
	if err != nil {
		return nil, err
	}
	fi.Content = m.content
	fi.Tsize = m.tsize
	return fi, nil
}

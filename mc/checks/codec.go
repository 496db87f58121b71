package checks

import (
	"bytes"
	"fmt"
	"math"
	"time"

	proto "github.com/gogo/protobuf/proto"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

func init() {
	ex.Register(&ex.Check{ID: "C20", Level: "exploration", Run: runC20, Quick: 200 * time.Second, Thorough: 40 * time.Minute})
}

var sizeEdges = []uint64{0, 1, 127, 128, 16383, 16384, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 56, 1<<63 - 1, 1 << 63, math.MaxUint64}

// agree: everything the code can say about an accepted message is what the
// independent decoder says.
func agree(c *ex.Ctl, what string, n *ft.FSNode, r *refm.Node) {
	if int(n.Type()) != r.Type {
		c.Failf("%s: type %d, independent decoder %d", what, n.Type(), r.Type)
	}
	if !bytes.Equal(n.Data(), r.Data) {
		c.Failf("%s: data %q, independent decoder %q", what, n.Data(), r.Data)
	}
	bs := n.BlockSizes()
	if len(bs) != len(r.Blocksizes) || n.NumChildren() != len(r.Blocksizes) {
		c.Failf("%s: block sizes %v (%d), independent decoder %v", what, bs, n.NumChildren(), r.Blocksizes)
	}
	for i := range bs {
		if bs[i] != r.Blocksizes[i] || n.BlockSize(i) != r.Blocksizes[i] {
			c.Failf("%s: block sizes %v, independent decoder %v", what, bs, r.Blocksizes)
		}
	}
	if n.HashType() != r.HashType {
		c.Failf("%s: hash type %d, independent decoder %d", what, n.HashType(), r.HashType)
	}
	if n.Fanout() != r.Fanout {
		c.Failf("%s: fan-out %d, independent decoder %d", what, n.Fanout(), r.Fanout)
	}
	if n.IsDir() != (r.Type == refm.Directory || r.Type == refm.HAMT) {
		c.Failf("%s: IsDir %v for type %d", what, n.IsDir(), r.Type)
	}
	if want, ok, known := contentSize(r); known {
		if got := n.FileSize(); got != want {
			c.Failf("%s: FileSize %d (known %v), want %d", what, got, ok, want)
		}
	}
}

// contentSize is what a size query must answer: ok says whether there is an
// answer, known whether the property says anything.
func contentSize(r *refm.Node) (size uint64, ok, known bool) {
	switch r.Type {
	case refm.File, refm.Raw:
		return r.FileSize, true, r.HasSize
	case refm.Symlink:
		return uint64(len(r.Data)), true, true
	case refm.Metadata:
		return 0, false, false
	}
	return 0, false, true
}

// decodeAll runs every decoding entry point on b.
func decodeAll(c *ex.Ctl, b []byte, mustAccept bool) {
	c.Step()
	r, rerr := refm.DecodeAny(b)
	if mustAccept && rerr != nil {
		panic(fmt.Sprintf("harness: %x: %v", b, rerr))
	}
	in := append([]byte{}, b...)
	n, err := ft.FSNodeFromBytes(in)
	if (err == nil) && rerr != nil {
		c.Failf("FSNodeFromBytes accepts %x: %v", b, rerr)
	}
	if mustAccept && err != nil {
		c.Failf("FSNodeFromBytes rejects %x: %v", b, err)
	}
	accept := err == nil
	if err == nil {
		for i := range in {
			in[i] = ^in[i]
		}
		agree(c, fmt.Sprintf("FSNodeFromBytes(%x)", b), n, r)
	}
	d, err := ft.FromBytes(b)
	if (err == nil) != accept {
		c.Failf("FromBytes(%x): %v, FSNodeFromBytes accepted=%v", b, err, accept)
	}
	if accept && (d.GetFilesize() != r.FileSize || (d.Filesize != nil) != r.HasSize) {
		c.Failf("FromBytes(%x): file size %v, independent decoder %d", b, d.Filesize, r.FileSize)
	}
	u, err := ft.UnwrapData(b)
	if (err == nil) != accept || (accept && !bytes.Equal(u, r.Data)) {
		c.Failf("UnwrapData(%x) = %q, %v; accepted=%v", b, u, err, accept)
	}
	sz, err := ft.DataSize(b)
	if !accept {
		if err == nil {
			c.Failf("DataSize(%x) = %d on bytes no decoder accepts", b, sz)
		}
	} else if want, ok, known := contentSize(r); known && ((err == nil) != ok || sz != want) {
		c.Failf("DataSize(%x) = %d, %v; want %d, ok=%v", b, sz, err, want, ok)
	}
	md, err := ft.MetadataFromBytes(b)
	if err == nil {
		if !accept || r.Type != refm.Metadata {
			c.Failf("MetadataFromBytes accepts %x", b)
		}
		m, merr := refm.DecodeMime(r.Data)
		if merr != nil || md.MimeType != m {
			c.Failf("MetadataFromBytes(%x) = %q; independent decoder %q, %v", b, md.MimeType, m, merr)
		}
		if r.HasSize && md.Size != r.FileSize {
			c.FailSig("metadata-size", "MetadataFromBytes(%x).Size = %d, encoded %d", b, md.Size, r.FileSize)
		}
	}
	nd := dag.NodeWithData(append([]byte{}, b...))
	en, err := ft.ExtractFSNode(nd)
	if (err == nil) != accept {
		c.Failf("ExtractFSNode(%x): %v, accepted=%v", b, err, accept)
	}
	if accept {
		agree(c, "ExtractFSNode", en, r)
	}
	rd, err := ft.ReadUnixFSNodeData(nd)
	if wantOK := accept && (r.Type == refm.File || r.Type == refm.Raw); (err == nil) != wantOK {
		c.Failf("ReadUnixFSNodeData(%x): %v, want ok=%v", b, err, wantOK)
	} else if wantOK && !bytes.Equal(rd, r.Data) {
		c.Failf("ReadUnixFSNodeData(%x) = %q, want %q", b, rd, r.Data)
	}
	if accept {
		c.Outcome("accepted")
	} else {
		c.Outcome("rejected")
	}
}

func runC20(r *ex.Run) {
	datas := [][]byte{nil, {}, {0}, []byte("abc"), pat(127), pat(128), pat(300), {0xff, 0x80, 0, '\n'}}
	lists := [][]uint64{nil, {0}, {1, 2}, {128, math.MaxUint64}, {3, 3, 3}, {1 << 31, 127, 0, 1 << 63, 300}}
	opt := func(v uint64, k int) *uint64 {
		if k == 0 {
			return nil
		}
		return &v
	}
	hashes := []uint64{0, 0, 0x22, 128, math.MaxUint64}
	fans := []uint64{0, 0, 8, 256, 1 << 40, math.MaxUint64}

	r.Enum("messages: encode and decode", ex.Opt{}, func(c *ex.Ctl) {
		typ := c.Choose(6)
		di, si, li, hi, fi := c.Choose(len(datas)), c.Choose(len(sizeEdges)+1), c.Choose(len(lists)), c.Choose(len(hashes)), c.Choose(len(fans))
		want := &refm.Node{HasPB: true, Type: typ, Data: datas[di], HasData: datas[di] != nil, Blocksizes: lists[li]}
		t := pb.Data_DataType(typ)
		m := &pb.Data{Type: &t, Data: datas[di], Blocksizes: lists[li]}
		if si > 0 {
			want.FileSize, want.HasSize = sizeEdges[si-1], true
			m.Filesize = opt(sizeEdges[si-1], 1)
		}
		if hi > 0 {
			want.HashType, want.HasHash = hashes[hi], true
			m.HashType = opt(hashes[hi], 1)
		}
		if fi > 0 {
			want.Fanout, want.HasFanout = fans[fi], true
			m.Fanout = opt(fans[fi], 1)
		}
		enc := want.EncodeUnixfs()
		got, err := proto.Marshal(m)
		if err != nil || !bytes.Equal(got, enc) {
			c.Failf("pb.Data %v encodes to %x, %v; published encoding %x", m, got, err, enc)
		}
		decodeAll(c, enc, true)
		n, _ := ft.FSNodeFromBytes(enc)
		back, err := n.GetBytes()
		if err != nil || !bytes.Equal(back, enc) {
			c.Failf("%x decodes and encodes to %x, %v", enc, back, err)
		}
		if !n.IsDir() && si > 0 {
			nd := dag.NodeWithData(enc)
			nd.SetCidBuilder(v1)
			blk := refm.EncodePB(nil, enc)
			if !bytes.Equal(nd.RawData(), blk) {
				c.Failf("block of %x is %x, want %x", enc, nd.RawData(), blk)
			}
		}
	})

	r.Enum("constructors", ex.Opt{}, func(c *ex.Ctl) {
		chk := func(what string, got []byte, err error, want *refm.Node) {
			if e := want.EncodeUnixfs(); err != nil || !bytes.Equal(got, e) {
				c.Failf("%s = %x, %v; published encoding %x", what, got, err, e)
			}
			decodeAll(c, got, true)
		}
		switch c.Choose(8) {
		case 0:
			d, s := datas[c.Choose(len(datas))], sizeEdges[c.Choose(len(sizeEdges))]
			chk("FilePBData", ft.FilePBData(d, s), nil, &refm.Node{Type: refm.File, Data: d, HasData: d != nil, FileSize: s, HasSize: true})
		case 1:
			d := datas[c.Choose(len(datas))]
			w := ft.WrapData(d)
			chk("WrapData", w, nil, &refm.Node{Type: refm.Raw, Data: d, HasData: d != nil, FileSize: uint64(len(d)), HasSize: true})
			if s, err := ft.DataSize(w); err != nil || s != uint64(len(d)) {
				c.Failf("DataSize(WrapData(%d bytes)) = %d, %v", len(d), s, err)
			}
		case 2:
			d := datas[c.Choose(len(datas))]
			b, err := ft.SymlinkData(string(d))
			chk("SymlinkData", b, err, &refm.Node{Type: refm.Symlink, Data: d, HasData: true})
		case 3:
			d := datas[c.Choose(len(datas))]
			fan, hash := fans[c.Choose(len(fans))], hashes[c.Choose(len(hashes))]
			b, err := ft.HAMTShardData(d, fan, hash)
			chk("HAMTShardData", b, err, &refm.Node{Type: refm.HAMT, Data: d, HasData: d != nil, HashType: hash, HasHash: true, Fanout: fan, HasFanout: true})
		case 4:
			chk("FolderPBData", ft.FolderPBData(), nil, &refm.Node{Type: refm.Directory})
			e := (&refm.Node{Type: refm.Directory}).EncodeUnixfs()
			nd := ft.EmptyDirNode()
			if b := nd.RawData(); !bytes.Equal(b, refm.EncodePB(nil, e)) || len(nd.Links()) != 0 {
				c.Failf("EmptyDirNode is %x", b)
			}
			if k := nd.Cid().String(); k != "QmUNLLsPACCz1vLxQVkXqqLX5R1X345qqfHbsf67hvA3Nn" {
				c.Failf("EmptyDirNode is %s", k)
			}
			// A second one is another node.
			nd.AddNodeLink("x", ft.EmptyFileNode())
			nd.SetData([]byte("junk"))
			if len(ft.EmptyDirNode().Links()) != 0 || !bytes.Equal(ft.EmptyDirNode().Data(), e) {
				c.Failf("EmptyDirNode is shared")
			}
		case 5:
			nd := ft.EmptyFileNode()
			e := (&refm.Node{Type: refm.File, HasSize: true}).EncodeUnixfs()
			if b := nd.RawData(); !bytes.Equal(b, refm.EncodePB(nil, e)) {
				c.Failf("EmptyFileNode is %x", b)
			}
			if k := nd.Cid().String(); k != "QmbFMke1KXqnYyBBWxB74N4c5SBnJMVAiMNRcGu6x1AwQH" {
				c.Failf("EmptyFileNode is %s", k)
			}
		case 6:
			mimes := []string{"", "a", "text/plain", string(pat(127)), string(pat(128)), "\xff\xfe", "é\x00"}
			m, s := mimes[c.Choose(len(mimes))], sizeEdges[c.Choose(len(sizeEdges))]
			md := &ft.Metadata{MimeType: m, Size: s}
			inner, err := md.Bytes()
			if err != nil || !bytes.Equal(inner, refm.EncodeMime(m)) {
				c.Failf("Metadata{%q}.Bytes = %x, %v", m, inner, err)
			}
			b, err := ft.BytesForMetadata(md)
			chk("BytesForMetadata", b, err, &refm.Node{Type: refm.Metadata, Data: refm.EncodeMime(m), HasData: true, FileSize: s, HasSize: true})
			back, err := ft.MetadataFromBytes(b)
			if err != nil || back.MimeType != m {
				c.Failf("metadata %+v comes back as %+v, %v", md, back, err)
			}
			if back.Size != s {
				c.FailSig("metadata-size", "metadata %+v comes back as %+v", md, back)
			}
		case 7:
			d := datas[c.Choose(len(datas))]
			raw := dag.NewRawNode(d)
			if b, err := ft.ReadUnixFSNodeData(raw); err != nil || !bytes.Equal(b, d) {
				c.Failf("ReadUnixFSNodeData(raw %q) = %q, %v", d, b, err)
			}
			if n, err := ft.ExtractFSNode(raw); err == nil {
				c.Failf("ExtractFSNode of a raw node gives %v", n)
			}
			if _, err := ft.ReadUnixFSNodeData(&dag.ProtoNode{}); err == nil {
				c.Failf("ReadUnixFSNodeData accepts a node without data")
			}
			if _, err := ft.ReadUnixFSNodeData(nil); err == nil {
				c.Failf("ReadUnixFSNodeData accepts nil")
			}
		}
	})

	// Operation sequences on an FSNode against the message it stands for.
	// The node under test is held by value in a fresh object per history.
	depth := 5
	if r.Thorough() {
		depth = 7
	}
	r.Enum(fmt.Sprintf("FSNode operation sequences of length %d", depth), ex.Opt{}, func(c *ex.Ctl) {
		typ := []int{refm.File, refm.Raw, refm.Symlink, refm.HAMT}[c.Choose(4)]
		n := ft.NewFSNode(pb.Data_DataType(typ))
		m := &refm.Node{Type: typ, HasSize: true}
		for i := 0; i < depth; i++ {
			op := c.Choose(8)
			if op >= 5 && len(m.Blocksizes) == 0 && op < 8 {
				if op != 5 {
					c.Skip()
				}
			}
			switch op {
			case 0: // nothing more
			case 1:
				n.SetData([]byte("xyz"))
				m.FileSize += 3 - uint64(len(m.Data))
				m.Data, m.HasData = []byte("xyz"), true
			case 2:
				d := []byte{}
				if i%2 == 1 {
					d = nil
				}
				n.SetData(d)
				m.FileSize -= uint64(len(m.Data))
				m.Data, m.HasData = d, d != nil
			case 3:
				s := []uint64{5, 0, 1 << 40, 300, 7, 1, 2}[i]
				n.AddBlockSize(s)
				m.FileSize += s
				m.Blocksizes = append(m.Blocksizes, s)
			case 4: // through bytes
				b, err := n.GetBytes()
				if err != nil {
					c.Failf("GetBytes: %v", err)
				}
				if n, err = ft.FSNodeFromBytes(b); err != nil {
					c.Failf("FSNodeFromBytes: %v", err)
				}
			case 5:
				n.RemoveAllBlockSizes()
				m.Blocksizes = nil
				m.FileSize = uint64(len(m.Data))
			case 6:
				n.RemoveBlockSize(0)
				m.FileSize -= m.Blocksizes[0]
				m.Blocksizes = append([]uint64{}, m.Blocksizes[1:]...)
			case 7:
				j := len(m.Blocksizes) - 1
				n.RemoveBlockSize(j)
				m.FileSize -= m.Blocksizes[j]
				m.Blocksizes = append([]uint64{}, m.Blocksizes[:j]...)
			}
			if op == 0 {
				break
			}
			c.Step()
			agree(c, "node", n, m)
			b, err := n.GetBytes()
			if want := m.EncodeUnixfs(); err != nil || !bytes.Equal(b, want) {
				c.Failf("after the operations the node encodes to %x, %v; want %x", b, err, want)
			}
			c.State(ex.FpBytes(b))
		}
	})

	// Every byte string over the bytes that mean something.
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x05, 0x08, 0x0b, 0x0c, 0x0a, 0x10, 0x12, 0x18, 0x20, 0x22, 0x28, 0x30, 0x80, 0xff}
	max := 5
	if r.Thorough() {
		max = 6
	}
	r.Enum(fmt.Sprintf("every string of up to %d bytes over %d byte values", max, len(alpha)), ex.Opt{}, func(c *ex.Ctl) {
		l := c.Choose(max + 1)
		b := make([]byte, l)
		pre := l
		if pre > 3 {
			pre = 3
		}
		for i := 0; i < pre; i++ {
			b[i] = alpha[c.Choose(len(alpha))]
		}
		var rec func(i int)
		rec = func(i int) {
			if i == l {
				decodeAll(c, b, false)
				return
			}
			for _, a := range alpha {
				b[i] = a
				rec(i + 1)
			}
		}
		rec(pre)
	})

	// Sample messages cut, with each byte changed to each value, and with their
	// fields in every order, repeated or packed.
	samples := []*refm.Node{
		{Type: refm.File, Data: []byte("ab"), HasData: true, FileSize: 130, HasSize: true, Blocksizes: []uint64{128, 0}},
		{Type: refm.HAMT, Data: []byte{1}, HasData: true, HashType: 0x22, HasHash: true, Fanout: 256, HasFanout: true},
		{Type: refm.Metadata, Data: refm.EncodeMime("a/b"), HasData: true, FileSize: 300, HasSize: true},
		{Type: refm.Symlink, Data: []byte("/x"), HasData: true},
		{Type: refm.Raw, Data: []byte("q"), HasData: true, FileSize: 1, HasSize: true},
		{Type: refm.Directory},
	}
	r.Enum("samples cut and with one byte changed", ex.Opt{}, func(c *ex.Ctl) {
		b := samples[c.Choose(len(samples))].EncodeUnixfs()
		i := c.Choose(len(b))
		decodeAll(c, b[:i], false)
		o := b[i]
		for v := 0; v < 256; v++ {
			b[i] = byte(v)
			decodeAll(c, b, false)
		}
		b[i] = o
		for v := 0; v < 256; v++ {
			decodeAll(c, append(append(append([]byte{}, b[:i]...), byte(v)), b[i:]...), false)
		}
		decodeAll(c, append(append([]byte{}, b[:i]...), b[i+1:]...), false)
	})
	r.Enum("fields in any order, repeated, packed, with others between", ex.Opt{}, func(c *ex.Ctl) {
		parts := [][]byte{
			{0x08, 0x02}, {0x12, 0x02, 'a', 'b'}, {0x18, 0x83, 0x01}, {0x20, 0x05}, {0x22, 0x03, 0x07, 0x80, 0x01}, {0x28, 0x22}, {0x30, 0x08},
			{0x08, 0x05}, {0x12, 0x00}, {0x38, 0x01}, {0x3a, 0x01, 'z'}, {0x0d, 1, 2, 3, 4}, {0x43, 0x08, 0x01, 0x44}, {0x22, 0x00},
		}
		n := 4
		if r.Thorough() {
			n = 5
		}
		var b []byte
		for i := 0; i < n; i++ {
			k := c.Choose(len(parts) + 1)
			if k == len(parts) {
				break
			}
			b = append(b, parts[k]...)
		}
		_, err := refm.DecodeAny(b)
		decodeAll(c, b, err == nil)
	})
	scaleCodec(r)
}

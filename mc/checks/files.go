package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// contentKinds: what the bytes look like. Constant content makes equal chunks
// and thereby shared blocks.
func content(kind, n int) []byte {
	switch kind {
	case 1:
		return bytes.Repeat([]byte{'z'}, n)
	case 2:
		return make([]byte, n)
	}
	return pat(n)
}

var prefixes = []*cid.Prefix{nil, &v0, &v1, &blk2}

type fileSpace struct {
	sizes, chunks, fans []int
	layouts             []int
	kinds               int
	prefixes            []*cid.Prefix
}

func upTo(n int) []int {
	var s []int
	for i := 0; i <= n; i++ {
		s = append(s, i)
	}
	return s
}

func (sp fileSpace) pick(c *ex.Ctl) (fcfg, []byte) {
	f := fcfg{layout: sp.layouts[c.Choose(len(sp.layouts))], prefix: sp.prefixes[c.Choose(len(sp.prefixes))], raw: c.Bool()}
	f.chunk = sp.chunks[c.Choose(len(sp.chunks))]
	f.maxlinks = sp.fans[c.Choose(len(sp.fans))]
	n := sp.sizes[c.Choose(len(sp.sizes))]
	k := c.Choose(sp.kinds)
	c.Logf("%v size=%d content=%d", f, n, k)
	return f, content(k, n)
}

// compositions enumerates every way of cutting n bytes into chunks.
func pickComposition(c *ex.Ctl, data []byte) [][]byte {
	var out [][]byte
	for len(data) > 0 {
		k := 1 + c.Choose(len(data))
		out = append(out, data[:k])
		data = data[k:]
	}
	return out
}

func stdSpace(r *ex.Run, layouts []int) fileSpace {
	sp := fileSpace{sizes: upTo(70), chunks: []int{1, 2, 3, 7}, fans: []int{2, 3, 4, 5}, layouts: layouts, kinds: 2, prefixes: prefixes}
	if r.Thorough() {
		sp.sizes = upTo(300)
		sp.chunks = []int{1, 2, 3, 4, 5, 7, 64}
		sp.fans = []int{2, 3, 4, 5, 8, 11}
		sp.kinds = 3
	}
	return sp
}

// readAll through the code under test, in buffers of size bs (0: WriteTo).
func readAllBy(ctx context.Context, ds ipld.NodeGetter, n ipld.Node, bs int) ([]byte, error) {
	dr, err := uio.NewDagReader(ctx, n, ds)
	if err != nil {
		return nil, err
	}
	defer dr.Close()
	var out bytes.Buffer
	if bs == 0 {
		_, err := dr.WriteTo(&out)
		return out.Bytes(), err
	}
	buf := make([]byte, bs)
	for i := 0; ; i++ {
		k, err := dr.Read(buf)
		out.Write(buf[:k])
		if err == io.EOF {
			return out.Bytes(), nil
		}
		if err != nil {
			return out.Bytes(), err
		}
		if i > 100000 {
			return out.Bytes(), fmt.Errorf("reader makes no progress")
		}
	}
}

// checkReadBack: the file under root reads back as data, from a fresh load.
func checkReadBack(c *ex.Ctl, st *env.Store, root ipld.Node, data []byte, bss ...int) {
	loaded, err := st.Get(bg, root.Cid())
	if err != nil {
		c.Failf("the returned root is not stored: %v", err)
	}
	for _, bs := range bss {
		got, err := readAllBy(bg, st, loaded, bs)
		if err != nil {
			c.Failf("reading back (buffer %d): %v", bs, err)
		}
		if !bytes.Equal(got, data) {
			c.Failf("reads back %q (buffer %d), imported %q", clip(got), bs, clip(data))
		}
		c.Step()
	}
	dr, err := uio.NewDagReader(bg, loaded, st)
	if err != nil {
		c.Failf("reader: %v", err)
	}
	if dr.Size() != uint64(len(data)) {
		c.Failf("reader size %d, imported %d bytes", dr.Size(), len(data))
	}
	fi, err := refm.CheckFile(st, root.Cid(), refm.FileOpt{})
	if err != nil {
		c.Failf("stored DAG: %v", err)
	}
	if !bytes.Equal(fi.Content, data) {
		c.Failf("the stored DAG holds %q, imported %q", clip(fi.Content), clip(data))
	}
	c.State(ex.FpBytes([]byte(root.Cid().KeyString())))
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

func runC01(r *ex.Run) {
	sp := stdSpace(r, []int{balancedL, trickleL})
	r.Enum("size-split chunks", ex.Opt{}, func(c *ex.Ctl) {
		f, data := sp.pick(c)
		st := env.NewStore()
		root := mustImport(c, st, f, data)
		checkReadBack(c, st, root, data, 0, 1, 3, 512)
	})
	n := 8
	if r.Thorough() {
		n = 11
	}
	r.Enum("all chunkings", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: c.Choose(2), raw: c.Bool(), maxlinks: 2 + c.Choose(2), prefix: prefixes[1+c.Choose(2)]}
		data := content(c.Choose(2), c.Choose(n+1))
		chunks := pickComposition(c, data)
		// A chunk without bytes anywhere, the last one together with the end.
		if k := c.Choose(len(chunks) + 2); k > 0 {
			chunks = append(append(append([][]byte{}, chunks[:k-1]...), []byte{}), chunks[k-1:]...)
		}
		spl := &listSplitter{chunks: chunks, failAt: -1, early: c.Bool()}
		c.Logf("%v chunks %q (the last with EOF: %v)", f, chunks, spl.early)
		st := env.NewStore()
		root, err := layoutWith(st, f, spl)
		if err != nil {
			c.Failf("import: %v", err)
		}
		checkReadBack(c, st, root, data, 0, 1, 2)
	})
	scaleFiles(r, sp.layouts, []*cid.Prefix{&v0, &blk2}, func(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg, data []byte) {
		checkReadBack(c, st, root, data, 0, 1000)
	})
	// the public entry points with the default fan-out, real splitters and
	// readers returning short reads
	sizes := []int{0, 1, 173, 174, 175, 348, 349, 1000}
	if r.Thorough() {
		sizes = append(sizes, 30275, 30276, 30277, 30500)
	}
	h.DefaultLinksPerBlock = 174
	r.Enum("entry points, default fan-out", ex.Opt{}, func(c *ex.Ctl) {
		data := content(0, sizes[c.Choose(len(sizes))])
		tr := c.Bool()
		rd := io.Reader(bytes.NewReader(data))
		short := c.Choose(3)
		if short > 0 {
			rd = &shortReader{r: rd, n: short}
		}
		var spl chunker.Splitter
		spec := c.Choose(4)
		switch spec {
		case 0:
			spl = chunker.NewSizeSplitter(rd, 1)
		case 1:
			spl = chunker.NewSizeSplitter(rd, 10)
		case 2:
			spl = chunker.NewRabinMinMax(rd, 32, 64, 128)
		case 3:
			spl = chunker.NewSizeSplitter(rd, 64)
		}
		c.Logf("size %d trickle %v splitter %d short %d", len(data), tr, spec, short)
		st := env.NewStore()
		var root ipld.Node
		var err error
		if tr {
			root, err = importer.BuildTrickleDagFromReader(st, spl)
		} else {
			root, err = importer.BuildDagFromReader(st, spl)
		}
		if err != nil {
			c.Failf("import: %v", err)
		}
		checkReadBack(c, st, root, data, 0, 77)
	})
}

// shortReader returns at most n bytes per call.
type shortReader struct {
	r io.Reader
	n int
}

func (s *shortReader) Read(b []byte) (int, error) {
	if len(b) > s.n {
		b = b[:s.n]
	}
	return s.r.Read(b)
}

// canonical compares what an import stored with the reference builder.
func canonical(c *ex.Ctl, st *env.Store, root ipld.Node, b *refm.B, want refm.Built) {
	if !root.Cid().Equals(want.Cid) {
		c.Failf("root CID %s, canonical %s", root.Cid(), want.Cid)
	}
	for k, blk := range b.Blocks {
		kc, _ := cid.Cast([]byte(k))
		got, ok := st.Raw(kc)
		if !ok {
			c.Failf("canonical block %s was not stored", kc)
		}
		if !bytes.Equal(got, blk) {
			c.Failf("block %s differs from the canonical one", kc)
		}
	}
	sz, err := root.Size()
	if err == nil && sz != want.Tsize {
		c.Failf("cumulative size %d, canonical %d", sz, want.Tsize)
	}
	c.State(ex.FpBytes([]byte(root.Cid().KeyString())))
}

func runLayout(r *ex.Run, layout int) {
	sp := stdSpace(r, []int{layout})
	r.Enum("size-split chunks", ex.Opt{}, func(c *ex.Ctl) {
		f, data := sp.pick(c)
		st := env.NewStore()
		root := mustImport(c, st, f, data)
		c.Step()
		b, want := refImport(f, data)
		canonical(c, st, root, b, want)
		if layout == trickleL {
			checkVerifies(c, st, root, f)
		}
	})
	n := 8
	if r.Thorough() {
		n = 12
	}
	r.Enum("all chunkings", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: layout, raw: c.Bool(), maxlinks: 2 + c.Choose(2), prefix: prefixes[c.Choose(3)]}
		data := content(c.Choose(2), c.Choose(n+1))
		chunks := pickComposition(c, data)
		c.Logf("%v chunks %q", f, chunks)
		st := env.NewStore()
		root, err := layoutWith(st, f, splitList(chunks))
		if err != nil {
			c.Failf("import: %v", err)
		}
		c.Step()
		b := refm.NewB(f.prefix)
		var want refm.Built
		if layout == trickleL {
			want = b.Trickle(chunks, f.maxlinks, f.raw)
		} else {
			want = b.Balanced(chunks, f.maxlinks, f.raw)
		}
		canonical(c, st, root, b, want)
	})
	scaleFiles(r, []int{layout}, []*cid.Prefix{nil, &v0, &blk2}, func(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg, data []byte) {
		b, want := refImport(f, data)
		canonical(c, st, root, b, want)
		if layout == trickleL {
			checkVerifies(c, st, root, f)
		}
	})
	big := []int{0, 1, 173, 174, 175, 176, 400, 900}
	if r.Thorough() {
		big = append(big, 30275, 30276, 30277, 31000)
	}
	h.DefaultLinksPerBlock = 174
	r.Enum("entry point, default fan-out", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: layout, chunk: 1, maxlinks: 174}
		data := content(0, big[c.Choose(len(big))])
		c.Logf("%d one-byte chunks", len(data))
		st := env.NewStore()
		var root ipld.Node
		var err error
		spl := chunker.NewSizeSplitter(bytes.NewReader(data), 1)
		if layout == trickleL {
			root, err = importer.BuildTrickleDagFromReader(st, spl)
		} else {
			root, err = importer.BuildDagFromReader(st, spl)
		}
		if err != nil {
			c.Failf("import: %v", err)
		}
		c.Step()
		b, want := refImport(f, data)
		canonical(c, st, root, b, want)
	})
}

func checkVerifies(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg) {
	vp := trickle.VerifyParams{Getter: st, Direct: f.maxlinks, LayerRepeat: 4, RawLeaves: f.raw, Prefix: f.prefix}
	if err := trickle.VerifyTrickleDagStructure(root, vp); err != nil {
		c.Failf("the structure check rejects it: %v", err)
	}
}

func runC04(r *ex.Run) {
	maxBase, maxApp := 40, 14
	if r.Thorough() {
		maxBase, maxApp = 130, 60
	}
	// mix: an append may use the other leaf kind; fans: or another fan-out,
	// which leaves no canonical form to compare with.
	body := func(steps, maxBase, maxApp, chunk, fans int, mix, otherFan bool) func(c *ex.Ctl) {
		return func(c *ex.Ctl) {
			f := fcfg{layout: trickleL, chunk: chunk, maxlinks: 1 + c.Choose(fans), prefix: &v0}
			if c.Bool() {
				f.raw, f.prefix = true, &v1
			}
			if mix {
				f.prefix = &v1
			}
			data := pat(chunk * c.Choose(maxBase+1))
			if chunk > 1 && len(data) > 0 && c.Bool() {
				data = data[:len(data)-1] // the last chunk is short
			}
			st := env.NewStore()
			root := mustImport(c, st, f, data)
			c.Logf("base %d bytes %v", len(data), f)
			chunks := chunksOf(data, chunk)
			kinds := make([]bool, len(chunks))
			for i := range kinds {
				kinds[i] = f.raw
			}
			uniform := true
			for s := 0; s < steps; s++ {
				n := c.Choose(maxApp + 1)
				more := pat(len(data) + n)[len(data):]
				g := f
				if mix {
					g.raw = c.Bool()
				}
				if otherFan {
					g.maxlinks = 1 + c.Choose(fans)
				}
				beforeCid := root.Copy().Cid()
				p := h.DagBuilderParams{Dagserv: st, Maxlinks: g.maxlinks, RawLeaves: g.raw, CidBuilder: *g.prefix}
				db, err := p.New(splitList(chunksOf(more, chunk)))
				if err != nil {
					c.Failf("%v", err)
				}
				out, err := trickle.Append(bg, getNode(c, st, root.Cid()), db)
				if err != nil {
					c.Failf("append of %d bytes: %v", n, err)
				}
				c.Logf("append %d raw=%v fan-out %d", n, g.raw, g.maxlinks)
				if err := st.Add(bg, out); err != nil {
					c.Failf("%v", err)
				}
				root = out
				data = append(append([]byte{}, data...), more...)
				for _, ch := range chunksOf(more, chunk) {
					chunks, kinds = append(chunks, ch), append(kinds, g.raw)
					uniform = uniform && g.raw == f.raw
				}
				checkReadBack(c, st, root, data, 0)
				fi, err := refm.CheckFile(st, root.Cid(), refm.FileOpt{})
				if err != nil || !bytes.Equal(fi.Content, data) {
					c.Failf("the result is not a file of the appended content (%v)", err)
				}
				if !otherFan {
					if uniform {
						checkVerifies(c, st, root, f)
					}
					b := refm.NewB(f.prefix)
					want := b.TrickleKinds(chunks, f.maxlinks, func(i int) bool { return kinds[i] })
					canonical(c, st, root, b, want)
				}
				// the old version is still there
				old, err := refm.CheckFile(st, beforeCid, refm.FileOpt{})
				if err != nil {
					c.Failf("the version before the append is damaged: %v", err)
				}
				if !bytes.Equal(old.Content, data[:len(data)-n]) {
					c.Failf("the version before the append changed")
				}
			}
		}
	}
	r.Enum("one append", ex.Opt{}, body(1, maxBase, maxApp, 1, 4, false, false))
	r.Enum("two appends", ex.Opt{}, body(2, maxBase*3/4, maxApp/2, 1, 4, false, false))
	r.Enum("three unaligned appends", ex.Opt{}, body(3, 8, 5, 2, 4, false, false))
	r.Enum("leaves of both kinds", ex.Opt{}, body(2, 12, 5, 2, 3, true, false))
	r.Enum("another fan-out", ex.Opt{}, body(2, 12, 5, 1, 4, false, true))
	scaleAppends(r)
}

// runC05: recorded sizes.
func runC05(r *ex.Run) {
	sp := stdSpace(r, []int{balancedL, trickleL})
	check := func(c *ex.Ctl, st *env.Store, root ipld.Node, n int) {
		fi, err := refm.CheckFile(st, root.Cid(), refm.FileOpt{})
		if err != nil {
			c.Failf("%v", err)
		}
		if len(fi.Content) != n {
			c.Failf("holds %d bytes, want %d", len(fi.Content), n)
		}
		if sz, err := root.Size(); err != nil || sz != fi.Tsize {
			c.Failf("node reports cumulative size %d (%v), is %d", sz, err, fi.Tsize)
		}
		// sizes as reported by the API on every node
		var rec func(k cid.Cid) int
		rec = func(k cid.Cid) int {
			nd := getNode(c, st, k)
			if rn, ok := nd.(*dag.RawNode); ok {
				return len(rn.RawData())
			}
			fsn, err := ft.ExtractFSNode(nd)
			if err != nil {
				c.Failf("%v", err)
			}
			total := len(fsn.Data())
			if fsn.NumChildren() != len(nd.Links()) {
				c.Failf("%d child sizes for %d links", fsn.NumChildren(), len(nd.Links()))
			}
			for i, l := range nd.Links() {
				k := rec(l.Cid)
				if fsn.BlockSize(i) != uint64(k) || fsn.BlockSizes()[i] != uint64(k) {
					c.Failf("child size %d recorded as %d", k, fsn.BlockSize(i))
				}
				total += k
			}
			ds, err := ft.DataSize(nd.(*dag.ProtoNode).Data())
			if err != nil || ds != uint64(total) || fsn.FileSize() != uint64(total) {
				c.Failf("size reported %d / %d (%v), holds %d", ds, fsn.FileSize(), err, total)
			}
			return total
		}
		if got := rec(root.Cid()); got != n {
			c.Failf("sizes add up to %d, want %d", got, n)
		}
		dr, err := uio.NewDagReader(bg, root, st)
		if err != nil || dr.Size() != uint64(n) {
			c.Failf("reader size (%v)", err)
		}
		c.State(ex.FpBytes([]byte(root.Cid().KeyString())))
	}
	r.Enum("imports", ex.Opt{}, func(c *ex.Ctl) {
		f, data := sp.pick(c)
		st := env.NewStore()
		root := mustImport(c, st, f, data)
		c.Step()
		check(c, st, root, len(data))
	})
	r.Enum("trickle appends", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: trickleL, chunk: 1 + c.Choose(2), maxlinks: 2 + c.Choose(2), prefix: &v0}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		n := c.Choose(30)
		st := env.NewStore()
		root := mustImport(c, st, f, pat(n))
		for s := 0; s < 2; s++ {
			k := c.Choose(8)
			c.Logf("append %d to %d %v", k, n, f)
			p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw, CidBuilder: *f.prefix}
			db, _ := p.New(splitList(chunksOf(pat(k), f.chunk)))
			out, err := trickle.Append(bg, getNode(c, st, root.Cid()), db)
			if err != nil {
				c.Failf("append: %v", err)
			}
			_ = st.Add(bg, out)
			root, n = out, n+k
			check(c, st, root, n)
		}
	})
	scaleFiles(r, sp.layouts, []*cid.Prefix{&v0, &v1}, func(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg, data []byte) {
		check(c, st, root, len(data))
	})
	depthDm := 3
	if r.Thorough() {
		depthDm = 5
	}
	lookDm(r, []*cid.Prefix{&v0, &v1}, depthDm, func(f fcfg) func(c *ex.Ctl, s *dmSys, n ipld.Node) {
		return func(c *ex.Ctl, s *dmSys, n ipld.Node) { check(c, s.st, n, len(s.file)) }
	})
	// FSNode as a size ledger: every sequence of ledger operations
	depth := 5
	if r.Thorough() {
		depth = 8
	}
	r.Enum("node size ledger", ex.Opt{}, func(c *ex.Ctl) {
		n := ft.NewFSNode(ft.TFile)
		var data []byte
		var kids []uint64
		for i := 0; i < depth; i++ {
			switch k := c.Choose(7); {
			case k < 3:
				s := []uint64{0, 3, 1 << 33}[k]
				n.AddBlockSize(s)
				kids = append(kids, s)
				c.Logf("AddBlockSize(%d)", s)
			case k == 3:
				if len(kids) == 0 {
					c.Skip()
				}
				j := c.Choose(len(kids))
				n.RemoveBlockSize(j)
				kids = append(append([]uint64{}, kids[:j]...), kids[j+1:]...)
				c.Logf("RemoveBlockSize(%d)", j)
			case k == 4:
				n.RemoveAllBlockSizes()
				kids = nil
				c.Logf("RemoveAllBlockSizes")
			default:
				data = pat([]int{0, 4}[k-5])
				n.SetData(data)
				c.Logf("SetData(%d)", len(data))
			}
			want := uint64(len(data))
			for _, k := range kids {
				want += k
			}
			b, err := n.GetBytes()
			if err != nil {
				c.Failf("%v", err)
			}
			m, err := ft.FSNodeFromBytes(b)
			if err != nil {
				c.Failf("%v", err)
			}
			for _, x := range []*ft.FSNode{n, m} {
				if x.FileSize() != want {
					c.Failf("size %d, holds %d", x.FileSize(), want)
				}
				if x.NumChildren() != len(kids) || !bytes.Equal(x.Data(), data) {
					c.Failf("children or data lost")
				}
				for j, k := range kids {
					if x.BlockSize(j) != k {
						c.Failf("child %d has size %d, want %d", j, x.BlockSize(j), k)
					}
				}
			}
			var p refm.Node
			if err := p.ParseUnixfs(b); err != nil || p.FileSize != want || len(p.Blocksizes) != len(kids) {
				c.Failf("encoded sizes wrong: %d (%v)", p.FileSize, err)
			}
			c.State(ex.FpBytes(b))
		}
	})
}

// runC22: every block of an import honours the requested CID format and leaf
// kind.
func runC22(r *ex.Run) {
	sp := stdSpace(r, []int{balancedL, trickleL})
	sp.kinds = 1
	pre := []*cid.Prefix{nil, &v0, &v1, &blk2, {Version: 1, Codec: cid.Raw, MhType: v1.MhType, MhLength: -1}, {Version: 1, Codec: cid.DagProtobuf, MhType: 0x13, MhLength: -1},
		{Version: 1, Codec: cid.DagProtobuf, MhType: v1.MhType, MhLength: 20}, {Version: 1, Codec: cid.DagProtobuf, MhType: blk2.MhType - 12, MhLength: -1}}
	sp.prefixes = pre
	verify := func(c *ex.Ctl, st *env.Store, root cid.Cid, f fcfg) {
		want := v0
		if f.prefix != nil {
			want = *f.prefix
		}
		verifyFormat(c, st, root, want, f.raw, f.layout == trickleL)
		c.State(ex.FpBytes([]byte(root.KeyString())))
	}
	r.Enum("imports", ex.Opt{}, func(c *ex.Ctl) {
		f, data := sp.pick(c)
		if f.prefix != nil {
			f.flavour = c.Choose(3)
		}
		st := env.NewStore()
		root := mustImport(c, st, f, data)
		c.Step()
		verify(c, st, root.Cid(), f)
	})
	r.Enum("trickle appends", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: trickleL, chunk: 1, maxlinks: 2, prefix: pre[1+c.Choose(len(pre)-1)], raw: c.Bool(), flavour: c.Choose(3)}
		n, k := c.Choose(16), c.Choose(8)
		c.Logf("%d+%d %v", n, k, f)
		st := env.NewStore()
		root := mustImport(c, st, f, pat(n))
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw, CidBuilder: builderOf(*f.prefix, f.flavour)}
		db, _ := p.New(splitList(chunksOf(pat(k), 1)))
		loaded := getNode(c, st, root.Cid())
		out, err := trickle.Append(bg, loaded, db)
		if err != nil {
			c.Failf("append: %v", err)
		}
		_ = st.Add(bg, out)
		c.Step()
		verify(c, st, out.Cid(), f)
	})
	scaleFiles(r, sp.layouts, pre, func(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg, data []byte) {
		verify(c, st, root.Cid(), f)
	})
	fmtDirs(r, pre)
	depth := 3
	if r.Thorough() {
		depth = 5
	}
	lookDm(r, append([]*cid.Prefix{pre[6]}, pre[1:4]...), depth, func(f fcfg) func(c *ex.Ctl, s *dmSys, n ipld.Node) {
		return func(c *ex.Ctl, s *dmSys, n ipld.Node) {
			want := *f.prefix
			if s.orig.Cid().Type() == cid.Raw {
				want.Version = 1 // the format is that of the node given
			}
			verifyFormat(c, s.st, n.Cid(), want, f.raw, true)
		}
	})
}

func init() {
	for _, x := range []struct {
		id  string
		run func(*ex.Run)
	}{{"C01", runC01}, {"C02", func(r *ex.Run) { runLayout(r, balancedL) }}, {"C03", func(r *ex.Run) { runLayout(r, trickleL); runTrickleVerify(r) }}, {"C04", runC04}, {"C05", runC05}, {"C22", runC22}} {
		ex.Register(&ex.Check{ID: x.id, Level: "exploration", Run: x.run, Quick: 200 * time.Second, Thorough: 40 * time.Minute})
	}
}

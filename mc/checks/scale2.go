package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// scaleImportFaults are faults in imports of many and of large chunks.
func scaleImportFaults(r *ex.Run) {
	r.Enum("many chunks: the store refuses each block", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: c.Choose(2), chunk: 1, maxlinks: []int{3, 30, 174}[c.Choose(3)]}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		ns := []int{174, 176, 350}
		if r.Thorough() {
			ns = append(ns, 1044, 1045)
		}
		n := ns[c.Choose(len(ns))]
		step := 1
		if !r.Thorough() {
			step = 5
		}
		p := &faultPlan{k: 1 + step*c.Choose((2*n)/step), from: c.Bool()}
		data := pat(n)
		st := env.NewStore()
		st.OnAdd = p.hook
		nd, err := layoutWith(st, f, splitList(chunksOf(data, 1)))
		c.Step()
		if p.hit && err == nil {
			c.Failf("%v: the store refused block %d (from then on: %v) of the import of %d chunks, which returned %s and no error", f, p.k, p.from, n, nd.Cid())
		}
		if p.hit {
			c.Outcome("error reported")
			return
		}
		if err != nil {
			c.Failf("%v: import of %d chunks failed without a fault: %v", f, n, err)
		}
		if p.k > p.n+step {
			c.Skip() // same as without fault
		}
		complete(c, st, nd.Cid(), data, fmt.Sprintf("%v import of %d chunks", f, n))
		c.Outcome("complete")
	})
	r.Enum("many chunks: the splitter fails at each chunk", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: c.Choose(2), chunk: 1, maxlinks: []int{3, 30, 174}[c.Choose(3)]}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		n := 350
		k := c.Choose(n + 1)
		nd, err := layoutWith(env.NewStore(), f, &listSplitter{chunks: chunksOf(pat(n), 1), failAt: k, err: importErrs[k%len(importErrs)]})
		c.Step()
		if err == nil {
			c.Failf("%v: the splitter failed instead of chunk %d of %d, the import returned %s and no error", f, k, n, nd.Cid())
		}
		c.Outcome("error reported")
	})
	const L = 1 << 20
	r.Enum("chunks around the real block size limit", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: c.Choose(2), chunk: L, maxlinks: []int{2, 174}[c.Choose(2)]}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		n := 1 + c.Choose(3)
		k := c.Choose(n)
		l := []int{L - 1, L, L + 1, 2 * L}[c.Choose(4)]
		old := []int{-1, 0, 3}[c.Choose(3)] // append to so many chunks
		if old >= 0 && f.layout == balancedL {
			c.Skip()
		}
		var chunks [][]byte
		var data []byte
		for i := 0; i < n; i++ {
			m := 5
			if i == k {
				m = l
			}
			ch := content(i, m)
			chunks = append(chunks, ch)
			data = append(data, ch...)
		}
		c.Logf("%v: chunk %d of %d has %d bytes, appended to %d", f, k, n, l, old)
		st := env.NewStore()
		var nd ipld.Node
		var err error
		if old < 0 {
			nd, err = layoutWith(st, f, splitList(chunks))
		} else {
			was := pat(old)
			f.chunk = 1
			base := mustImport(c, st, f, was)
			data = append(was, data...)
			p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw}
			if f.prefix != nil {
				p.CidBuilder = *f.prefix
			}
			db, e := p.New(splitList(chunks))
			if e != nil {
				c.Failf("%v", e)
			}
			if nd, err = trickle.Append(bg, getNode(c, st, base.Cid()), db); err == nil {
				_ = st.Add(bg, nd)
			}
		}
		c.Step()
		if l > L {
			if err == nil {
				c.Failf("%v: chunk %d of %d has %d bytes and is accepted: %s", f, k, n, l, nd.Cid())
			}
			c.Outcome("oversize refused")
			return
		}
		if err != nil {
			c.Failf("%v: chunks of at most %d bytes refused: %v", f, l, err)
		}
		complete(c, st, nd.Cid(), data, "import")
		c.Outcome("complete")
	})
	r.Enum("the reader fails around each chunk's end", ex.Opt{}, func(c *ex.Ctl) {
		layout := c.Choose(2)
		size := int64([]int{512, 65536, 262144}[c.Choose(3)])
		n := []int{1, 3, 5}[c.Choose(3)]
		at := c.Choose(n + 1)
		k := at*int(size) + c.Choose(3) - 1
		total := n * int(size)
		if k < 0 || k > total {
			c.Skip()
		}
		e := []error{env.ErrInjected, io.ErrClosedPipe}[c.Choose(2)]
		rd := &flaky{data: pat(total), k: k, err: e, once: c.Bool()}
		build := importer.BuildDagFromReader
		if layout == trickleL {
			build = importer.BuildTrickleDagFromReader
		}
		nd, err := build(env.NewStore(), chunker.NewSizeSplitter(rd, size))
		c.Step()
		if err == nil {
			c.Failf("%s import: the reader failed at byte %d of %d (once: %v) and the import returned %s and no error", layoutName[layout], k, total, rd.once, nd.Cid())
		}
		c.Outcome("error reported")
	})
	apps := []int{0, 5, 173, 174, 175, 400}
	r.Enum("many chunks: appends with each fault", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: trickleL, chunk: 1, maxlinks: []int{4, 174}[c.Choose(2)]}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		n, m := apps[c.Choose(len(apps))], []int{2, 180, 360}[c.Choose(3)]
		data := pat(n + m)
		st := env.NewStore()
		base := mustImport(c, st, f, data[:n])
		step := 1 + m/60
		if r.Thorough() {
			step = 1
		}
		spl := &listSplitter{chunks: chunksOf(data[n:], 1), failAt: -1}
		pa, pg := &faultPlan{}, &faultPlan{}
		what := ""
		switch c.Choose(3) {
		case 0:
			spl.failAt = step * c.Choose(m/step+1)
			spl.err = env.ErrInjected
			what = fmt.Sprintf("the splitter failed at chunk %d", spl.failAt)
		case 1:
			pa.k, pa.from = 1+step*c.Choose((m+m/2+6)/step), c.Bool()
			what = fmt.Sprintf("the store refused block %d", pa.k)
		case 2:
			pg.k = 1 + c.Choose(6)
			what = fmt.Sprintf("fetch %d failed", pg.k)
		}
		loaded := getNode(c, st, base.Cid())
		st.OnAdd, st.OnGet = pa.hook, pg.hook
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw}
		if f.prefix != nil {
			p.CidBuilder = *f.prefix
		}
		db, err := p.New(spl)
		if err != nil {
			c.Failf("%v", err)
		}
		out, err := trickle.Append(bg, loaded, db)
		st.OnAdd, st.OnGet = nil, nil
		c.Step()
		if spl.failAt >= 0 || pa.hit || pg.hit {
			if err == nil {
				c.Failf("%v: append of %d chunks to %d: %s, and the append returned no error", f, m, n, what)
			}
			c.Outcome("error reported")
		} else {
			if err != nil {
				c.Failf("%v: append of %d chunks to %d failed without a fault: %v", f, m, n, err)
			}
			_ = st.Add(bg, out)
			complete(c, st, out.Cid(), data, fmt.Sprintf("%v append of %d chunks to %d", f, m, n))
			c.Outcome("complete")
		}
		complete(c, st, base.Cid(), data[:n], "the import before the append")
	})
}

// scaleNoCopy are imports and appends without copying with many and with
// large chunks.
func scaleNoCopy(r *ex.Run) {
	const path = "/no/such/dir/file"
	type sz struct{ n, chunk int }
	szs := []sz{{173, 1}, {174, 1}, {175, 1}, {349, 2}, {1000, 3}, {1025, 1}, {3*262144 + 5, 262144}, {700000, 65536}, {3 << 20, 1 << 20}, {2200, 11}}
	if r.Thorough() {
		szs = append(szs, sz{30276, 1}, sz{30277, 1}, sz{60553, 2}, sz{5000, 1}, sz{20 << 20, 1 << 20})
	}
	r.Enum("many and large chunks", ex.Opt{}, func(c *ex.Ctl) {
		s := szs[c.Choose(len(szs))]
		f := fcfg{layout: c.Choose(2), chunk: s.chunk, maxlinks: []int{2, 30, 174}[c.Choose(3)], raw: true, prefix: []*cid.Prefix{&v1, &blk2}[c.Choose(2)]}
		k := c.Choose(3) // content style
		old := 0
		if f.layout == trickleL {
			old = []int{0, 3, 200}[c.Choose(3)]
		}
		c.Logf("%v size=%d content=%d after %d chunks of another source", f, s.n, k, old)
		data := content(k, s.n)
		chunks := chunksOf(data, s.chunk)
		st := env.NewStore()
		var base ipld.Node
		first := chunksOf(content(1, old), 1)
		if old > 0 {
			g := f
			g.chunk = 1
			base = mustImport(c, st, g, content(1, old))
		}
		seen := map[uint64]bool{}
		st.OnNode = func(nd ipld.Node) {
			fn, ok := nd.(*pi.FilestoreNode)
			if !ok {
				if nd.Cid().Type() == cid.Raw {
					c.Failf("%v: a leaf carries no position", f)
				}
				return
			}
			o, raw := fn.PosInfo.Offset, fn.RawData()
			if fn.PosInfo.FullPath != path || o+uint64(len(raw)) > uint64(len(data)) || !bytes.Equal(data[o:o+uint64(len(raw))], raw) {
				c.Failf("%v: leaf of %d bytes %q is recorded at offset %d of %s", f, len(raw), cut(raw), o, fn.PosInfo.FullPath)
			}
			seen[o] = true
		}
		rd, err := files.NewReaderPathFile(path, io.NopCloser(bytes.NewReader(nil)), fakeStat{})
		if err != nil {
			panic(err)
		}
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: true, NoCopy: true, CidBuilder: *f.prefix}
		db, err := p.New(&listSplitter{chunks: chunks, failAt: -1, r: rd})
		if err != nil {
			c.Failf("%v", err)
		}
		var nd ipld.Node
		switch {
		case base != nil:
			nd, err = trickle.Append(bg, getNode(c, st, base.Cid()), db)
		case f.layout == trickleL:
			nd, err = trickle.Layout(db)
		default:
			nd, err = balanced.Layout(db)
		}
		if err != nil {
			c.Failf("%v", err)
		}
		c.Step()
		for i, o := 0, 0; i < len(chunks); i++ {
			if !seen[uint64(o)] {
				c.Failf("%v: no leaf was handed over for the chunk at offset %d", f, o)
			}
			o += len(chunks[i])
		}
		all := append(append([][]byte{}, first...), chunks...)
		b := refm.NewB(f.prefix)
		want := b.Balanced
		if f.layout == trickleL {
			want = b.Trickle
		}
		if w := want(all, f.maxlinks, true); !nd.Cid().Equals(w.Cid) {
			c.Failf("%v: without copying the DAG is %s, with it is %s", f, nd.Cid(), w.Cid)
		}
		c.State(ex.FpBytes(nd.Cid().Bytes()))
	})
}

// scaleCodec are messages with long data and long lists.
func scaleCodec(r *ex.Run) {
	lens := []int{0, 1, 126, 127, 128, 255, 256, 511, 512, 513, 16379, 16383, 16384, 16385, 65536, 262144, 1<<20 - 14, 1 << 20, 1<<20 + 1, 1 << 21, 2097152}
	counts := []int{0, 1, 2, 63, 64, 127, 128, 174, 175, 1000, 8192}
	r.Enum("long data and long lists", ex.Opt{}, func(c *ex.Ctl) {
		typ := c.Choose(6)
		d := content(c.Choose(2), lens[c.Choose(len(lens))])
		k := counts[c.Choose(len(counts))]
		if k > 2 && len(d) > 16385 {
			c.Skip()
		}
		m := &refm.Node{HasPB: true, Type: typ, Data: d, HasData: true, FileSize: uint64(len(d)), HasSize: true}
		n := ft.NewFSNode(pb.Data_DataType(typ))
		n.SetData(d)
		if typ == refm.HAMT || typ == refm.Directory {
			n = ft.NewFSNode(pb.Data_DataType(typ))
			n.SetData(d)
			m.HasSize = typ == refm.HAMT
		}
		for i := 0; i < k; i++ {
			s := sizeEdges[i%7] + uint64(i)
			n.AddBlockSize(s)
			m.Blocksizes = append(m.Blocksizes, s)
			m.FileSize += s
		}
		c.Step()
		b, err := n.GetBytes()
		if err != nil {
			c.Failf("GetBytes: %v", err)
		}
		r, err := refm.DecodeAny(b)
		if err != nil {
			c.Failf("type %d, %d bytes, %d block sizes: encoded to what the independent decoder refuses: %v", typ, len(d), k, err)
		}
		m.HasSize, m.FileSize = r.HasSize, m.FileSize
		if !r.HasSize || !(typ == refm.File || typ == refm.Raw) {
			m.FileSize = r.FileSize
		}
		if want := m.EncodeUnixfs(); !bytes.Equal(b, want) {
			c.Failf("type %d, %d bytes, %d block sizes: encodes to %x..., want %x...", typ, len(d), k, cut(b), cut(want))
		}
		decodeAll(c, b, true)
		back, err := ft.FSNodeFromBytes(b)
		if err != nil {
			c.Failf("decode: %v", err)
		}
		for _, j := range []int{0, k / 2, k - 1} {
			if j >= 0 && j < back.NumChildren() {
				back.RemoveBlockSize(j)
				m.FileSize -= m.Blocksizes[j]
				m.Blocksizes = append(append([]uint64{}, m.Blocksizes[:j]...), m.Blocksizes[j+1:]...)
			}
		}
		if typ == refm.File || typ == refm.Raw {
			if got := back.FileSize(); got != m.FileSize {
				c.Failf("type %d, %d bytes, %d block sizes left: file size %d, want %d", typ, len(d), len(m.Blocksizes), got, m.FileSize)
			}
			again, err := back.GetBytes()
			if want := m.EncodeUnixfs(); err != nil || !bytes.Equal(again, want) {
				c.Failf("after removing block sizes it encodes to %x..., want %x...", cut(again), cut(want))
			}
		}
		c.State(ex.FpBytes(b))
	})
	r.Enum("long constructors", ex.Opt{}, func(c *ex.Ctl) {
		l := lens[c.Choose(len(lens))]
		d := content(c.Choose(2), l)
		chk := func(what string, got []byte, err error, want *refm.Node) {
			c.Step()
			if e := want.EncodeUnixfs(); err != nil || !bytes.Equal(got, e) {
				c.Failf("%s of %d bytes = %x..., %v; published encoding %x...", what, l, cut(got), err, cut(e))
			}
			decodeAll(c, got, true)
		}
		switch c.Choose(5) {
		case 0:
			chk("FilePBData", ft.FilePBData(d, uint64(l)), nil, &refm.Node{Type: refm.File, Data: d, HasData: true, FileSize: uint64(l), HasSize: true})
		case 1:
			chk("WrapData", ft.WrapData(d), nil, &refm.Node{Type: refm.Raw, Data: d, HasData: true, FileSize: uint64(l), HasSize: true})
		case 2:
			b, err := ft.SymlinkData(string(d))
			chk("SymlinkData", b, err, &refm.Node{Type: refm.Symlink, Data: d, HasData: true})
		case 3:
			b, err := ft.HAMTShardData(d, 256, 0x22)
			chk("HAMTShardData", b, err, &refm.Node{Type: refm.HAMT, Data: d, HasData: true, HashType: 0x22, HasHash: true, Fanout: 256, HasFanout: true})
		case 4:
			m := strings.Repeat("m", l)
			b, err := ft.BytesForMetadata(&ft.Metadata{MimeType: m, Size: uint64(l)})
			chk("BytesForMetadata", b, err, &refm.Node{Type: refm.Metadata, Data: refm.EncodeMime(m), HasData: true, FileSize: uint64(l), HasSize: true})
			if md, err := ft.MetadataFromBytes(b); err != nil || md.MimeType != m {
				c.Failf("metadata with a MIME type of %d bytes comes back different (%v)", l, err)
			}
		}
	})
}

// scaleDmFaults are faults in writes beyond the write buffer and in files of
// the default fan-out.
func scaleDmFaults(r *ex.Run) {
	wr := func(n int, b byte) fOp {
		d := []byte(bigStr(n, b))
		return fOp{dmOp: dmOp{name: fmt.Sprintf("Write(%d bytes)", n)}, part: true,
			tryN: func(s *dmSys) (int, error) { return s.dm.Write(d) },
			okN:  func(s *dmSys, n int) { s.put(s.cur, d[:n]); s.cur += n }, n: n}
	}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	ops := []fOp{wr(1200000, 'a'), wr(1000000, 'k'), fSeek(300000), fTruncate(700000), fTruncate(9000), fGetNode}
	if r.Thorough() {
		ops = append(ops, wr(5, 'A'), fSeek(5000), fSync)
	}
	type in struct {
		f    fcfg
		size int
		fan  int
	}
	for _, x := range []in{
		{fcfg{balancedL, 262144, 174, true, &v1, 0}, 600000, 174},
		{fcfg{trickleL, 262144, 174, false, &v0, 0}, 10, 174},
		{fcfg{trickleL, 65536, 2, false, &v0, 0}, 600000, 2},
	} {
		x := x
		h.DefaultLinksPerBlock = x.fan
		r.Enum(fmt.Sprintf("large writes with faults size=%d %v", x.size, x.f), ex.Opt{Deviations: 1}, func(c *ex.Ctl) {
			s := newDmSys(c, x.f, x.size, 1<<18, nil)
			injected := false
			hook := func(kind string) func(cid.Cid) error {
				return func(k cid.Cid) error {
					if c.Deviate(2) == 1 {
						injected = true
						c.Logf("   %s of %s fails", kind, k.String()[len(k.String())-4:])
						return env.ErrInjected
					}
					return nil
				}
			}
			for i := 0; i < depth; i++ {
				o := ops[c.Choose(len(ops))]
				if s.cur > len(s.file) && (o.part || strings.HasPrefix(o.name, "Write")) {
					c.Skip()
				}
				c.Logf("%s", o.name)
				s.st.OnAdd, s.st.OnGet = hook("Add"), hook("Get")
				injected = false
				var err error
				n := 0
				if o.part {
					n, err = o.tryN(s)
				} else {
					err = o.try(s)
				}
				s.st.OnAdd, s.st.OnGet = nil, nil
				if err != nil && !injected {
					c.Failf("%s: unexpected error %v", o.name, err)
				}
				switch {
				case o.part:
					if n < 0 || n > o.n || err == nil && n != o.n {
						c.Failf("%s = %d, %v", o.name, n, err)
					}
					o.okN(s, n)
				case err == nil:
					o.ok(s)
				default:
					lo, hi := len(s.file), len(s.file)
					if o.grow != nil {
						hi = max(hi, o.grow(s))
					}
					sz, err := s.dm.Size()
					if err != nil || int(sz) < lo || int(sz) > hi {
						c.Failf("after the failed %s: Size %d (%v), want %d..%d", o.name, sz, err, lo, hi)
					}
					s.setLen(int(sz))
					if o.grow != nil {
						s.cur = math.MaxInt32 // unknown
					}
				}
				if err != nil {
					c.Outcome("failed " + o.name)
				}
			}
			s.Observe(c)
			c.State(ex.FpBytes([]byte(fmt.Sprint(len(s.file), s.cur))))
		})
	}
}

// scaleDm are modifications of large files at the default fan-out.
func scaleDm(r *ex.Run, snaps bool) {
	l := func(n string, o dmOp) dmOp { o.name = n; return o }
	ops := []dmOp{
		l("Write(1.2M)", opWrite(bigStr(1200000, 'a'))), opWriteAt("y", 599999), l("WriteAt(300K,262143)", opWriteAt(bigStr(300000, 'A'), 262143)), opWriteAt("zz", 400),
		opTruncate(262144), opTruncate(175), opSeek(700001, io.SeekStart), opGetNode,
	}
	if !snaps {
		ops = append(ops, opRead(300000, true), opSeek(-5, io.SeekEnd), opSync)
	}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	h.DefaultLinksPerBlock = 174
	type in struct {
		f    fcfg
		size int
	}
	for _, x := range []in{
		{fcfg{balancedL, 262144, 174, true, &v1, 0}, 600000},
		{fcfg{trickleL, 262144, 174, false, &v0, 0}, 600000},
		{fcfg{balancedL, 1, 174, false, &v0, 0}, 400},
		{fcfg{trickleL, 1, 174, true, &v1, 0}, 400},
		{fcfg{balancedL, 3000, 4, true, &blk2, 0}, 600000},
	} {
		x := x
		r.BFS(fmt.Sprintf("large files size=%d %v", x.size, x.f), len(ops), depth, 0, func(c *ex.Ctl) ex.System {
			s := newDmSys(c, x.f, x.size, 1<<18, ops)
			s.snapsToo = snaps
			return s
		})
	}
}

// defaultDirs fill a directory across the switch at the default threshold and
// fan-out.
func defaultDirs(r *ex.Run, canon bool) {
	const th, width, n = 256 << 10, 256, 1130 // the default threshold and fan-out
	v := mkRawValue("one")
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("%04d-%s", i*7919%10000, strings.Repeat("n", 193+i%5)))
	}
	cfg := &dirCfg{threshold: th, width: width, prefix: &v1, names: names}
	cfg.apply()
	r.Enum("default threshold and fan-out", ex.Opt{}, func(c *ex.Ctl) {
		in := c.Choose(3)
		every := []int{0, 97}[c.Choose(2)]
		cf := *cfg
		cf.values = []value{v}
		s := newDirSys(c, &cf, nil, canon)
		k := 0
		near := func() bool { d := sumSize(s.m) - th; return -700 < d && d < 700 }
		look := func() {
			k++
			c.Step()
			switch {
			case canon && (near() || k%211 == 0):
				s.checkForm(c, "now")
			case !canon && (near() || k%211 == 0):
				s.links(c)
				s.find(c, names[k%n])
			}
			if every > 0 && k%every == 0 {
				s.reload(c)
			}
		}
		add := func(nm string) {
			if err := s.d.AddChild(bg, nm, v.node); err != nil {
				c.Failf("AddChild: %v", err)
			}
			s.m[nm] = v.e
			s.updated(true)
			look()
		}
		rm := func(nm string) {
			if err := s.d.RemoveChild(bg, nm); err != nil {
				c.Failf("RemoveChild(%q): %v", nm, err)
			}
			delete(s.m, nm)
			s.updated(true)
			look()
		}
		ord := scaleOrder(in, n)
		for _, x := range ord {
			add(names[x])
		}
		if !s.hamt {
			panic("harness: below the threshold")
		}
		for _, x := range ord[:40] {
			rm(names[x])
		}
		if s.hamt {
			panic("harness: above the threshold")
		}
		for _, x := range ord[:25] {
			add(names[x])
		}
		s.links(c)
		s.stream(c)
		s.checkForm(c, "at the end")
		c.State(ex.FpBytes([]byte(fmt.Sprint(in, every))))
	})
}

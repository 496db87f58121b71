package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	pi "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

func init() {
	ex.Register(&ex.Check{ID: "C21", Level: "fault_enumeration", Run: runC21, Quick: 200 * time.Second, Thorough: 40 * time.Minute})
	ex.Register(&ex.Check{ID: "C24", Level: "exploration", Run: runC24, Quick: 200 * time.Second, Thorough: 40 * time.Minute})
}

// complete fails unless the DAG under root is stored in full and stands for
// exactly data.
func complete(c *ex.Ctl, st *env.Store, root cid.Cid, data []byte, what string) {
	fi, err := refm.CheckFile(st, root, refm.FileOpt{})
	if err != nil {
		c.Failf("%s succeeded, but: %v", what, err)
	}
	if !bytes.Equal(fi.Content, data) {
		c.Failf("%s succeeded, but the DAG stands for %d bytes %q; the input is %d bytes %q", what, len(fi.Content), cut(fi.Content), len(data), cut(data))
	}
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// faultPlan makes the store fail calls: the k-th only, or all from the k-th.
type faultPlan struct {
	k    int
	from bool
	n    int
	hit  bool
}

func (p *faultPlan) hook(cid.Cid) error {
	p.n++
	if p.k > 0 && (p.n == p.k || p.from && p.n > p.k) {
		p.hit = true
		return env.ErrInjected
	}
	return nil
}

var importErrs = []error{env.ErrInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled, io.ErrNoProgress, os.ErrClosed, io.ErrShortBuffer}

// flaky is a reader over data that fails at byte k.
type flaky struct {
	data  []byte
	pos   int
	k     int
	err   error
	with  bool // deliver the bytes before k together with the error
	once  bool // go on afterwards
	small bool // one byte at a time
	hit   bool
}

func (f *flaky) Read(p []byte) (int, error) {
	if f.pos == f.k && !(f.hit && f.once) {
		f.hit = true
		return 0, f.err
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	if f.small && len(p) > 1 {
		p = p[:1]
	}
	n := copy(p, f.data[f.pos:])
	if f.pos < f.k && f.pos+n >= f.k && !(f.hit && f.once) {
		n = f.k - f.pos
		f.pos = f.k
		if f.with {
			f.hit = true
			return n, f.err
		}
		return n, nil
	}
	f.pos += n
	return n, nil
}

// failBuilder is a CID format whose hash fails for one raw block.
type failBuilder struct {
	cid.Prefix
	at int
	n  *int
}

func (b failBuilder) WithCodec(codec uint64) cid.Builder {
	b.Prefix = b.Prefix.WithCodec(codec).(cid.Prefix)
	return b
}

func (b failBuilder) Sum(data []byte) (cid.Cid, error) {
	if b.Codec == cid.Raw {
		if *b.n++; *b.n == b.at {
			return cid.Undef, errors.New("no such hash function")
		}
	}
	return b.Prefix.Sum(data)
}

func runC21(r *ex.Run) {
	N := 16
	if r.Thorough() {
		N = 40
	}
	cfg := func(c *ex.Ctl, fans int) fcfg {
		f := fcfg{layout: c.Choose(2), chunk: 2, maxlinks: 2 + c.Choose(fans)}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		return f
	}
	r.Enum("the splitter fails at each chunk", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c, 3)
		n := c.Choose(N + 1)
		k := c.Choose(n + 1)
		e := importErrs[c.Choose(len(importErrs))]
		data := pat(2 * n)
		st := env.NewStore()
		nd, err := layoutWith(st, f, &listSplitter{chunks: chunksOf(data, 2), failAt: k, err: e})
		c.Step()
		if err == nil {
			c.Failf("%v: the splitter failed with %q instead of chunk %d of %d, the import returned %s and no error", f, e, k, n, nd.Cid())
		}
		c.Outcome("error reported")
	})
	r.Enum("the store refuses each block", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c, 3)
		n := c.Choose(N + 1)
		data := pat(2*n - n%3%2)
		if n == 0 {
			data = nil
		}
		st := env.NewStore()
		p := &faultPlan{k: c.Choose(3*n + 3), from: c.Bool()}
		if p.k == 0 && p.from {
			c.Skip()
		}
		st.OnAdd = p.hook
		nd, err := layoutWith(st, f, splitList(chunksOf(data, 2)))
		for i := 0; i < p.n; i++ {
			c.Step()
		}
		if p.hit && err == nil {
			c.Failf("%v: the store refused block %d (from then on: %v) of the import of %d chunks, which returned %s and no error", f, p.k, p.from, n, nd.Cid())
		}
		if !p.hit {
			if p.k > 0 && p.from { // no such call: same as without fault
				c.Skip()
			}
			if err != nil {
				c.Failf("%v: import of %d chunks failed without a fault: %v", f, n, err)
			}
			complete(c, st, nd.Cid(), data, fmt.Sprintf("%v import of %d chunks", f, n))
			c.Outcome("complete")
			return
		}
		c.Outcome("error reported")
	})
	r.Enum("hashing fails at each raw leaf", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c, 3)
		f.raw = true
		n, old := 1+c.Choose(N), -1
		if f.layout == trickleL {
			old = c.Choose(5) - 1
		}
		k := c.Choose(n + 1)
		st := env.NewStore()
		fb := failBuilder{Prefix: v1, at: k + 1, n: new(int)}
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: true, CidBuilder: fb}
		db, err := p.New(splitList(chunksOf(pat(2*n), 2)))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		var nd ipld.Node
		what := fmt.Sprintf("%v import", f)
		data := pat(2 * n)
		switch {
		case f.layout == balancedL:
			nd, err = balanced.Layout(db)
		case old < 0:
			nd, err = trickle.Layout(db)
		default:
			what = fmt.Sprintf("%v append to %d chunks", f, old)
			g := f
			g.prefix = &v1
			base := mustImport(c, st, g, pat(2*old))
			data = append(pat(2*old), data...)
			nd, err = trickle.Append(bg, base, db)
			if err == nil {
				err = st.Add(bg, nd)
			}
		}
		c.Step()
		if k < n && err == nil {
			c.Failf("%s: leaf %d of %d could not be made, and %s was returned without an error", what, k, n, nd.Cid())
		}
		if k == n {
			if err != nil {
				c.Failf("%s of %d chunks failed without a fault: %v", what, n, err)
			}
			complete(c, st, nd.Cid(), data, what)
			c.Outcome("complete")
			return
		}
		c.Outcome("error reported")
	})
	limit := h.BlockSizeLimit
	h.BlockSizeLimit = 4
	r.Enum("chunks around the block size limit", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c, 2)
		n := 1 + c.Choose(10)
		k := c.Choose(n)
		l := 3 + c.Choose(6)
		var chunks [][]byte
		var data []byte
		for i := 0; i < n; i++ {
			m := 4
			if i == k {
				m = l
			} else if i%3 == 2 {
				m = 1
			}
			ch := pat(len(data) + m)[len(data):]
			chunks = append(chunks, ch)
			data = append(data, ch...)
		}
		st := env.NewStore()
		nd, err := layoutWith(st, f, splitList(chunks))
		c.Step()
		if l > 4 {
			if err == nil {
				c.Failf("%v: chunk %d of %d has %d bytes, the limit is 4, and the import succeeded with %s", f, k, n, l, nd.Cid())
			}
			c.Outcome("oversize refused")
			return
		}
		if err != nil {
			c.Failf("%v: chunks of at most %d bytes (limit 4) refused: %v", f, l, err)
		}
		complete(c, st, nd.Cid(), data, "import")
		c.Outcome("complete")
	})
	h.BlockSizeLimit = limit
	links := h.DefaultLinksPerBlock
	h.DefaultLinksPerBlock = 3
	r.Enum("the reader fails at each byte", ex.Opt{}, func(c *ex.Ctl) {
		layout := c.Choose(2)
		n := c.Choose(2*N + 1)
		k := c.Choose(n + 2)
		size := []int64{1, 3, 4}[c.Choose(3)]
		// The third-party size splitter takes io.ErrUnexpectedEOF for the end.
		errs := []error{env.ErrInjected, io.ErrClosedPipe, context.DeadlineExceeded}
		rd := &flaky{data: pat(n), k: k, err: errs[c.Choose(3)], with: c.Bool(), once: c.Bool(), small: c.Bool()}
		if rd.with && rd.once {
			c.Skip() // io.ReadFull in the splitter drops an error that comes with the last byte it wants
		}
		if k > n {
			rd.k = -1
			if rd.with || rd.once || rd.err != env.ErrInjected {
				c.Skip()
			}
		}
		st := env.NewStore()
		build := importer.BuildDagFromReader
		if layout == trickleL {
			build = importer.BuildTrickleDagFromReader
		}
		nd, err := build(st, chunker.NewSizeSplitter(rd, size))
		c.Step()
		what := fmt.Sprintf("%s import of %d bytes in chunks of %d", layoutName[layout], n, size)
		if rd.hit {
			if err == nil {
				c.Failf("%s: the reader failed at byte %d with %q (together with data: %v, once: %v) and the import returned %s and no error", what, k, rd.err, rd.with, rd.once, nd.Cid())
			}
			c.Outcome("error reported")
			return
		}
		if err != nil {
			c.Failf("%s failed without a fault: %v", what, err)
		}
		complete(c, st, nd.Cid(), rd.data, what)
		c.Outcome("complete")
	})
	h.DefaultLinksPerBlock = links
	app := func(N, M int) func(c *ex.Ctl) {
		return func(c *ex.Ctl) {
			f := fcfg{layout: trickleL, chunk: 1, maxlinks: 1 + c.Choose(3)}
			if c.Bool() {
				f.raw, f.prefix = true, &v1
			}
			n := c.Choose(N + 1)
			m := 1 + c.Choose(M)
			data := pat(n + m)
			st := env.NewStore()
			base := mustImport(c, st, f, data[:n])
			mode := c.Choose(4)
			spl := &listSplitter{chunks: chunksOf(data[n:], 1), failAt: -1}
			pa, pg := &faultPlan{}, &faultPlan{}
			what := ""
			switch mode {
			case 0:
				spl.failAt = c.Choose(m + 1)
				spl.err = importErrs[c.Choose(3)]
				what = fmt.Sprintf("the splitter failed at chunk %d", spl.failAt)
			case 1:
				pa.k, pa.from = 1+c.Choose(2*m+6), c.Bool()
				what = fmt.Sprintf("the store refused block %d (from then on: %v)", pa.k, pa.from)
			case 2:
				pg.k = 1 + c.Choose(4)
				what = fmt.Sprintf("fetch %d failed", pg.k)
			case 3:
				k := c.Choose(m)
				spl.chunks[k] = pat(5)
				what = fmt.Sprintf("chunk %d was larger than the limit", k)
			}
			loaded := getNode(c, st, base.Cid())
			st.OnAdd, st.OnGet = pa.hook, pg.hook
			p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw}
			if f.prefix != nil {
				p.CidBuilder = *f.prefix
			}
			db, err := p.New(spl)
			if err != nil {
				c.Failf("%v", err)
			}
			out, err := trickle.Append(bg, loaded, db)
			st.OnAdd, st.OnGet = nil, nil
			for i := 0; i < pa.n+pg.n; i++ {
				c.Step()
			}
			if mode == 0 || mode == 3 || pa.hit || pg.hit {
				if err == nil {
					c.Failf("%v: append of %d chunks to %d: %s, and the append returned no error", f, m, n, what)
				}
				c.Outcome("error reported")
			} else {
				if err != nil {
					c.Failf("%v: append of %d chunks to %d failed without a fault: %v", f, m, n, err)
				}
				// Everything but the root, which is the caller's to store.
				if err := st.Add(bg, out); err != nil {
					panic(err)
				}
				complete(c, st, out.Cid(), data, fmt.Sprintf("%v append of %d chunks to %d", f, m, n))
				c.Outcome("complete")
			}
			complete(c, st, base.Cid(), data[:n], "the import before the append")
		}
	}
	h.BlockSizeLimit = 4
	defer func() { h.BlockSizeLimit = limit }()
	if r.Thorough() {
		r.Enum("appends with each fault", ex.Opt{}, app(60, 20))
	} else {
		r.Enum("appends with each fault", ex.Opt{}, app(30, 9))
	}
	h.BlockSizeLimit = limit
	scaleImportFaults(r)
}

type fakeStat struct{ os.FileInfo }

func (fakeStat) Name() string { return "f" }
func (fakeStat) Size() int64  { return 12345 }

type posLeaf struct {
	off  uint64
	data string
}

func runC24(r *ex.Run) {
	N := 20
	if r.Thorough() {
		N = 60
	}
	const path = "/no/such/dir/file"
	source := func(c *ex.Ctl, p string) io.Reader {
		f, err := files.NewReaderPathFile(p, io.NopCloser(bytes.NewReader(nil)), fakeStat{})
		if err != nil {
			panic(err)
		}
		return f
	}
	// body imports the given chunks without copying and compares.
	body := func(c *ex.Ctl, f fcfg, chunks [][]byte, pathed bool, nocopy bool) {
		var data []byte
		for _, ch := range chunks {
			data = append(data, ch...)
		}
		st := env.NewStore()
		want := map[posLeaf]int{}
		off := uint64(0)
		for _, ch := range chunks {
			want[posLeaf{off, string(ch)}]++
			off += uint64(len(ch))
		}
		got := map[posLeaf]int{}
		plain := 0
		st.OnNode = func(n ipld.Node) {
			c.Step()
			fn, ok := n.(*pi.FilestoreNode)
			if !ok {
				if n.Cid().Type() == cid.Raw {
					plain++
				}
				return
			}
			if fn.PosInfo == nil {
				c.Failf("leaf without position")
			}
			if !nocopy {
				c.Failf("%v: a copying import hands over a leaf with a position", f)
			}
			if fn.PosInfo.FullPath != path {
				c.Failf("%v: leaf at %d carries the path %q", f, fn.PosInfo.Offset, fn.PosInfo.FullPath)
			}
			if fn.PosInfo.Stat == nil || fn.PosInfo.Stat.Size() != 12345 {
				c.Failf("%v: leaf at %d carries another file's stat", f, fn.PosInfo.Offset)
			}
			o, raw := fn.PosInfo.Offset, fn.RawData()
			if o+uint64(len(raw)) > uint64(len(data)) || !bytes.Equal(data[o:o+uint64(len(raw))], raw) {
				c.Failf("%v: leaf %q is recorded at offset %d, where the source has %q", f, raw, o, data[min(int(o), len(data)):])
			}
			got[posLeaf{o, string(raw)}]++
		}
		spl := &listSplitter{chunks: chunks, failAt: -1}
		if pathed {
			spl.r = source(c, path)
		}
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw, NoCopy: nocopy}
		if f.prefix != nil {
			p.CidBuilder = *f.prefix
		}
		db, err := p.New(spl)
		if nocopy && !pathed {
			if err == nil {
				c.Failf("%v: an import without copying from a source without a path is not refused", f)
			}
			if spl.i != 0 {
				c.Failf("refused after reading the source")
			}
			c.Outcome("refused")
			return
		}
		if err != nil {
			c.Failf("%v: %v", f, err)
		}
		var nd ipld.Node
		if f.layout == trickleL {
			nd, err = trickle.Layout(db)
		} else {
			nd, err = balanced.Layout(db)
		}
		if err != nil {
			c.Failf("%v: import: %v", f, err)
		}
		b := refm.NewB(f.prefix)
		var ref refm.Built
		if f.layout == trickleL {
			ref = b.Trickle(chunks, f.maxlinks, f.raw)
		} else {
			ref = b.Balanced(chunks, f.maxlinks, f.raw)
		}
		if !nd.Cid().Equals(ref.Cid) {
			c.Failf("%v: import of %d chunks (without copying: %v) gives %s, the DAG is %s", f, len(chunks), nocopy, nd.Cid(), ref.Cid)
		}
		if nocopy && f.raw && len(data) > 0 {
			if plain != 0 {
				c.Failf("%v: %d leaves carry no position", f, plain)
			}
			for k, n := range want {
				// A leaf handed over twice is no harm; one never handed over is.
				if got[k] < n {
					c.Failf("%v: the leaf %q at offset %d is never handed over with that position", f, k.data, k.off)
				}
			}
		} else if len(got) != 0 {
			c.Failf("%v: protobuf leaves with a position", f)
		}
		st.OnNode = nil
		if _, err := refm.CheckFile(st, nd.Cid(), refm.FileOpt{}); err != nil {
			c.Failf("%v", err)
		}
		c.State(ex.FpBytes(nd.Cid().Bytes()))
		c.Outcome("imported")
	}
	cfg := func(c *ex.Ctl) fcfg {
		f := fcfg{layout: c.Choose(2), maxlinks: 2 + c.Choose(3), raw: true}
		switch c.Choose(3) {
		case 1:
			f.prefix = &v1
		case 2:
			f.prefix = &blk2
		}
		return f
	}
	r.Enum("every number of chunks", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c)
		n := c.Choose(N + 1)
		style := c.Choose(4)
		var chunks [][]byte
		for i, t := 0, 0; i < n; i++ {
			l := 3
			switch style {
			case 1: // growing
				l = i + 1
			case 2: // repeating bytes
				chunks = append(chunks, []byte("same"))
				continue
			case 3:
				if i == n-1 {
					l = 1
				}
			}
			chunks = append(chunks, pat(t + l)[t:])
			t += l
		}
		body(c, f, chunks, true, true)
	})
	r.Enum("every chunk length pattern", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c)
		n := c.Choose(6)
		if r.Thorough() {
			n = c.Choose(9)
		}
		var chunks [][]byte
		t := 0
		for i := 0; i < n; i++ {
			l := 1 + c.Choose(3)
			if c.Bool() { // repeated content at another place
				chunks = append(chunks, []byte("ZZZ")[:l])
			} else {
				chunks = append(chunks, pat(t + l)[t:])
			}
			t += l
		}
		body(c, f, chunks, true, true)
	})
	r.Enum("other combinations of leaf kind, path and mode", ex.Opt{}, func(c *ex.Ctl) {
		f := cfg(c)
		f.raw = c.Bool()
		if !f.raw && f.prefix == nil && c.Bool() {
			f.prefix = &v0
		}
		pathed, nocopy := c.Bool(), c.Bool()
		body(c, f, chunksOf(pat(c.Choose(15)), 2), pathed, nocopy)
	})
	// Appending from a second source: its own path, its own offsets.
	r.Enum("appends", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: trickleL, chunk: 2, maxlinks: 1 + c.Choose(4), raw: true, prefix: &v1}
		n, m := c.Choose(N+1), 1+c.Choose(12)
		base, more := pat(2*n), bytes.ToLower(pat(100))[:2*m-c.Choose(2)]
		st := env.NewStore()
		root := mustImport(c, st, f, base)
		chunks := chunksOf(more, 2)
		seen := map[uint64]bool{}
		st.OnNode = func(nd ipld.Node) {
			fn, ok := nd.(*pi.FilestoreNode)
			if !ok {
				if nd.Cid().Type() == cid.Raw {
					c.Failf("append without copying: leaf %q carries no position", nd.RawData())
				}
				return
			}
			o, raw := fn.PosInfo.Offset, fn.RawData()
			if fn.PosInfo.FullPath != path || o+uint64(len(raw)) > uint64(len(more)) || !bytes.Equal(more[o:o+uint64(len(raw))], raw) {
				c.Failf("append without copying: leaf %q is recorded at offset %d of %s", raw, o, fn.PosInfo.FullPath)
			}
			seen[o] = true
		}
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: true, NoCopy: true, CidBuilder: *f.prefix}
		db, err := p.New(&listSplitter{chunks: chunks, failAt: -1, r: source(c, path)})
		if err != nil {
			c.Failf("%v", err)
		}
		out, err := trickle.Append(bg, getNode(c, st, root.Cid()), db)
		if err != nil {
			c.Failf("%v", err)
		}
		if len(seen) != len(chunks) {
			c.Failf("append of %d chunks to %d: %d positions recorded", len(chunks), n, len(seen))
		}
		b := refm.NewB(f.prefix)
		if want := b.Trickle(append(chunksOf(base, 2), chunks...), f.maxlinks, true); !out.Cid().Equals(want.Cid) {
			c.Failf("append of %d chunks to %d without copying gives another DAG than an import", len(chunks), n)
		}
	})
	r.Enum("through the size splitter", ex.Opt{}, func(c *ex.Ctl) {
		n := c.Choose(30)
		size := 1 + c.Choose(4)
		f := fcfg{layout: c.Choose(2), maxlinks: 3, raw: true, prefix: &v1}
		data := pat(n)
		rd := func() io.Reader {
			ff, err := files.NewReaderPathFile(path, io.NopCloser(bytes.NewReader(data)), fakeStat{})
			if err != nil {
				panic(err)
			}
			return ff
		}()
		st := env.NewStore()
		seen := 0
		st.OnNode = func(nd ipld.Node) {
			if fn, ok := nd.(*pi.FilestoreNode); ok {
				seen++
				o := fn.PosInfo.Offset
				if !bytes.Equal(data[o:o+uint64(len(fn.RawData()))], fn.RawData()) {
					c.Failf("leaf %q recorded at %d", fn.RawData(), o)
				}
			}
		}
		p := h.DagBuilderParams{Dagserv: st, Maxlinks: 3, RawLeaves: true, NoCopy: true, CidBuilder: v1}
		// sizeSplitter.Reader returns the reader it was given
		db, err := p.New(readerSplitter{chunker.NewSizeSplitter(rd, int64(size)), rd})
		if err != nil {
			c.Failf("%v", err)
		}
		if f.layout == trickleL {
			_, err = trickle.Layout(db)
		} else {
			_, err = balanced.Layout(db)
		}
		if err != nil {
			c.Failf("%v", err)
		}
		if want := (n + size - 1) / size; seen < want {
			c.Failf("%d leaves with positions, want %d", seen, want)
		}
	})
	scaleNoCopy(r)
}

type readerSplitter struct {
	chunker.Splitter
	r io.Reader
}

func (s readerSplitter) Reader() io.Reader { return s.r }

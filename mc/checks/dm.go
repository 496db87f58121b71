package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// dmOp is one operation on a modifier and on its byte-array model.
type dmOp struct {
	name string
	do   func(c *ex.Ctl, s *dmSys)
}

// dmSys couples a DagModifier with the model: a byte array and a cursor.
type dmSys struct {
	st   *env.Store
	dm   *mod.DagModifier
	orig ipld.Node
	ops  []dmOp

	file []byte
	cur  int
	// snapshots handed out, with the content each must keep
	snaps    []snap
	snapsToo bool // check every snapshot in every state (C09)
	pending  []byte
}

type snap struct {
	n    ipld.Node
	cid  string
	want []byte
}

func splGen(n int64) chunker.SplitterGen {
	return func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, n) }
}

func newDmSys(c *ex.Ctl, f fcfg, size int, split int64, ops []dmOp) *dmSys {
	s := &dmSys{st: env.NewStore(), ops: ops, file: append([]byte{}, pat(size)...)}
	n := mustImport(c, s.st, f, s.file)
	n = getNode(c, s.st, n.Cid())
	dm, err := mod.NewDagModifier(bg, n, s.st, splGen(split))
	if err != nil {
		c.Failf("NewDagModifier: %v", err)
	}
	dm.RawLeaves = f.raw
	s.dm = dm
	s.orig = n
	s.snaps = []snap{{n, n.Cid().KeyString(), append([]byte{}, s.file...)}}
	return s
}

func (s *dmSys) Apply(c *ex.Ctl, op int) {
	o := s.ops[op]
	c.Logf("%s", o.name)
	o.do(c, s)
	sz, err := s.dm.Size()
	if err != nil {
		c.Failf("after %s: Size: %v", o.name, err)
	}
	if sz != int64(len(s.file)) {
		c.Failf("after %s: Size %d, model %d", o.name, sz, len(s.file))
	}
}

func (s *dmSys) Fingerprint() ex.Fp { return ex.DeepHash(s.dm, s.file, s.cur, len(s.snaps)) }

// Observe: the flushed file equals the model, its DAG is well formed and fully
// stored, the cursor is where the model says, every snapshot is unchanged.
func (s *dmSys) Observe(c *ex.Ctl) {
	if s.snapsToo {
		for i, sn := range s.snaps {
			s.checkSnap(c, fmt.Sprintf("snapshot %d", i), sn)
		}
	}
	n, err := s.dm.GetNode()
	if err != nil {
		c.Failf("final GetNode: %v", err)
	}
	s.checkSnap(c, "final node", snap{n, n.Cid().KeyString(), s.file})
	if s.snapsToo {
		for i, sn := range s.snaps {
			s.checkSnap(c, fmt.Sprintf("snapshot %d after flush", i), sn)
		}
	}
	if s.cur > len(s.file) {
		return
	}
	rest := make([]byte, len(s.file)+3)
	k, err := s.dm.CtxReadFull(bg, rest)
	if err != nil && !isEOF(err) && err != io.ErrUnexpectedEOF {
		c.Failf("final read: %v", err)
	}
	if !bytes.Equal(rest[:k], s.file[s.cur:]) {
		c.Failf("reading on from the cursor gives %q, model %q (cursor %d of %q)", rest[:k], s.file[s.cur:], s.cur, s.file)
	}
}

func (s *dmSys) checkSnap(c *ex.Ctl, what string, sn snap) {
	if sn.n.Cid().KeyString() != sn.cid {
		c.Failf("%s: its CID changed", what)
	}
	if sn.n.Copy().Cid().KeyString() != sn.cid {
		c.Failf("%s: its content no longer matches its CID", what)
	}
	k := sn.n.Cid()
	fi, err := refm.CheckFile(s.st, k, refm.FileOpt{})
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
	if !bytes.Equal(fi.Content, sn.want) {
		c.Failf("%s holds %q, model %q", what, fi.Content, sn.want)
	}
	// and as served by the reader from the node object itself
	dr, err := uio.NewDagReader(bg, sn.n, s.st)
	if err != nil {
		c.Failf("%s: reader: %v", what, err)
	}
	got, err := io.ReadAll(dr)
	if err != nil || !bytes.Equal(got, sn.want) {
		c.Failf("%s reads back %q (%v), model %q", what, got, err, sn.want)
	}
}

func (s *dmSys) setLen(n int) {
	for len(s.file) < n {
		s.file = append(s.file, 0)
	}
	s.file = s.file[:n:n]
}

func (s *dmSys) put(off int, b []byte) {
	if len(b) > 0 && len(s.file) < off+len(b) {
		s.setLen(off + len(b))
	}
	s.file = append([]byte{}, s.file...)
	copy(s.file[min(off, len(s.file)):], b)
}

// needCur ends executions that would use a cursor left beyond the end by
// Truncate: what happens there is not specified.
func (s *dmSys) needCur(c *ex.Ctl) {
	if s.cur > len(s.file) {
		c.Skip()
	}
}

func opWrite(d string) dmOp {
	return dmOp{fmt.Sprintf("Write(%q)", d), func(c *ex.Ctl, s *dmSys) {
		s.needCur(c)
		buf := []byte(d)
		n, err := s.dm.Write(buf)
		if err != nil || n != len(d) {
			c.Failf("Write(%q) = %d, %v", d, n, err)
		}
		for i := range buf {
			buf[i] = '!' // the caller may reuse its buffer
		}
		s.put(s.cur, []byte(d))
		s.cur += len(d)
	}}
}

func opWriteAt(d string, off int) dmOp {
	return dmOp{fmt.Sprintf("WriteAt(%q,%d)", d, off), func(c *ex.Ctl, s *dmSys) {
		if d == "" && off > len(s.file) {
			c.Skip() // whether an empty write past the end grows the file is not specified
		}
		buf := []byte(d)
		n, err := s.dm.WriteAt(buf, int64(off))
		if off < 0 {
			if err == nil {
				c.Failf("WriteAt at %d succeeded", off)
			}
			return
		}
		if err != nil || n != len(d) {
			c.Failf("WriteAt(%q,%d) = %d, %v", d, off, n, err)
		}
		for i := range buf {
			buf[i] = '!'
		}
		s.put(off, []byte(d))
		s.cur = off + len(d)
	}}
}

func opSeek(off int64, wh int) dmOp {
	return dmOp{fmt.Sprintf("Seek(%d,%d)", off, wh), func(c *ex.Ctl, s *dmSys) {
		if wh == io.SeekCurrent {
			s.needCur(c)
		}
		var want int64
		switch wh {
		case io.SeekStart:
			want = off
		case io.SeekCurrent:
			want = int64(s.cur) + off
		case io.SeekEnd:
			want = int64(len(s.file)) + off
		default:
			want = -1
		}
		got, err := s.dm.Seek(off, wh)
		if want < 0 {
			if err == nil {
				c.Failf("Seek(%d,%d) to %d succeeded with %d", off, wh, want, got)
			}
			return
		}
		if err != nil || got != want {
			c.Failf("Seek(%d,%d) = %d, %v; model %d", off, wh, got, err, want)
		}
		s.cur = int(want)
		if len(s.file) < s.cur {
			s.setLen(s.cur) // seeking past the end grows the file
		}
	}}
}

func opRead(n int, full bool) dmOp {
	nm := "Read"
	if full {
		nm = "CtxReadFull"
	}
	return dmOp{fmt.Sprintf("%s(%d)", nm, n), func(c *ex.Ctl, s *dmSys) {
		s.needCur(c)
		buf := make([]byte, n)
		var k int
		var err error
		if full {
			k, err = s.dm.CtxReadFull(context.Background(), buf)
		} else {
			k, err = s.dm.Read(buf)
		}
		want := min(n, len(s.file)-s.cur)
		if k != want {
			c.Failf("%s(%d) = %d (%v), model %d", nm, n, k, err, want)
		}
		if err != nil && !((k < n || n == 0) && (isEOF(err) || err == io.ErrUnexpectedEOF)) {
			c.Failf("%s(%d) = %d, %v", nm, n, k, err)
		}
		if k < n && n > 0 && err == nil && full {
			c.Failf("%s(%d): short read %d without error", nm, n, k)
		}
		if !bytes.Equal(buf[:k], s.file[s.cur:s.cur+k]) {
			c.Failf("%s(%d) gives %q, model %q", nm, n, buf[:k], s.file[s.cur:s.cur+k])
		}
		s.cur += k
	}}
}

func opTruncate(n int) dmOp {
	return dmOp{fmt.Sprintf("Truncate(%d)", n), func(c *ex.Ctl, s *dmSys) {
		err := s.dm.Truncate(int64(n))
		if n < 0 {
			if err == nil {
				c.Failf("Truncate(%d) succeeded", n)
			}
			return
		}
		if err != nil {
			c.Failf("Truncate(%d): %v", n, err)
		}
		s.setLen(n)
	}}
}

var opSync = dmOp{"Sync", func(c *ex.Ctl, s *dmSys) {
	if err := s.dm.Sync(); err != nil {
		c.Failf("Sync: %v", err)
	}
	if s.dm.HasChanges() {
		c.Failf("changes pending after Sync")
	}
}}

var opGetNode = dmOp{"GetNode", func(c *ex.Ctl, s *dmSys) {
	n, err := s.dm.GetNode()
	if err != nil {
		c.Failf("GetNode: %v", err)
	}
	sn := snap{n, n.Cid().KeyString(), append([]byte{}, s.file...)}
	s.checkSnap(c, "GetNode result", sn)
	s.snaps = append(s.snaps, sn)
}}

// opFork goes on with a new modifier of the node the current one hands out,
// or of what that node is in storage.
func opFork(stored bool) dmOp {
	return dmOp{fmt.Sprintf("new modifier, stored=%v", stored), func(c *ex.Ctl, s *dmSys) {
		n, err := s.dm.GetNode()
		if err != nil {
			c.Failf("GetNode: %v", err)
		}
		if stored {
			n = getNode(c, s.st, n.Cid())
		}
		s.snaps = append(s.snaps, snap{n, n.Cid().KeyString(), append([]byte{}, s.file...)})
		raw := s.dm.RawLeaves
		dm, err := mod.NewDagModifier(bg, n, s.st, splGen(2))
		if err != nil {
			c.Failf("NewDagModifier: %v", err)
		}
		dm.RawLeaves = raw
		s.dm, s.cur = dm, 0
	}}
}

var opToggleRaw = dmOp{"RawLeaves=!RawLeaves", func(c *ex.Ctl, s *dmSys) { s.dm.RawLeaves = !s.dm.RawLeaves }}

func opPrefix(p cid.Prefix) dmOp {
	return dmOp{fmt.Sprintf("Prefix=v%d/%x", p.Version, p.MhType), func(c *ex.Ctl, s *dmSys) { s.dm.Prefix = p }}
}

// optOps changes the modifier's options, and the modifier, on the way.
func optOps() []dmOp {
	return []dmOp{
		opWrite("a"), opWrite("bcdef"), opRead(3, false), opSync, opGetNode, opSeek(0, io.SeekEnd), opSeek(11, io.SeekStart), opSeek(3, io.SeekStart),
		opWriteAt("ghi", 2), opWriteAt("jklm", 7), opTruncate(3), opTruncate(8), opTruncate(14),
		opToggleRaw, opPrefix(blk2), opPrefix(v0), opFork(false), opFork(true),
	}
}

func dmAlphabet(full bool) []dmOp {
	ops := []dmOp{
		opWrite("a"), opWrite("bcd"), opRead(1, false), opRead(3, false), opSync, opGetNode,
		opSeek(0, io.SeekStart), opSeek(3, io.SeekStart), opSeek(-1, io.SeekCurrent), opSeek(2, io.SeekCurrent), opSeek(-2, io.SeekEnd), opSeek(0, io.SeekEnd),
		opWriteAt("e", 0), opWriteAt("fg", 0), opWriteAt("hij", 2), opWriteAt("k", 2), opWriteAt("l", 4), opWriteAt("mn", 5), opWriteAt("opqrs", 1),
		opTruncate(0), opTruncate(2), opTruncate(3), opTruncate(8),
	}
	if full {
		ops = append(ops, opWrite(""), opWrite("tuvwxyz"), opRead(2, true), opRead(20, true), opRead(0, false),
			opSeek(1, io.SeekStart), opSeek(11, io.SeekStart), opSeek(-1, io.SeekStart), opSeek(-50, io.SeekCurrent), opSeek(0, io.SeekCurrent), opSeek(-1, io.SeekEnd), opSeek(3, io.SeekEnd), opSeek(-60, io.SeekEnd), opSeek(1, 3),
			opWriteAt("1", 1), opWriteAt("23", 3), opWriteAt("4567", 7), opWriteAt("8", 12), opWriteAt("9", -1), opWriteAt("", 2), opWriteAt("", 15),
			opTruncate(1), opTruncate(4), opTruncate(5), opTruncate(14), opTruncate(-1))
	}
	return ops
}

type dmInit struct {
	f    fcfg
	size int
}

func dmInits() []dmInit {
	return []dmInit{
		{fcfg{trickleL, 2, 2, false, &v0, 0}, 0},
		{fcfg{trickleL, 2, 2, false, &v0, 0}, 5},
		{fcfg{trickleL, 2, 2, true, &v1, 0}, 9},
		{fcfg{balancedL, 4, 2, false, &v0, 0}, 3},
		{fcfg{balancedL, 4, 2, true, &v1, 0}, 3},
		{fcfg{balancedL, 2, 2, false, &v0, 0}, 9},
		{fcfg{balancedL, 2, 3, true, &v1, 0}, 11},
		{fcfg{balancedL, 2, 2, true, &v1, 0}, 0},
	}
}

type dmScn struct {
	name  string
	in    dmInit
	split int64
	fan   int
	ops   []dmOp
	depth int
}

// deepOps works around the leaf and subtree boundaries of a 26 byte file.
func deepOps() []dmOp {
	return []dmOp{
		opWrite("a"), opWrite("bcdefg"), opRead(3, false), opSync, opGetNode,
		opSeek(19, io.SeekStart), opSeek(0, io.SeekEnd), opSeek(31, io.SeekStart),
		opWriteAt("h", 19), opWriteAt("ijk", 18), opWriteAt("lmnop", 24), opWriteAt("qrstuvwxyz01", 3),
		opTruncate(3), opTruncate(4), opTruncate(20), opTruncate(21), opTruncate(25), opTruncate(33),
	}
}

func dmScenarios(thorough bool) []dmScn {
	full, small := dmAlphabet(true), dmAlphabet(false)
	d3, d4 := 3, 4
	if thorough {
		d3, d4 = 4, 6
	}
	var out []dmScn
	for _, in := range dmInits() {
		out = append(out, dmScn{"full", in, 2, 2, full, d3})
		out = append(out, dmScn{"core", in, 2, 2, small, d4})
	}
	// built with more or fewer links per node than the modifier uses
	for _, in := range []dmInit{
		{fcfg{balancedL, 2, 8, true, &v1, 0}, 11},
		{fcfg{balancedL, 1, 8, false, &v0, 0}, 5},
		{fcfg{trickleL, 2, 5, false, &v1, 0}, 9},
		{fcfg{trickleL, 2, 1, true, &v1, 0}, 9},
	} {
		out = append(out, dmScn{"other fan-out", in, 2, 2, small, d4})
	}
	for _, in := range []dmInit{
		{fcfg{trickleL, 2, 2, false, &v0, 0}, 5},
		{fcfg{trickleL, 2, 2, true, &v1, 0}, 5},
		{fcfg{balancedL, 2, 2, false, &v1, 0}, 9},
		{fcfg{balancedL, 4, 2, true, &v1, 0}, 3},
	} {
		out = append(out, dmScn{"options", in, 2, 2, optOps(), d4})
	}
	for _, in := range []dmInit{
		{fcfg{trickleL, 2, 2, false, &v0, 0}, 26},
		{fcfg{trickleL, 1, 2, true, &v1, 0}, 26},
		{fcfg{balancedL, 2, 2, true, &v1, 0}, 26},
		{fcfg{balancedL, 3, 3, false, &blk2, 0}, 26},
		{fcfg{balancedL, 1, 4, true, &v1, 0}, 26},
	} {
		out = append(out, dmScn{"deep", in, 3, 2, deepOps(), d4})
	}
	for _, in := range []dmInit{
		{fcfg{trickleL, 2, 3, false, &v0, 0}, 5},
		{fcfg{balancedL, 4, 3, true, &v1, 0}, 4},
	} {
		out = append(out, dmScn{"fan3-chunk3", in, 3, 3, full, d3})
	}
	return out
}

func bigStr(n int, b byte) string {
	x := make([]byte, n)
	for i := range x {
		x[i] = b + byte(i/1000%7)
	}
	return string(x)
}

// bigOps crosses the write-buffer limit (2 MiB) and the sparse block size.
func bigOps() []dmOp {
	l := func(n string, o dmOp) dmOp { o.name = n; return o }
	return []dmOp{
		l("Write(1.2M)", opWrite(bigStr(1200000, 'a'))), l("Write(900K)", opWrite(bigStr(900000, 'k'))),
		opWrite("z"), opSeek(5000, io.SeekStart), opSeek(1<<21, io.SeekStart), opTruncate(9000), opTruncate(4096),
		opWriteAt("y", 4096), l("WriteAt(1M,100)", opWriteAt(bigStr(1<<20, 'A'), 100)), opRead(5, false),
	}
}

func runDm(r *ex.Run, snaps bool) {
	scns := dmScenarios(r.Thorough())
	// one alphabet pass per process-wide fan-out
	for _, fan := range []int{2, 3} {
		h.DefaultLinksPerBlock = fan
		for _, sc := range scns {
			sc := sc
			if sc.fan != fan {
				continue
			}
			r.BFS(fmt.Sprintf("%s size=%d %v", sc.name, sc.in.size, sc.in.f), len(sc.ops), sc.depth, 0, func(c *ex.Ctl) ex.System {
				s := newDmSys(c, sc.in.f, sc.in.size, sc.split, sc.ops)
				s.snapsToo = snaps
				return s
			})
		}
	}
	h.DefaultLinksPerBlock = 4
	if !snaps {
		ops := bigOps()
		d := 3
		if r.Thorough() {
			d = 4
		}
		for _, f := range []fcfg{{trickleL, 4096, 4, true, &v1, 0}, {trickleL, 4096, 4, false, &v0, 0}} {
			f := f
			r.BFS(fmt.Sprintf("large writes and sparse growth %v", f), len(ops), d, 0, func(c *ex.Ctl) ex.System {
				return newDmSys(c, f, 3, 1<<18, ops)
			})
		}
	}
	scaleDm(r, snaps)
}

// C10: storage faults during modification.

// altOp is what a failed operation may have done to the content: nothing, or
// (when it would have grown the file with zeros first) part of that growth.
type fOp struct {
	dmOp
	try  func(s *dmSys) error
	grow func(s *dmSys) int // size the file may have grown to on failure
	to   int                // position the operation was to leave
	ok   func(s *dmSys)     // model step on success

	read bool
	// for writes that may take part of the data
	part bool
	n    int
	tryN func(s *dmSys) (int, error)
	okN  func(s *dmSys, n int)
}

func fWrite(d string) fOp {
	return fOp{dmOp: dmOp{name: fmt.Sprintf("Write(%q)", d)}, try: func(s *dmSys) error { _, err := s.dm.Write([]byte(d)); return err },
		ok: func(s *dmSys) { s.put(s.cur, []byte(d)); s.cur += len(d) }}
}
func fWriteAt(d string, off int) fOp {
	return fOp{dmOp: dmOp{name: fmt.Sprintf("WriteAt(%q,%d)", d, off)}, try: func(s *dmSys) error { _, err := s.dm.WriteAt([]byte(d), int64(off)); return err },
		grow: func(s *dmSys) int { return off },
		to:   off + len(d),
		ok:   func(s *dmSys) { s.put(off, []byte(d)); s.cur = off + len(d) }}
}
func fSeek(off int) fOp {
	return fOp{dmOp: dmOp{name: fmt.Sprintf("Seek(%d,0)", off)}, try: func(s *dmSys) error { _, err := s.dm.Seek(int64(off), io.SeekStart); return err },
		grow: func(s *dmSys) int { return off },
		to:   off,
		ok: func(s *dmSys) {
			s.cur = off
			if off > len(s.file) {
				s.setLen(off)
			}
		}}
}
func fTruncate(n int) fOp {
	return fOp{dmOp: dmOp{name: fmt.Sprintf("Truncate(%d)", n)}, try: func(s *dmSys) error { return s.dm.Truncate(int64(n)) },
		ok: func(s *dmSys) { s.setLen(n) }}
}

var fSync = fOp{dmOp: dmOp{name: "Sync"}, try: func(s *dmSys) error { return s.dm.Sync() }, ok: func(*dmSys) {}}
var fGetNode = fOp{dmOp: dmOp{name: "GetNode"}, try: func(s *dmSys) error {
	n, err := s.dm.GetNode()
	if err == nil {
		s.snaps = append(s.snaps, snap{n, n.Cid().KeyString(), append([]byte{}, s.file...)})
	}
	return err
}, ok: func(*dmSys) {}}

// fRead checks what it delivers, whether or not it fails.
func fRead(n int, full bool) fOp {
	return fOp{dmOp: dmOp{name: fmt.Sprintf("Read(%d) full=%v", n, full)}, read: true, try: func(s *dmSys) error {
		buf := make([]byte, n)
		var k int
		var err error
		if full {
			k, err = s.dm.CtxReadFull(bg, buf)
		} else {
			k, err = s.dm.Read(buf)
		}
		if k < 0 || k > n || s.cur+k > len(s.file) || !bytes.Equal(buf[:k], s.file[s.cur:s.cur+k]) {
			return fmt.Errorf("%w: %d bytes %q, %v", errWrongBytes, k, buf[:max(0, min(k, n))], err)
		}
		atEnd := s.cur+k == len(s.file) && k < n
		s.cur += k
		if atEnd && (isEOF(err) || err == io.ErrUnexpectedEOF) {
			return nil
		}
		if err != nil && isEOF(err) {
			return fmt.Errorf("%w: end of file after %d bytes", errWrongBytes, k)
		}
		return err
	}, ok: func(*dmSys) {}}
}

var errWrongBytes = errors.New("wrong bytes")

func runC10(r *ex.Run) {
	h.DefaultLinksPerBlock = 2
	ops := []fOp{fWrite("abc"), fWriteAt("de", 1), fWriteAt("fghij", 6), fWriteAt("k", 14), fSeek(0), fSeek(4), fSeek(12), fTruncate(0), fTruncate(3), fTruncate(13), fSync, fGetNode, fRead(2, false), fRead(30, true)}
	depth, dev1 := 3, 1
	if r.Thorough() {
		depth, dev1 = 4, 2
	}
	for i, in := range append(dmInits(), dmInits()[1]) {
		in, dev, depth, ops := in, 2, depth, ops
		if i == len(dmInits()) {
			dev, depth = dev1, depth+1
			ops = []fOp{ops[0], ops[2], ops[5], ops[6], ops[8], ops[9], ops[10], ops[12]}
		}
		r.Enum(fmt.Sprintf("faults size=%d %v, %d operations", in.size, in.f, depth), ex.Opt{Deviations: dev}, func(c *ex.Ctl) {
			s := newDmSys(c, in.f, in.size, 2, nil)
			injected, owed := 0, 0
			hook := func(kind string) func(cid.Cid) error {
				return func(k cid.Cid) error {
					if c.Deviate(2) == 1 {
						injected++
						c.Logf("   %s of %s fails", kind, k.String()[len(k.String())-4:])
						return env.ErrInjected
					}
					return nil
				}
			}
			arm := func() { s.st.OnAdd, s.st.OnGet = hook("Add"), hook("Get") }
			disarm := func() { s.st.OnAdd, s.st.OnGet = nil, nil }
			curOK := true
			for i := 0; i < depth; i++ {
				o := ops[c.Choose(len(ops))]
				if (!curOK || s.cur > len(s.file)) && (o.read || strings.HasPrefix(o.name, "Write(")) {
					c.Skip()
				}
				c.Logf("%s", o.name)
				arm()
				injected = 0
				err := o.try(s)
				disarm()
				ahead := o.read || strings.HasPrefix(o.name, "Seek")
				if err == nil {
					if injected > 0 && !ahead {
						c.Failf("%s: a fault, and no error", o.name)
					}
					// The reader fetches ahead of what it returns: a fault may
					// be reported by the read that needs the block.
					owed += injected
					o.ok(s)
					curOK = curOK || !strings.HasPrefix(o.name, "Truncate") && o.name != "Sync" && o.name != "GetNode"
					continue
				}
				if injected == 0 && !(owed > 0 && ahead) || errors.Is(err, errWrongBytes) {
					c.Failf("%s: unexpected error %v", o.name, err)
				}
				owed += injected - 1
				c.Logf("   -> %v", err)
				known := curOK
				curOK = curOK && o.grow == nil
				// The content is what it was, or grown by zeros on the way.
				maxLen := len(s.file)
				if o.grow != nil && o.grow(s) > maxLen {
					maxLen = o.grow(s)
				}
				sz, err := s.dm.Size()
				if err != nil || int(sz) < len(s.file) || int(sz) > maxLen {
					c.Failf("after the failed %s: Size %d (%v), want %d..%d", o.name, sz, err, len(s.file), maxLen)
				}
				s.setLen(int(sz))
				c.Outcome("failed " + o.name)
				if known && !curOK && s.cur <= len(s.file) && c.Bool() {
					// Wherever it says it is now, it goes on from there.
					p, err := s.dm.Seek(0, io.SeekCurrent)
					if err != nil || int(p) != s.cur && int(p) != o.to {
						c.Failf("after the failed %s: the position is %d (%v), it was %d", o.name, p, err, s.cur)
					}
					s.cur, curOK = int(p), true
					if s.cur > len(s.file) {
						s.setLen(s.cur)
					}
					c.Logf("   -> at %d", s.cur)
				}
			}
			s.snapsToo = true
			if !curOK {
				s.cur = len(s.file) + 1 // cursor not compared
			}
			for ; owed > 0 && s.cur < len(s.file); owed-- {
				rest := fRead(len(s.file), true)
				if err := rest.try(s); err == nil {
					break
				} else if !errors.Is(err, env.ErrInjected) || errors.Is(err, errWrongBytes) {
					c.Failf("reading on: %v", err)
				}
			}
			s.Observe(c)
			c.State(ex.DeepHash(s.file, s.cur))
		})
	}
	scaleDmFaults(r)
}

func init() {
	ex.Register(&ex.Check{ID: "C08", Level: "model_checking", Run: func(r *ex.Run) { runDm(r, false) }, Quick: 200 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C09", Level: "model_checking", Run: func(r *ex.Run) { runDm(r, true) }, Quick: 200 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C10", Level: "fault_enumeration", Run: runC10, Quick: 500 * time.Second, Thorough: 50 * time.Minute})
}

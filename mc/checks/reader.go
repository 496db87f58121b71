package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
	"github.com/ipfs/go-unixfs/zzverif/sched"
)

// rdShape is a file DAG to read, built by the reference builder.
type rdShape struct {
	name  string
	build func() (*refm.B, refm.Built, []byte)
}

func rdImported(f fcfg, data []byte) rdShape {
	return rdShape{fmt.Sprintf("%d bytes %v", len(data), f), func() (*refm.B, refm.Built, []byte) {
		b, r := refImport(f, data)
		return b, r, data
	}}
}

// rdIrregular are legal DAGs no importer here builds.
func rdIrregular() []rdShape {
	mk := func(name string, f func(b *refm.B) (refm.Built, string)) rdShape {
		return rdShape{name, func() (*refm.B, refm.Built, []byte) {
			b := refm.NewB(&v1)
			r, s := f(b)
			return b, r, []byte(s)
		}}
	}
	l := func(b *refm.B, s string, raw bool) refm.Built { return b.Leaf([]byte(s), refm.File, raw) }
	return []rdShape{
		mk("empty leaves between", func(b *refm.B) (refm.Built, string) {
			e := b.Leaf(nil, refm.File, false)
			er := b.Leaf([]byte{}, refm.Raw, true)
			return b.Inner([]refm.Built{e, l(b, "ab", true), er, e, l(b, "cde", false), er}), "abcde"
		}),
		mk("the same leaf linked again and again", func(b *refm.B) (refm.Built, string) {
			x := l(b, "xy", true)
			in := b.Inner([]refm.Built{x, x})
			return b.Inner([]refm.Built{x, in, x, in, in}), "xyxyxyxyxyxyxyxy"
		}),
		mk("uneven depths", func(b *refm.B) (refm.Built, string) {
			d := b.Inner([]refm.Built{b.Inner([]refm.Built{l(b, "d", false)}), l(b, "ef", true)})
			return b.Inner([]refm.Built{l(b, "abc", false), d, l(b, "g", true), b.Inner([]refm.Built{l(b, "hijk", false)})}), "abcdefghijk"
		}),
		mk("one child chain", func(b *refm.B) (refm.Built, string) {
			return b.Inner([]refm.Built{b.Inner([]refm.Built{b.Inner([]refm.Built{l(b, "abcd", false)})})}), "abcd"
		}),
		mk("empty inner child", func(b *refm.B) (refm.Built, string) {
			e := b.Inner([]refm.Built{b.Leaf(nil, refm.File, false)})
			return b.Inner([]refm.Built{e, l(b, "abc", true), e, l(b, "de", true), e}), "abcde"
		}),
		mk("raw type leaf as root", func(b *refm.B) (refm.Built, string) { return b.Leaf([]byte("abcde"), refm.Raw, false), "abcde" }),
		mk("metadata around a file", func(b *refm.B) (refm.Built, string) {
			f := b.Inner([]refm.Built{l(b, "abc", true), l(b, "def", false)})
			m := &refm.Node{Type: refm.Metadata, HasData: true, Data: []byte("\x0a\x01x"), HasSize: true, FileSize: f.Size}
			m.Links = []refm.Link{{Cid: f.Cid, Tsize: f.Tsize}}
			return b.Put(m), "abcdef"
		}),
	}
}

func rdShapes(thorough bool) []rdShape {
	var out []rdShape
	add := func(n int, f fcfg) { out = append(out, rdImported(f, pat(n))) }
	sizes := []int{0, 1, 3, 4, 7, 11, 18}
	if thorough {
		sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 18, 25, 33}
	}
	for _, n := range sizes {
		add(n, fcfg{balancedL, 2, 2, true, &v1, 0})
		add(n, fcfg{trickleL, 2, 2, false, &v0, 0})
	}
	add(13, fcfg{balancedL, 3, 3, false, &v0, 0})
	add(14, fcfg{trickleL, 3, 1, true, &v1, 0})
	add(23, fcfg{balancedL, 1, 23, true, &v1, 0})   // beyond the prefetch window
	add(25, fcfg{balancedL, 1, 12, false, &v0, 0})  // two windows
	add(24, fcfg{trickleL, 1, 11, true, &v1, 0})    //
	add(9, fcfg{balancedL, 20, 174, true, &v1, 0})  // one raw block
	add(9, fcfg{balancedL, 20, 174, false, &v0, 0}) // one protobuf leaf
	out = append(out, rdImported(fcfg{balancedL, 2, 3, true, &v1, 0}, []byte("ababababababababab")))
	out = append(out, rdImported(fcfg{trickleL, 2, 2, true, &v1, 0}, bytes.Repeat([]byte("ab"), 13)))
	return append(out, rdIrregular()...)
}

// rdSys is a reader with its model.
type rdSys struct {
	st   *env.Store
	dr   uio.DagReader
	data []byte
	pos  int64
	ops  []rdOp
}

type rdOp struct {
	name string
	do   func(c *ex.Ctl, s *rdSys)
}

func newRdSys(c *ex.Ctl, sh rdShape, ops []rdOp, ctx context.Context) *rdSys {
	b, root, data := sh.build()
	s := &rdSys{st: storeOf(b), data: data, ops: ops}
	n := getNode(c, s.st, root.Cid)
	dr, err := uio.NewDagReader(ctx, n, s.st)
	if err != nil {
		c.Failf("NewDagReader: %v", err)
	}
	s.dr = dr
	return s
}

func (s *rdSys) left() []byte {
	if s.pos >= int64(len(s.data)) {
		return nil
	}
	return s.data[s.pos:]
}

func (s *rdSys) Apply(c *ex.Ctl, op int) {
	o := s.ops[op]
	c.Logf("%s", o.name)
	o.do(c, s)
	if sz := s.dr.Size(); sz != uint64(len(s.data)) {
		c.Failf("after %s: Size %d, content has %d bytes", o.name, sz, len(s.data))
	}
}

func (s *rdSys) Fingerprint() ex.Fp { return ex.DeepHash(s.dr, s.pos) }

func (s *rdSys) checkRead(c *ex.Ctl, what string, k, n int, err error, buf []byte) {
	l := s.left()
	want := k
	if want > len(l) {
		want = len(l)
	}
	if n < 0 || n > k {
		c.Failf("%s at %d returned count %d for a buffer of %d", what, s.pos, n, k)
	}
	if n != want || !bytes.Equal(buf[:n], l[:want]) {
		c.Failf("%s at %d returned %q (%v), want %q", what, s.pos, buf[:n], err, l[:want])
	}
	for _, b := range buf[n:k] {
		if b != 0xEE {
			c.Failf("%s at %d wrote beyond the %d bytes it reports", what, s.pos, n)
		}
	}
	s.pos += int64(n)
	switch {
	case err == nil:
		if n == 0 && k > 0 {
			c.Failf("%s at end %d returned 0 bytes and no error", what, s.pos)
		}
	case isEOF(err):
		if s.pos < int64(len(s.data)) {
			c.Failf("%s reports end of file at %d of %d", what, s.pos, len(s.data))
		}
	default:
		c.Failf("%s at %d failed: %v", what, s.pos, err)
	}
}

func filler(k int) []byte { return bytes.Repeat([]byte{0xEE}, k) }

func rdRead(k int, full bool) rdOp {
	nm := "Read"
	if full {
		nm = "CtxReadFull"
	}
	return rdOp{fmt.Sprintf("%s(%d)", nm, k), func(c *ex.Ctl, s *rdSys) {
		buf := filler(k)
		var n int
		var err error
		if full {
			ctx, cancel := context.WithCancel(bg)
			n, err = s.dr.CtxReadFull(ctx, buf)
			cancel()
		} else {
			n, err = s.dr.Read(buf)
		}
		s.checkRead(c, fmt.Sprintf("%s(%d)", nm, k), k, n, err, buf)
	}}
}

var whenceName = map[int]string{0: "start", 1: "current", 2: "end"}

func rdSeek(off int64, whence int) rdOp {
	nm := fmt.Sprintf("Seek(%d,%s)", off, whenceName[whence])
	return rdOp{nm, func(c *ex.Ctl, s *rdSys) {
		base := int64(0)
		switch whence {
		case io.SeekCurrent:
			base = s.pos
		case io.SeekEnd:
			base = int64(len(s.data))
		}
		t := base + off
		valid := t >= 0 && whence >= 0 && whence <= 2
		got, err := s.dr.Seek(off, whence)
		if !valid {
			if err == nil {
				c.Failf("%s at %d of %d accepted an invalid position (%d)", nm, s.pos, len(s.data), got)
			}
			return
		}
		if err != nil {
			c.Failf("%s at %d of %d failed: %v", nm, s.pos, len(s.data), err)
		}
		if got != t {
			c.Failf("%s at %d of %d returned %d, want %d", nm, s.pos, len(s.data), got, t)
		}
		s.pos = t
	}}
}

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

func rdCopy() rdOp {
	return rdOp{"WriteTo", func(c *ex.Ctl, s *rdSys) {
		var b bytes.Buffer
		n, err := s.dr.WriteTo(onlyWriter{&b})
		l := s.left()
		if err != nil {
			c.Failf("WriteTo at %d failed: %v", s.pos, err)
		}
		if n != int64(b.Len()) || !bytes.Equal(b.Bytes(), l) {
			c.Failf("WriteTo at %d wrote %q and reports %d, want %q", s.pos, b.Bytes(), n, l)
		}
		s.pos += n
	}}
}

// Observe: position and rest.
func (s *rdSys) Observe(c *ex.Ctl) {
	p, err := s.dr.Seek(0, io.SeekCurrent)
	if err != nil || p != s.pos {
		c.Failf("position is %d (%v), model %d", p, err, s.pos)
	}
	buf := filler(len(s.data) + 3)
	n, err := s.dr.CtxReadFull(bg, buf)
	s.checkRead(c, "final read", len(buf), n, err, buf)
	// and end of file stays
	n, err = s.dr.Read(buf[:2])
	if n != 0 || !isEOF(err) {
		c.Failf("read at the end gives %d bytes, %v", n, err)
	}
}

func rdOps(size int, thorough bool) []rdOp {
	n := int64(size)
	ops := []rdOp{
		rdRead(1, false), rdRead(2, false), rdRead(3, true), rdRead(5, false), rdRead(0, false), rdRead(size+2, true), rdCopy(),
		rdSeek(0, 0), rdSeek(1, 0), rdSeek(-1, 1), rdSeek(2, 1), rdSeek(-3, 2), rdSeek(0, 2), rdSeek(2, 2), rdSeek(-1, 0),
		rdSeek(0, 1), rdSeek(-1000, 1), rdSeek(-n, 2), rdSeek(-n-1, 2), rdSeek(1, 3), rdSeek(0, -1), rdSeek(math.MinInt64, 0),
	}
	for o := int64(2); o <= n+1; o++ {
		if thorough || n <= 11 || o%3 == 2 || o >= n-1 {
			ops = append(ops, rdSeek(o, 0))
		}
	}
	if n >= 3 {
		ops = append(ops, rdRead(size, false), rdRead(size-1, false))
	}
	if thorough {
		ops = append(ops, rdRead(0, true), rdRead(4, true), rdRead(7, false), rdSeek(1, 1), rdSeek(-2, 1), rdSeek(5, 1), rdSeek(-5, 1))
	}
	return ops
}

func runC06(r *ex.Run) {
	for _, sh := range rdShapes(r.Thorough()) {
		sh := sh
		_, _, data := sh.build()
		ops := rdOps(len(data), r.Thorough())
		r.BFS(sh.name, len(ops), 64, 0, func(c *ex.Ctl) ex.System { return newRdSys(c, sh, ops, bg) })
	}
	scaleReads(r)
	// not files
	r.Enum("non-files are refused", ex.Opt{}, func(c *ex.Ctl) {
		b := refm.NewB(&v1)
		var root refm.Built
		switch c.Choose(3) {
		case 0:
			root = b.BasicDir(nil)
		case 1:
			root, _ = b.HAMTDir(map[string]refm.Entry{}, 8, nil)
		case 2:
			root = b.Put(&refm.Node{Type: refm.Symlink, HasData: true, Data: []byte("x")})
		}
		s := storeOf(b)
		dr, err := uio.NewDagReader(bg, getNode(c, s, root.Cid), s)
		if err == nil {
			c.Failf("NewDagReader accepted a node that is not a file (size %d)", dr.Size())
		}
	})
}

// ---- C07 ----

type failWriter struct {
	b     bytes.Buffer
	limit int
	short bool
}

var errWriter = errors.New("destination writer failed")

func (w *failWriter) Write(p []byte) (int, error) {
	room := w.limit - w.b.Len()
	if len(p) <= room {
		return w.b.Write(p)
	}
	if room < 0 {
		room = 0
	}
	w.b.Write(p[:room])
	if w.short {
		return room, io.ErrShortWrite
	}
	return room, errWriter
}

func c07Shapes(thorough bool) []rdShape {
	var out []rdShape
	add := func(n int, f fcfg) { out = append(out, rdImported(f, pat(n))) }
	add(3, fcfg{balancedL, 20, 174, true, &v1, 0})
	add(7, fcfg{balancedL, 2, 2, true, &v1, 0})
	add(11, fcfg{balancedL, 2, 3, false, &v0, 0})
	add(11, fcfg{trickleL, 2, 2, false, &v0, 0})
	add(13, fcfg{balancedL, 1, 13, true, &v1, 0})
	out = append(out, rdIrregular()[1], rdIrregular()[2], rdIrregular()[4])
	if thorough {
		add(18, fcfg{balancedL, 2, 2, true, &v1, 0})
		add(18, fcfg{trickleL, 2, 2, true, &v1, 0})
		add(23, fcfg{balancedL, 1, 23, false, &v0, 0})
		out = append(out, rdIrregular()[0], rdIrregular()[3])
	}
	return out
}

// c07Sys is a reader whose storage may fail; the model is the byte string and
// the position the delivered bytes imply.
type c07Sys struct {
	*rdSys
	bad    map[string]bool // blocks that fail now
	cancel func()          // called when a block in trip is asked for
	trip   map[string]bool
	dead   bool // the reader's own context was cancelled
}

func (s *c07Sys) hook(k cid.Cid) error {
	if s.trip[k.KeyString()] {
		s.cancel()
		return context.Canceled
	}
	if s.bad[k.KeyString()] {
		return env.ErrInjected
	}
	return nil
}

// delivered checks n bytes given out at the current position.
func (s *c07Sys) delivered(c *ex.Ctl, what string, got []byte, asked int, err error, faulty bool) {
	l := s.left()
	if len(got) > len(l) || !bytes.Equal(got, l[:len(got)]) {
		c.Failf("%s at %d delivered %q, the content there is %q (%v)", what, s.pos, got, l, err)
	}
	want := asked
	if want > len(l) || want < 0 {
		want = len(l)
	}
	s.pos += int64(len(got))
	if len(got) < want && (err == nil || isEOF(err)) {
		c.Failf("%s delivered only %d of %d bytes with result %v", what, len(got), want, err)
	}
	if err != nil && !isEOF(err) && !faulty && !s.dead {
		c.Failf("%s failed without a cause: %v", what, err)
	}
}

type c07Op struct {
	name string
	// do runs the operation; faulty tells whether a fault was armed. It reports
	// whether an error came back.
	do func(c *ex.Ctl, s *c07Sys, faulty bool) bool
}

func c07Read(k int) c07Op {
	nm := fmt.Sprintf("Read(%d)", k)
	return c07Op{nm, func(c *ex.Ctl, s *c07Sys, faulty bool) bool {
		buf := make([]byte, k)
		n, err := s.dr.Read(buf)
		s.delivered(c, nm, buf[:n], k, err, faulty)
		return err != nil && !isEOF(err)
	}}
}

// c07ReadCtx reads with its own context, cancelled while a block is fetched.
func c07ReadCtx(k int) c07Op {
	nm := fmt.Sprintf("CtxReadFull(%d)", k)
	return c07Op{nm, func(c *ex.Ctl, s *c07Sys, faulty bool) bool {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		s.cancel = cancel
		buf := make([]byte, k)
		n, err := s.dr.CtxReadFull(ctx, buf)
		s.delivered(c, nm, buf[:n], k, err, faulty)
		return err != nil && !isEOF(err)
	}}
}

func c07Seek(off int64, whence int) c07Op {
	nm := fmt.Sprintf("Seek(%d,%s)", off, whenceName[whence])
	return c07Op{nm, func(c *ex.Ctl, s *c07Sys, faulty bool) bool {
		base := int64(0)
		switch whence {
		case io.SeekCurrent:
			base = s.pos
		case io.SeekEnd:
			base = int64(len(s.data))
		}
		t := base + off
		if t < 0 {
			return false
		}
		got, err := s.dr.Seek(off, whence)
		if err == nil {
			if got != t {
				c.Failf("%s returned %d, want %d", nm, got, t)
			}
			s.pos = t
			return false
		}
		if !faulty && !s.dead {
			c.Failf("%s failed without a cause: %v", nm, err)
		}
		// A failed seek leaves the reader at a position it can name.
		p, err2 := s.dr.Seek(0, io.SeekCurrent)
		if err2 != nil || p < 0 {
			c.Failf("after a failed %s the position is unknown (%d, %v)", nm, p, err2)
		}
		s.pos = p
		return true
	}}
}

func c07Copy(limit int, short bool) c07Op {
	nm := "WriteTo"
	if limit >= 0 {
		nm = fmt.Sprintf("WriteTo(writer failing after %d, short=%v)", limit, short)
	}
	return c07Op{nm, func(c *ex.Ctl, s *c07Sys, faulty bool) bool {
		lim := limit
		if lim < 0 {
			lim = 1 << 30
		}
		w := &failWriter{limit: lim, short: short}
		n, err := s.dr.WriteTo(w)
		if n != int64(w.b.Len()) {
			c.Failf("%s: reported %d bytes, the writer took %d (%v)", nm, n, w.b.Len(), err)
		}
		if isEOF(err) {
			c.Failf("%s returned end of file", nm)
		}
		s.delivered(c, nm, w.b.Bytes(), -1, err, faulty || limit >= 0)
		return err != nil
	}}
}

func c07Ops(size int) []c07Op {
	n := int64(size)
	ops := []c07Op{
		c07Read(1), c07Read(3), c07ReadCtx(5), c07Read(size + 1), c07Copy(-1, false),
		c07Seek(0, 0), c07Seek(n/2, 0), c07Seek(-1, 1), c07Seek(2, 1), c07Seek(-2, 2), c07Seek(n-1, 0), c07Seek(0, 2),
		c07Copy(0, false), c07Copy(1, false), c07Copy(2, true), c07Copy(3, false), c07Copy(size-1, false),
	}
	return ops
}

// blocksUnder lists every block of the DAG but the root, in a fixed order.
func blocksUnder(s *env.Store, root cid.Cid) []string {
	var out []string
	seen := map[string]bool{root.KeyString(): true}
	var rec func(k cid.Cid)
	rec = func(k cid.Cid) {
		n, err := s.Get(bg, k)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		for _, l := range n.Links() {
			if !seen[l.Cid.KeyString()] {
				seen[l.Cid.KeyString()] = true
				out = append(out, l.Cid.KeyString())
				rec(l.Cid)
			}
		}
	}
	rec(root)
	return out
}

// recover: the storage works again; reading on gives exactly the rest.
func (s *c07Sys) recovered(c *ex.Ctl, op string) {
	s.bad, s.trip = nil, nil
	want := append([]byte{}, s.left()...)
	var got []byte
	buf := make([]byte, 4)
	// Prefetches that failed earlier may each be reported once more.
	errsLeft := 3*s.st.Len() + 6
	for {
		n, err := s.dr.CtxReadFull(bg, buf)
		got = append(got, buf[:n]...)
		if !bytes.HasPrefix(want, got) {
			c.Failf("after a failed %s and with storage working again, reading on from %d gives %q, the content there is %q", op, s.pos, got, want)
		}
		if isEOF(err) {
			break
		}
		if err != nil {
			errsLeft--
			if errsLeft < 0 {
				c.Failf("after a failed %s and with storage working again, reading keeps failing: %v", op, err)
			}
		}
	}
	if !bytes.Equal(got, want) {
		c.Failf("after a failed %s and with storage working again, reading on from %d ends after %q, the content there is %q", op, s.pos, got, want)
	}
	s.pos = int64(len(s.data))
}

func runC07(r *ex.Run) {
	for _, sh := range c07Shapes(r.Thorough()) {
		sh := sh
		_, _, data := sh.build()
		ops := c07Ops(len(data))
		few := ops
		if !r.Thorough() {
			few = []c07Op{ops[0], ops[1], ops[5], ops[6], ops[13]}
		}
		mkSys := func(c *ex.Ctl, ctx context.Context) (*c07Sys, []string) {
			b, root, data := sh.build()
			s := &c07Sys{rdSys: &rdSys{st: storeOf(b), data: data}}
			n := getNode(c, s.st, root.Cid)
			blks := blocksUnder(s.st, root.Cid)
			dr, err := uio.NewDagReader(ctx, n, s.st)
			if err != nil {
				c.Failf("NewDagReader: %v", err)
			}
			s.dr = dr
			s.st.OnGet = s.hook
			return s, blks
		}
		// choose faults for one operation: none, one block or a pair
		pick := func(c *ex.Ctl, blks []string) map[string]bool {
			m := map[string]bool{}
			if len(blks) == 0 {
				return m
			}
			i := c.Choose(len(blks))
			m[blks[i]] = true
			if r.Thorough() {
				j := c.Choose(len(blks))
				if j > i {
					m[blks[j]] = true
				}
			}
			return m
		}
		setup := 1
		if r.Thorough() {
			setup = 2
		}
		body := func(mode int) ex.Body {
			return func(c *ex.Ctl) {
				s, blks := mkSys(c, bg)
				for i := 0; i < setup; i++ {
					if k := c.Choose(len(few) + 1); k > 0 {
						c.Logf("%s", few[k-1].name)
						few[k-1].do(c, s, false)
					}
				}
				o := ops[c.Choose(len(ops))]
				switch mode {
				case 0:
					s.bad = pick(c, blks)
					c.Logf("%s with %d unavailable block(s)", o.name, len(s.bad))
				case 1:
					s.trip = pick(c, blks)
					c.Logf("%s cancelled while fetching", o.name)
					s.cancel = func() {}
				}
				failed := o.do(c, s, true)
				c.Outcome(fmt.Sprintf("failed=%v", failed))
				// one more operation while it is still broken
				if k := c.Choose(len(few) + 1); k > 0 {
					c.Logf("then %s", few[k-1].name)
					few[k-1].do(c, s, true)
				}
				if k := c.Choose(4); k > 0 {
					s.bad, s.trip = nil, nil
					// any seek must give a right position again
					t := []int64{0, 0, int64(len(s.data)) / 2, int64(len(s.data)) - 1}[k]
					c.Logf("healed, Seek(%d)", t)
					var p int64
					var err error
					for i := 0; i < 3*s.st.Len()+6; i++ {
						if p, err = s.dr.Seek(t, io.SeekStart); err == nil {
							break
						}
					}
					if err != nil || p != t {
						c.Failf("with storage working again, Seek(%d) gives %d, %v", t, p, err)
					}
					s.pos = t
				}
				s.recovered(c, o.name)
				c.State(ex.FpBytes([]byte(fmt.Sprint(o.name, failed, s.pos, sh.name, len(s.bad)))))
			}
		}
		opt := ex.Opt{}
		if r.Thorough() || len(data) == 7 {
			opt.Deviations = 1 // blocks arrive in another order, or while the reader is elsewhere
		}
		r.Enum("failing fetches: "+sh.name, opt, c07Scheduled(body(0)))
		if len(data) > 3 {
			r.Enum("cancelled fetches: "+sh.name, opt, c07Scheduled(body(1)))
		}
		// the reader's own context is cancelled: everything after is an error or right data, never end of file
		r.Enum("reader context cancelled: "+sh.name, ex.Opt{}, c07Scheduled(func(c *ex.Ctl) {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			s, blks := mkSys(c, ctx)
			if k := c.Choose(len(ops) + 1); k > 0 {
				c.Logf("%s", ops[k-1].name)
				ops[k-1].do(c, s, false)
			}
			switch c.Choose(3) {
			case 0:
				cancel()
				s.dead = true
				c.Logf("context cancelled")
			case 1:
				s.dr.Close()
				s.dead = true
				c.Logf("Close")
			case 2:
				if len(blks) == 0 {
					c.Skip()
				}
				s.trip = map[string]bool{blks[c.Choose(len(blks))]: true}
				c.Logf("context will be cancelled while fetching")
			}
			for i := 0; i < 2; i++ {
				o := ops[c.Choose(len(ops))]
				s.cancel = cancel
				c.Logf("%s", o.name)
				o.do(c, s, true)
			}
		}))
	}
}

// c07Scheduled runs body with the arrival order of prefetched blocks under the
// explorer's control.
func c07Scheduled(body ex.Body) ex.Body {
	return func(c *ex.Ctl) {
		res := sched.Run(c, sched.Opt{}, func() { body(c) })
		if res.Deadlock {
			c.Failf("the reader waits for ever")
		}
		if res.Livelock {
			c.Failf("the reader never finishes")
		}
	}
}

var _ ipld.Node

func init() {
	ex.Register(&ex.Check{ID: "C06", Level: "model_checking", Run: runC06, Quick: 200 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C07", Level: "fault_enumeration", Run: runC07, Quick: 200 * time.Second, Thorough: 50 * time.Minute})
}

package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"

	h "github.com/ipfs/go-unixfs/importer/helpers"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// Scenarios of realistic size: the small ones cover every combination, these
// every member of families of large histories.

// scaleFiles are imports with many chunks, the default fan-out and chunks up
// to the block size limit.
func scaleFiles(r *ex.Run, layouts []int, pre []*cid.Prefix, check func(c *ex.Ctl, st *env.Store, root ipld.Node, f fcfg, data []byte)) {
	type sz struct{ n, chunk int }
	var many []sz
	ns := []int{99, 100, 101, 172, 173, 174, 175, 176, 343, 348, 522, 523, 1000, 1023, 1024, 1025, 1331, 2187, 2188}
	if r.Thorough() {
		ns = append(ns, upTo(400)[71:]...)
		ns = append(ns, 4095, 4096, 4097, 6561, 6562, 30275, 30276, 30277, 40000)
	}
	for _, n := range ns {
		many = append(many, sz{n, 1}, sz{2*n - 1, 2})
	}
	large := []sz{{3000, 1024}, {262144, 262144}, {262145, 262144}, {1 << 20, 1 << 20}, {1<<20 + 1, 1 << 20}, {3 << 20, 1 << 20}, {3<<20 - 1, 1 << 20}, {1 << 20, 65536}, {70000, 128}, {40000, 127}, {40000, 16384}, {40000, 16383}}
	body := func(szs []sz, fans []int) func(c *ex.Ctl) {
		return func(c *ex.Ctl) {
			s := szs[c.Choose(len(szs))]
			f := fcfg{layout: layouts[c.Choose(len(layouts))], chunk: s.chunk, maxlinks: fans[c.Choose(len(fans))], raw: c.Bool(), prefix: pre[c.Choose(len(pre))]}
			k := c.Choose(3)
			c.Logf("%v size=%d content=%d", f, s.n, k)
			data := content(k, s.n)
			st := env.NewStore()
			root := mustImport(c, st, f, data)
			c.Step()
			check(c, st, root, f, data)
		}
	}
	fans := []int{2, 3, 10, 11, 30, 174}
	r.Enum("many chunks", ex.Opt{}, body(many, fans))
	r.Enum("large chunks", ex.Opt{}, body(large, []int{2, 3, 174}))
}

// scaleAppends are appends to and with many chunks.
func scaleAppends(r *ex.Run) {
	ns := []int{0, 1, 173, 174, 175, 300, 871, 1000}
	if r.Thorough() {
		ns = append(ns, 348, 522, 870, 30000, 30450, 30451)
	}
	fans := []int{5, 30, 174}
	r.Enum("many chunks", ex.Opt{}, func(c *ex.Ctl) {
		f := fcfg{layout: trickleL, chunk: 1, maxlinks: fans[c.Choose(3)], prefix: &v0}
		if c.Bool() {
			f.raw, f.prefix = true, &v1
		}
		data := content(c.Choose(2), ns[c.Choose(len(ns))])
		st := env.NewStore()
		root := mustImport(c, st, f, data)
		for i := 0; i < 2; i++ {
			more := pat(ns[c.Choose(len(ns))])
			c.Logf("append %d to %d %v", len(more), len(data), f)
			p := h.DagBuilderParams{Dagserv: st, Maxlinks: f.maxlinks, RawLeaves: f.raw, CidBuilder: *f.prefix}
			db, _ := p.New(splitList(chunksOf(more, 1)))
			was := st.Clone()
			out, err := trickle.Append(bg, getNode(c, st, root.Cid()), db)
			if err != nil {
				c.Failf("append: %v", err)
			}
			_ = st.Add(bg, out)
			c.Step()
			if fi, err := refm.CheckFile(was, root.Cid(), refm.FileOpt{}); err != nil || !bytes.Equal(fi.Content, data) {
				c.Failf("the original no longer reads as before: %v", err)
			}
			root, data = out, append(append([]byte{}, data...), more...)
			b, want := refImport(f, data)
			canonical(c, st, root, b, want)
			checkVerifies(c, st, root, f)
		}
	})
}

// scaleNames are n names with hashes of their own and some that collide.
func scaleNames(n, width int) []string {
	var out []string
	for i := 0; i < n; i++ {
		switch i % 8 {
		case 3:
			out = append(out, slotName(width, fmt.Sprint(i), width-1, i%3, i%width, i/width%width, i/width/width%width, i/width/width/width%width))
		case 5:
			out = append(out, fmt.Sprintf("%s-%d", strings.Repeat("long name ", 12), i))
		case 6:
			out = append(out, fmt.Sprintf("%d été 日本.txt", i))
		case 7:
			out = append(out, fmt.Sprintf("%X", i))
		default:
			out = append(out, fmt.Sprintf("file-%d", i))
		}
	}
	return out
}

// order k of n things.
func scaleOrder(k, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			out = append(out, i)
		case 1:
			out = append(out, n-1-i)
		default:
			out = append(out, (i*(n/2|1)+k)%n)
		}
	}
	if k >= 2 { // strides that are no permutation
		seen := map[int]bool{}
		var o []int
		for _, x := range append(out, upTo(n-1)...) {
			if !seen[x] {
				seen[x] = true
				o = append(o, x)
			}
		}
		return o
	}
	return out
}

// scaleHamt fills and empties a sharded directory.
func scaleHamt(r *ex.Run, canon bool) {
	widths := []int{8, 16, 256, 1024}
	counts := []int{40, 350}
	if r.Thorough() {
		widths = []int{8, 16, 32, 64, 128, 256, 512, 1024}
		counts = []int{40, 350, 1500}
	}
	r.Enum("filled and emptied again", ex.Opt{}, func(c *ex.Ctl) {
		width := widths[c.Choose(len(widths))]
		n := counts[c.Choose(len(counts))]
		in, out := c.Choose(3), c.Choose(3)
		every := []int{0, 1, 13}[c.Choose(3)] // reload after so many calls
		p := []*cid.Prefix{&v0, &blk2}[c.Choose(2)]
		c.Logf("%d entries, fan-out %d, orders %d and %d, reloaded every %d calls", n, width, in, out, every)
		names := scaleNames(n, width)
		s := &hsSys{cfg: &hsCfg{width: width, prefix: p, names: names}, st: env.NewStore(), m: map[string]refm.Entry{}, canon: canon}
		var err error
		if s.sh, err = hamt.NewShard(s.st, width); err != nil {
			c.Failf("NewShard: %v", err)
		}
		s.sh.SetCidBuilder(*p)
		vals := []value{mkValue(p, "one"), mkRawValue("two"), mkRawValue("three")}
		k := 0
		did := func() {
			k++
			c.Step()
			if every > 0 && k%every == 0 {
				s.reload(c)
			}
			if n <= 40 || k%61 == 0 || k == n || len(s.m) < 3 {
				if canon {
					s.sameNode(c)
				} else {
					s.list(c)
				}
			}
		}
		for i, x := range scaleOrder(in, n) {
			nm := names[x]
			if !canon {
				s.find(c, nm)
			}
			v := vals[i%3]
			s.setResult(c, "Set", nm, v, false, s.sh.Set(bg, nm, v.node))
			if !canon {
				s.find(c, nm)
				s.find(c, names[i/2])
			}
			if i%5 == 2 { // replace an earlier one
				nm, v = names[scaleOrder(in, n)[i/2]], vals[(i+1)%3]
				old, err := s.sh.Swap(bg, nm, v.node)
				if err == nil {
					s.oldMatches(c, "Swap", nm, old)
				}
				s.setResult(c, "Swap", nm, v, false, err)
			}
			did()
		}
		if !canon {
			s.forEach(c)
			s.list(c)
		}
		for i, x := range scaleOrder(out, n) {
			nm := names[x]
			if i%2 == 0 {
				s.removed(c, "Remove", nm, s.sh.Remove(bg, nm))
			} else {
				old, err := s.sh.Take(bg, nm)
				if err == nil {
					s.oldMatches(c, "Take", nm, old)
				}
				s.removed(c, "Take", nm, err)
			}
			if !canon {
				s.find(c, nm)
				s.removed(c, "Remove again", nm, s.sh.Remove(bg, nm))
				s.find(c, names[(i*7)%n])
			}
			did()
		}
		c.State(ex.FpBytes([]byte(fmt.Sprint(width, n, in, out, every, p.Version))))
	})
}

// sameNode: the shard written out is the canonical DAG.
func (s *hsSys) sameNode(c *ex.Ctl) {
	b := refm.NewB(s.cfg.prefix)
	want, err := b.HAMTDir(s.m, s.cfg.width, refHash)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	n := s.node(c)
	if !n.Cid().Equals(want.Cid) {
		c.Failf("the DAG of %d entries is %s, the canonical one is %s", len(s.m), n.Cid(), want.Cid)
	}
	for k := range b.Blocks {
		if k == want.Cid.KeyString() && len(s.m) == 0 {
			continue
		}
		kc, _ := cid.Cast([]byte(k))
		if _, ok := s.st.Raw(kc); !ok {
			c.Failf("block %s of the canonical DAG of %d entries is not stored", kc, len(s.m))
		}
	}
}

// scaleDirs fills and empties a directory across the switch.
func scaleDirs(r *ex.Run, canon bool) {
	n := 90
	if r.Thorough() {
		n = 300
	}
	names := scaleNames(n, 256)
	for _, th := range []int{0, 1, 300, 2500, 1 << 20} {
		for _, width := range []int{8, 256} {
			cfg := &dirCfg{threshold: th, width: width, prefix: &v1, names: names}
			cfg.apply()
			r.Enum(fmt.Sprintf("filled and emptied again, threshold %d, fan-out %d", th, width), ex.Opt{}, func(c *ex.Ctl) {
				in, out := c.Choose(3), c.Choose(3)
				every := []int{0, 1, 13}[c.Choose(3)]
				c.Logf("%d entries, orders %d and %d, reloaded every %d calls", n, in, out, every)
				vals := []value{mkValue(&v1, "one"), mkRawValue("two"), idValue("x")}
				cf := *cfg
				cf.values = vals
				s := newDirSys(c, &cf, nil, canon)
				k := 0
				did := func() {
					k++
					c.Step()
					if every > 0 && k%every == 0 {
						s.reload(c)
					}
					switch {
					case canon:
						if k%3 == 0 || len(s.m) < 12 {
							s.checkForm(c, "now")
						}
					case k%11 == 0 || len(s.m) < 4:
						s.links(c)
						s.stream(c)
						s.forEach(c)
					}
				}
				add := func(nm string, v value) {
					if err := s.d.AddChild(bg, nm, v.node); err != nil {
						c.Failf("AddChild(%q): %v", nm, err)
					}
					s.m[nm] = v.e
					s.updated(true)
				}
				for i, x := range scaleOrder(in, n) {
					if !canon {
						s.find(c, names[x])
					}
					add(names[x], vals[i%3])
					if i%5 == 2 {
						add(names[scaleOrder(in, n)[i/2]], vals[(i+1)%3])
					}
					if !canon {
						s.find(c, names[x])
						s.find(c, names[i/2])
					}
					did()
				}
				for i, x := range scaleOrder(out, n) {
					nm := names[x]
					if err := s.d.RemoveChild(bg, nm); err != nil {
						c.Failf("RemoveChild(%q): %v", nm, err)
					}
					delete(s.m, nm)
					s.updated(true)
					if !canon {
						s.find(c, nm)
						if err := s.d.RemoveChild(bg, nm); err != os.ErrNotExist {
							c.Failf("RemoveChild(%q) again: %v", nm, err)
						}
						s.find(c, names[i*7%n])
					}
					did()
				}
				c.State(ex.FpBytes([]byte(fmt.Sprint(th, width, in, out, every))))
			})
		}
	}
}

// wWide is a directory of more child shards than the walk has workers.
func wWide() *wShape {
	w := &wShape{name: "forty child shards, some nested", width: 64, big: true}
	for i := 0; i < 40; i++ {
		for j := 0; j < 2; j++ {
			s := []int{i, 7 + j*30}
			if i%9 == 0 {
				s = []int{i, 7, j + 3}
			}
			w.stored = append(w.stored, slotName(64, fmt.Sprint(i, "-", j), s...))
		}
	}
	w.stored = append(w.stored, slotName(64, "alone", 63))
	w.prep = func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry) {
		wFind(c, sh, w.stored[0])
		wFind(c, sh, w.stored[30])
		wSet(c, sh, m, slotName(64, "new", 2, 20), wVals()[1])
	}
	return w
}

// scaleReads seeks and reads in large files.
func scaleReads(r *ex.Run) {
	shapes := []rdShape{
		rdImported(fcfg{balancedL, 1, 3, true, &v1, 0}, pat(300)),
		rdImported(fcfg{balancedL, 3, 174, false, &v0, 0}, pat(700)),
		rdImported(fcfg{trickleL, 1, 2, false, &v0, 0}, pat(290)),
		rdImported(fcfg{trickleL, 2, 174, true, &v1, 0}, pat(801)),
		rdImported(fcfg{balancedL, 1, 30, true, &v1, 0}, bytes.Repeat([]byte("abcde"), 60)),
	}
	deltas := []int64{0, -1, 17, -200, 1, 2, -29, 174}
	if !r.Thorough() {
		deltas = deltas[:4]
	}
	for _, sh := range shapes {
		b, root, data := sh.build()
		sh := rdShape{sh.name, func() (*refm.B, refm.Built, []byte) { return b, root, data }}
		offs := upTo(len(data) + 1)
		if !r.Thorough() {
			offs = nil
			for i := 0; i <= len(data)+1; i += 1 + len(data)/250*3 {
				offs = append(offs, i)
			}
			for i := 515; i < 530; i++ {
				offs = append(offs, i)
			}
		}
		r.Enum("large: "+sh.name, ex.Opt{}, func(c *ex.Ctl) {
			off := int64(offs[c.Choose(len(offs))])
			var ops []rdOp
			switch c.Choose(3) {
			case 0:
				ops = append(ops, rdSeek(off, io.SeekStart))
			case 1:
				ops = append(ops, rdSeek(5, 0), rdRead(3, false), rdSeek(off-8, io.SeekCurrent))
			case 2:
				ops = append(ops, rdSeek(off-int64(len(data)), io.SeekEnd))
			}
			k := []int{1, 5, 50}[c.Choose(3)]
			ops = append(ops, rdRead(k, c.Bool()))
			ops = append(ops, rdSeek(deltas[c.Choose(len(deltas))], io.SeekCurrent))
			if c.Bool() {
				ops = append(ops, rdRead(7, false))
			} else {
				ops = append(ops, rdCopy(), rdSeek(off/2, 0))
			}
			s := newRdSys(c, sh, ops, bg)
			for i := range ops {
				s.Apply(c, i)
				c.Step()
			}
			s.Observe(c)
			c.State(ex.FpBytes([]byte(fmt.Sprint(sh.name, off, k))))
		})
	}
	// large leaves
	const L = 300000
	big := []rdShape{
		rdImported(fcfg{balancedL, L, 2, true, &v1, 0}, pat(3*L+5)),
		rdImported(fcfg{trickleL, L, 174, false, &v0, 0}, pat(2*L)),
		rdImported(fcfg{balancedL, 1 << 20, 174, true, &v1, 0}, pat(1<<20)),
		rdImported(fcfg{balancedL, 65536, 174, false, &v1, 0}, pat(1<<20+7)),
	}
	for _, sh := range big {
		b, root, data := sh.build()
		sh := rdShape{sh.name, func() (*refm.B, refm.Built, []byte) { return b, root, data }}
		n := int64(len(data))
		offs := []int64{0, 1, 511, 32768, L - 1, L, L + 1, 2 * L, 2*L - 1, n - 1, n}
		r.Enum("large leaves: "+sh.name, ex.Opt{}, func(c *ex.Ctl) {
			off := offs[c.Choose(len(offs))]
			k := []int{1, 4096, 32768, 32769, L, 700000}[c.Choose(6)]
			ops := []rdOp{rdSeek(off, 0), rdRead(k, c.Bool())}
			switch c.Choose(3) {
			case 0:
				ops = append(ops, rdRead(k, true))
			case 1:
				ops = append(ops, rdCopy())
			case 2:
				ops = append(ops, rdSeek(-int64(k/2), io.SeekCurrent), rdRead(k, false))
			}
			s := newRdSys(c, sh, ops, bg)
			for i := range ops {
				s.Apply(c, i)
				c.Step()
			}
			s.Observe(c)
			c.State(ex.FpBytes([]byte(fmt.Sprint(sh.name, off, k))))
		})
	}
}

// scaleResolve resolves every name in large directories.
func scaleResolve(r *ex.Run) {
	vals := []value{idValue("x"), mkValue(&v1, "one"), mkRawValue("raw")}
	n := 400
	if r.Thorough() {
		n = 3000
	}
	r.Enum("large directories", ex.Opt{}, func(c *ex.Ctl) {
		width := []int{8, 256}[c.Choose(2)]
		isHAMT := c.Bool()
		part := c.Choose(10)
		names := scaleNames(n, width)
		ents := map[string]refm.Entry{}
		for i, nm := range names[:n-20] {
			ents[nm] = vals[i%3].e
		}
		st := env.NewStore()
		root := dirNode(st, &v1, ents, isHAMT, width).Cid
		c.Logf("%d entries, sharded %v, fan-out %d", len(ents), isHAMT, width)
		nd := getNode(c, st, root)
		for i, nm := range names {
			if i%10 != part && i < n-20 {
				continue
			}
			for _, q := range []string{nm, nm + "x", "0" + nm, nm[:len(nm)-1]} {
				path := []string{q, "rest"}
				lnk, rest, err := uio.ResolveUnixfsOnce(bg, getterOnly{st}, nd, append([]string{}, path...))
				c.Step()
				checkResolved(c, ents, path, lnk, rest, err, false)
			}
		}
		c.State(ex.FpBytes([]byte(fmt.Sprint(width, isHAMT, part))))
	})
}

// scaleTrees are trees of many entries, many levels and large files.
func scaleTrees(r *ex.Run) {
	file := func(n int, f fcfg) *vt { return &vt{kind: vFile, data: pat(n), f: f} }
	mk := []func() *vt{
		func() *vt { return file(700, fcfg{layout: balancedL, chunk: 1, maxlinks: 174, raw: true}) },
		func() *vt { return file(700, fcfg{layout: trickleL, chunk: 2, maxlinks: 5}) },
		func() *vt { return file(700000, fcfg{layout: balancedL, chunk: 262144, maxlinks: 174}) },
		func() *vt { return file(1<<20, fcfg{layout: balancedL, chunk: 1 << 20, maxlinks: 174, raw: true}) },
	}
	for _, kind := range []int{vBasic, vHamt} {
		kind := kind
		mk = append(mk, func() *vt { // wide
			t := &vt{kind: kind, kids: map[string]*vt{}}
			for i, nm := range scaleNames(150, vWidth) {
				t.kids[nm] = []*vt{file(i, fcfg{layout: balancedL, chunk: 16, maxlinks: 3}), {kind: vLink, data: []byte(nm)}, {kind: vBasic}, file(1, fcfg{layout: balancedL, chunk: 16, maxlinks: 3})}[i%4]
			}
			return t
		}, func() *vt { // deep
			t := file(5, fcfg{layout: balancedL, chunk: 2, maxlinks: 2})
			for i := 0; i < 40; i++ {
				t = &vt{kind: kind, kids: map[string]*vt{fmt.Sprint("d", i): t, "x": {kind: vLink, data: []byte("..")}}}
			}
			return t
		}, func() *vt { // directories of directories
			t := &vt{kind: kind, kids: map[string]*vt{}}
			for i := 0; i < 12; i++ {
				u := &vt{kind: vBasic + (i+kind)%2, kids: map[string]*vt{}}
				for j := 0; j < 12; j++ {
					u.kids[fmt.Sprint("f", j)] = file(i*j, fcfg{layout: trickleL, chunk: 3, maxlinks: 2, raw: true})
				}
				t.kids[fmt.Sprint("sub", i)] = u
			}
			return t
		})
	}
	r.Enum("large trees", ex.Opt{}, func(c *ex.Ctl) {
		t := mk[c.Choose(len(mk))]()
		p := []cid.Prefix{v1, blk2}[c.Choose(2)]
		st := t.store(&p)
		v, err := unixfile.NewUnixfsFile(bg, st, getNode(c, st, t.b.Cid))
		if err != nil {
			c.Failf("%v", err)
		}
		c.Step()
		t.look(c, v, false, false)
		if v, err = unixfile.NewUnixfsFile(bg, st, getNode(c, st, t.b.Cid)); err != nil {
			c.Failf("%v", err)
		}
		out := t.rebuild(c, v, env.NewStore(), p)
		if !out.Cid().Equals(t.b.Cid) {
			c.Failf("written out and imported again it is %s, was %s", out.Cid(), t.b.Cid)
		}
		c.State(ex.FpBytes([]byte(t.b.Cid.KeyString())))
	})
}

var _ files.Node
var _ chunker.Splitter

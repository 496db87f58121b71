package checks

import (
	"errors"
	"fmt"
	"os"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/hamt"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// hsCfg is one HAMT exploration.
type hsCfg struct {
	name   string
	width  int
	prefix *cid.Prefix
	names  []string // names operated on
	probes []string // names only looked up
	full   []string // pairs of names that collide on the whole hash with names[0]
	extra  bool     // Find/Take/Swap/SetLink as separate operations
	depth  int
	noLoad bool // no reload/serialise operations in the alphabet
}

type hsSys struct {
	cfg   *hsCfg
	st    *env.Store
	sh    *hamt.Shard
	m     map[string]refm.Entry
	ops   []hsOp
	canon bool // also check the canonical form (C12)
}

type hsOp struct {
	name string
	do   func(c *ex.Ctl, s *hsSys)
}

func newHsSys(c *ex.Ctl, cfg *hsCfg, ops []hsOp, canon bool) *hsSys {
	s := &hsSys{cfg: cfg, st: env.NewStore(), m: map[string]refm.Entry{}, ops: ops, canon: canon}
	sh, err := hamt.NewShard(s.st, cfg.width)
	if err != nil {
		c.Failf("NewShard(%d): %v", cfg.width, err)
	}
	if cfg.prefix != nil {
		sh.SetCidBuilder(*cfg.prefix)
	}
	s.sh = sh
	return s
}

func (s *hsSys) Apply(c *ex.Ctl, op int) {
	o := s.ops[op]
	c.Logf("%s", o.name)
	o.do(c, s)
}

func (s *hsSys) Fingerprint() ex.Fp {
	var ks []string
	for _, k := range refm.SortedNames(s.m) {
		ks = append(ks, k, s.m[k].Cid.KeyString())
	}
	return ex.DeepHash(s.sh, ks)
}

func sameLink(l *ipld.Link, e refm.Entry) bool {
	return l != nil && l.Cid.Equals(e.Cid) && l.Size == e.Tsize
}

func (s *hsSys) oldMatches(c *ex.Ctl, what, name string, old *ipld.Link) {
	e, ok := s.m[name]
	if ok != (old != nil) {
		c.Failf("%s: returned old link %v, the map had it: %v", what, old, ok)
	}
	if ok && !sameLink(old, e) {
		c.Failf("%s: returned old link to %s size %d, the map had %s size %d", what, old.Cid, old.Size, e.Cid, e.Tsize)
	}
}

func (s *hsSys) find(c *ex.Ctl, name string) {
	l, err := s.sh.Find(bg, name)
	e, ok := s.m[name]
	switch {
	case ok && err != nil:
		c.Failf("Find(%q) failed: %v, it is an entry", name, err)
	case ok && !sameLink(l, e):
		c.Failf("Find(%q) gives %v, want %s size %d", name, l, e.Cid, e.Tsize)
	case !ok && err == nil:
		c.Failf("Find(%q) gives %v, there is no such entry", name, l.Cid)
	case !ok && !errors.Is(err, os.ErrNotExist):
		c.Failf("Find(%q) of an absent name reports %v", name, err)
	}
}

// setResult judges an insertion that may be refused: then nothing changes.
func (s *hsSys) setResult(c *ex.Ctl, what, name string, v value, mayFail bool, err error) {
	if err != nil {
		if !mayFail {
			c.Failf("%s failed: %v", what, err)
		}
		return
	}
	s.m[name] = v.e
}

func (s *hsSys) node(c *ex.Ctl) ipld.Node {
	n, err := s.sh.Node()
	if err != nil {
		c.Failf("Node(): %v", err)
	}
	return n
}

func (s *hsSys) reload(c *ex.Ctl) {
	n := s.node(c)
	sh, err := hamt.NewHamtFromDag(s.st, getNode(c, s.st, n.Cid()))
	if err != nil {
		c.Failf("loading what Node() stored: %v", err)
	}
	s.sh = sh
}

func short(n string) string {
	if len(n) > 24 {
		return n[:24] + "…"
	}
	return n
}

// collides: inserting name would need more hash bits than there are.
func (s *hsSys) collides(name string) bool {
	for k := range s.m {
		if k != name && string(refHash(k)) == string(refHash(name)) {
			return true
		}
	}
	return false
}

func hsOps(cfg *hsCfg) []hsOp {
	v1, v2 := mkValue(cfg.prefix, "one"), mkRawValue("the second")
	var ops []hsOp
	add := func(n string, f func(c *ex.Ctl, s *hsSys)) { ops = append(ops, hsOp{n, f}) }
	set := func(nm, vn string, v value) {
		w := fmt.Sprintf("Set(%q,%s)", short(nm), vn)
		add(w, func(c *ex.Ctl, s *hsSys) {
			mf := nm == "" || s.collides(nm)
			s.setResult(c, w, nm, v, mf, s.sh.Set(bg, nm, v.node))
		})
	}
	for i, nm := range append(append([]string{}, cfg.names...), cfg.full...) {
		nm := nm
		set(nm, "v1", v1)
		if i < 2 || cfg.extra {
			set(nm, "v2", v2)
		}
		if i < 2 || cfg.extra {
			w := fmt.Sprintf("SetLink(%q,v2)", short(nm))
			add(w, func(c *ex.Ctl, s *hsSys) {
				mf := nm == "" || s.collides(nm)
				l := &ipld.Link{Name: "whatever", Cid: v2.e.Cid, Size: v2.e.Tsize}
				s.setResult(c, w, nm, v2, mf, s.sh.SetLink(bg, nm, l))
				if l.Name != "whatever" || !l.Cid.Equals(v2.e.Cid) || l.Size != v2.e.Tsize {
					c.Failf("%s altered the caller's link", w)
				}
			})
			w2 := fmt.Sprintf("Swap(%q,v1)", short(nm))
			add(w2, func(c *ex.Ctl, s *hsSys) {
				mf := nm == "" || s.collides(nm)
				old, err := s.sh.Swap(bg, nm, v1.node)
				if err == nil {
					s.oldMatches(c, w2, nm, old)
				}
				s.setResult(c, w2, nm, v1, mf, err)
			})
		}
		rm := fmt.Sprintf("Remove(%q)", short(nm))
		add(rm, func(c *ex.Ctl, s *hsSys) {
			err := s.sh.Remove(bg, nm)
			s.removed(c, rm, nm, err)
		})
		if i < 2 || cfg.extra {
			tk := fmt.Sprintf("Take(%q)", short(nm))
			add(tk, func(c *ex.Ctl, s *hsSys) {
				old, err := s.sh.Take(bg, nm)
				if err == nil {
					s.oldMatches(c, tk, nm, old)
				}
				s.removed(c, tk, nm, err)
			})
			add(fmt.Sprintf("Find(%q)", short(nm)), func(c *ex.Ctl, s *hsSys) { s.find(c, nm) })
		}
	}
	if !cfg.noLoad {
		add("reload", func(c *ex.Ctl, s *hsSys) { s.reload(c) })
		add("Node", func(c *ex.Ctl, s *hsSys) { s.node(c) })
		add("ForEachLink", func(c *ex.Ctl, s *hsSys) { s.forEach(c) })
	}
	return ops
}

func (s *hsSys) removed(c *ex.Ctl, what, name string, err error) {
	_, ok := s.m[name]
	switch {
	case ok && err != nil:
		c.Failf("%s of an entry failed: %v", what, err)
	case !ok && err == nil:
		c.Failf("%s of an absent name reports success", what)
	case !ok && !errors.Is(err, os.ErrNotExist):
		c.Failf("%s of an absent name reports %v", what, err)
	}
	delete(s.m, name)
}

func (s *hsSys) forEach(c *ex.Ctl) {
	var ls []*ipld.Link
	err := s.sh.ForEachLink(bg, func(l *ipld.Link) error {
		cp := *l
		ls = append(ls, &cp)
		return nil
	})
	if err != nil {
		c.Failf("ForEachLink: %v", err)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("ForEachLink: %v; model %s", err, entStr(s.m))
	}
}

func (s *hsSys) list(c *ex.Ctl) {
	ls, err := s.sh.EnumLinks(bg)
	if err != nil {
		c.Failf("EnumLinks: %v", err)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("EnumLinks: %v; model %s", err, entStr(s.m))
	}
}

// Observe: every question agrees with the map, before and after a reload.
func (s *hsSys) Observe(c *ex.Ctl) {
	if s.canon {
		b := refm.NewB(s.cfg.prefix)
		want, err := b.HAMTDir(s.m, s.cfg.width, refHash)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		n := s.node(c)
		if !n.Cid().Equals(want.Cid) {
			c.Failf("the DAG of %s is %s, the canonical one is %s", entStr(s.m), n.Cid(), want.Cid)
		}
		ents, _, err := refm.HAMTEntries(s.st, n.Cid(), refHash)
		if err != nil {
			c.Failf("stored HAMT of %s: %v", entStr(s.m), err)
		}
		if entStr(ents) != entStr(s.m) {
			c.Failf("stored HAMT holds %s, model %s", entStr(ents), entStr(s.m))
		}
		l, err := s.sh.Link()
		if err != nil || !l.Cid.Equals(want.Cid) || l.Size != want.Tsize {
			c.Failf("Link() is %v (%v), want %s size %d", l, err, want.Cid, want.Tsize)
		}
		// again, unchanged, and from the loaded form
		s.reload(c)
		if n2 := s.node(c); !n2.Cid().Equals(want.Cid) {
			c.Failf("reloading and writing %s again changes its CID to %s", entStr(s.m), n2.Cid())
		}
		s.forEach(c)
		if n2 := s.node(c); !n2.Cid().Equals(want.Cid) {
			c.Failf("loading every shard of %s and writing it again changes its CID to %s", entStr(s.m), n2.Cid())
		}
		return
	}
	s.list(c)
	for _, nm := range s.cfg.names {
		s.find(c, nm)
	}
	for _, nm := range append(append([]string{}, s.cfg.probes...), s.cfg.full...) {
		s.find(c, nm)
	}
	s.forEach(c)
	s.list(c)
	s.reload(c)
	s.list(c)
	for _, nm := range append(append([]string{}, s.cfg.names...), s.cfg.probes...) {
		s.find(c, nm)
	}
	s.reload(c)
	s.forEach(c)
	s.list(c)
}

// hsCfgs are the explored tries.
func hsCfgs(thorough bool) []*hsCfg {
	w := func(width int, tag string, slots ...int) string { return slotName(width, tag, slots...) }
	var out []*hsCfg
	add := func(c *hsCfg) { out = append(out, c) }
	// two levels and a bit: neighbours, one sibling at each level, one far slot
	tree := func(width int) []string {
		return []string{w(width, "a", 1, 2, 3), w(width, "b", 1, 2, 4), w(width, "c", 1, 5), w(width, "d", width-1), w(width, "e", 1, 2, 3, width-1)}
	}
	probes := func(width int) []string {
		return []string{"", w(width, "p", 1, 2, 3), w(width, "p", 1, 2, 7), w(width, "p", 1, 6), w(width, "p", 2), w(width, "a", 1, 2), "00", "a", "1!"}
	}
	add(&hsCfg{name: "fan-out 8, four levels", width: 8, prefix: &v1, names: tree(8)[:4], probes: probes(8), extra: true, depth: 60})
	add(&hsCfg{name: "fan-out 8, five names", width: 8, prefix: nil, names: tree(8), probes: probes(8), depth: 60})
	add(&hsCfg{name: "fan-out 256", width: 256, prefix: &v0, names: tree(256)[:4], probes: probes(256), depth: 60})
	add(&hsCfg{name: "fan-out 16", width: 16, prefix: &blk2, names: tree(16)[:3], probes: probes(16), depth: 60})
	add(&hsCfg{name: "fan-out 32", width: 32, prefix: &v1, names: tree(32)[:3], probes: probes(32), depth: 60})
	add(&hsCfg{name: "fan-out 64", width: 64, prefix: &v1, names: tree(64)[:3], probes: probes(64), depth: 60})
	add(&hsCfg{name: "fan-out 128", width: 128, prefix: &v1, names: tree(128)[:3], probes: probes(128), depth: 60})
	add(&hsCfg{name: "fan-out 512", width: 512, prefix: &v1, names: tree(512)[:3], probes: probes(512), depth: 60})
	add(&hsCfg{name: "fan-out 1024", width: 1024, prefix: &v1, names: tree(1024)[:3], probes: probes(1024), depth: 60})
	// chains down to the last level of the hash, and past it
	for _, width := range []int{8, 16, 256, 1024} {
		lg := 0
		for 1<<uint(lg) < width {
			lg++
		}
		lv := 64 / lg
		a := w(width, "a", repSlots(width-2, lv)...)
		b := w(width, "b", repSlots(width-2, lv-1, 1)...)
		d := w(width, "c", repSlots(width-2, lv/2, 0)...)
		add(&hsCfg{name: fmt.Sprintf("fan-out %d, hash used up", width), width: width, prefix: &v1, names: []string{a, b, d}, full: []string{a[:len(a)-1] + "z"}, probes: []string{"x", a + "x"}, depth: 60})
	}
	// names that look like shard links, real hashes
	add(&hsCfg{name: "odd names", width: 8, prefix: &v1, names: []string{"00", "0", "a/b", "\x00\xff", " "}, probes: []string{"000", "7", "é"}, depth: 60})
	add(&hsCfg{name: "empty name", width: 8, prefix: &v1, names: []string{"", "0", "x"}, depth: 60})
	add(&hsCfg{name: "real hashes", width: 8, prefix: &v1, names: []string{"file-1", "file-2", "file-3", "file-4", "file-5"}, probes: []string{"file-6"}, depth: 60})
	add(&hsCfg{name: "in memory only", width: 8, prefix: &v1, names: tree(8), probes: probes(8), depth: 60, noLoad: true})
	if thorough {
		for _, c := range out {
			c.depth += 20
		}
		add(&hsCfg{name: "six names", width: 8, prefix: &v1, names: append(tree(8), w(8, "f", 7, 0)), probes: probes(8), depth: 60})
		add(&hsCfg{name: "five names, every call", width: 8, prefix: &v1, names: tree(8), probes: probes(8), extra: true, depth: 60})
	}
	return out
}

func runHamt(canon bool) func(r *ex.Run) {
	return func(r *ex.Run) {
		for _, cfg := range hsCfgs(r.Thorough()) {
			cfg := cfg
			ops := hsOps(cfg)
			r.BFS(cfg.name, len(ops), cfg.depth, 0, func(c *ex.Ctl) ex.System { return newHsSys(c, cfg, ops, canon) })
		}
		scaleHamt(r, canon)
		if !canon {
			refusedShards(r)
		}
	}
}

// refused: a block that is not a shard of the one known hash function and a
// possible fan-out is never searched or listed as if it were one.
func refusedShards(r *ex.Run) {
	const width = 8
	in1, in2, out := slotName(width, "a", 1, 2), slotName(width, "b", 1, 3), slotName(width, "c", 5)
	type alt struct {
		name string
		do   func(n *refm.Node)
	}
	var alts []alt
	add := func(n string, f func(n *refm.Node)) { alts = append(alts, alt{n, f}) }
	add("no hash function", func(n *refm.Node) { n.HasHash = false })
	for _, h := range []uint64{0, 1, 0x11, 0x12, 0x1e, 0x21, 0x23, 0x122, 1<<32 | 0x22, 1<<63 | 0x22} {
		h := h
		add(fmt.Sprintf("hash function %#x", h), func(n *refm.Node) { n.HashType = h })
	}
	add("no fan-out", func(n *refm.Node) { n.HasFanout = false })
	for _, f := range []uint64{0, 3, 5, 6, 7, 9, 12, 24, 100, 1<<63 + 8} {
		f := f
		add(fmt.Sprintf("fan-out %d", f), func(n *refm.Node) { n.Fanout = f })
	}
	for _, t := range []int{refm.Raw, refm.Directory, refm.File, refm.Metadata, refm.Symlink} {
		t := t
		add(fmt.Sprintf("type %d", t), func(n *refm.Node) { n.Type = t })
	}
	r.Enum("impossible fan-outs", ex.Opt{}, func(c *ex.Ctl) {
		w := []int{-8, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 24, 33, 100, 255, 257, 1000, 1023}[c.Choose(21)]
		// Below eight there is no bitfield of whole bytes.
		sh, err := hamt.NewShard(env.NewStore(), w)
		if err == nil {
			c.Failf("NewShard accepts the fan-out %d", w)
		}
		_ = sh
	})
	r.Enum("blocks that are no shard of a known kind", ex.Opt{}, func(c *ex.Ctl) {
		a := alts[c.Choose(len(alts))]
		root := c.Choose(2) == 0
		ents := map[string]refm.Entry{}
		for _, n := range []string{in1, in2, out} {
			ents[n] = mkRawValue("to " + n).e
		}
		b := refm.NewB(&v1)
		top, err := b.HAMTDir(ents, width, refHash)
		if err != nil {
			panic(err)
		}
		parse := func(k cid.Cid) *refm.Node {
			raw, _ := b.Raw(k)
			n, err := refm.Parse(k, raw)
			if err != nil {
				panic(err)
			}
			return n
		}
		tn := parse(top.Cid)
		if root {
			a.do(tn)
		} else {
			kid := parse(tn.Links[0].Cid)
			a.do(kid)
			k := b.Put(kid)
			tn.Links[0].Cid = k.Cid
		}
		top = b.Put(tn)
		st := env.NewStore()
		st.PutAll(b.Blocks)
		c.Logf("root changed=%v: %s", root, a.name)
		nd := getNode(c, st, top.Cid)
		load := func() *hamt.Shard {
			sh, err := hamt.NewHamtFromDag(st, nd)
			if err == nil && root {
				c.Failf("a root with %s is loaded as a shard", a.name)
			}
			if err != nil && !root {
				c.Failf("loading the root: %v", err)
			}
			return sh
		}
		bad := func(what string, err error) {
			if err == nil || errors.Is(err, os.ErrNotExist) {
				c.Failf("%s through a shard with %s reports %v", what, a.name, err)
			}
		}
		sh := load()
		if sh == nil {
			return
		}
		if l, err := sh.Find(bg, out); err != nil || !sameLink(l, ents[out]) {
			c.Failf("Find of the entry beside it: %v %v", l, err)
		}
		_, err = sh.Find(bg, in1)
		bad("Find", err)
		_, err = sh.Find(bg, slotName(width, "z", 1, 6))
		bad("Find of an absent name", err)
		bad("Remove", sh.Remove(bg, in1))
		_, err = sh.Take(bg, in2)
		bad("Take", err)
		_, err = sh.Swap(bg, in2, mkRawValue("x").node)
		bad("Swap", err)
		bad("Set", sh.Set(bg, slotName(width, "z", 1, 6), mkRawValue("x").node))
		_, err = sh.EnumLinks(bg)
		bad("EnumLinks", err)
		bad("ForEachLink", sh.ForEachLink(bg, func(*ipld.Link) error { return nil }))
		if n, err := sh.Node(); err != nil || !n.Cid().Equals(top.Cid) {
			c.Failf("after the failed calls the shard is another one (%v)", err)
		}
	})
}

func init() {
	ex.Register(&ex.Check{ID: "C11", Level: "model_checking", Run: runHamt(false), Quick: 240 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C12", Level: "model_checking", Run: runHamt(true), Quick: 240 * time.Second, Thorough: 50 * time.Minute})
}

package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// dirCfg is one directory exploration.
type dirCfg struct {
	name      string
	threshold int
	width     int
	prefix    *cid.Prefix // nil: do not set a builder
	flavour   int         // see builderOf
	names     []string
	values    []value
	probes    []string
	start     map[string]refm.Entry // loaded at the start (nil: NewDirectory)
	startHAMT bool
	depth     int
	few       bool // fewer operations
	mapOnly   bool // the form is not determined
	loadWidth int  // fan-out of the loaded directory, when another
	builders  []cid.Prefix
}

func (cfg *dirCfg) apply() {
	uio.HAMTShardingSize = cfg.threshold
	uio.DefaultShardWidth = cfg.width
}

// entSize is the published size estimate of an entry.
func entSize(name string, e refm.Entry) int { return len(name) + len(e.Cid.Bytes()) }

func sumSize(m map[string]refm.Entry) int {
	n := 0
	for k, e := range m {
		n += entSize(k, e)
	}
	return n
}

type dirSys struct {
	cfg   *dirCfg
	st    *env.Store
	d     uio.Directory
	m     map[string]refm.Entry
	hamt  bool // form the directory must have (threshold off: the form it started with)
	ops   []dirOp
	canon bool // C16: form and CID

	// the threshold changes while the directory is in use
	fly       bool
	threshold int
	base      int // size when the directory became, or was loaded as, sharded
}

type dirOp struct {
	name string
	do   func(c *ex.Ctl, s *dirSys)
}

func idValue(s string) value {
	h, err := mh.Sum([]byte(s), mh.IDENTITY, -1)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	k := cid.NewCidV1(cid.Raw, h)
	n, err := dag.NewRawNodeWPrefix([]byte(s), k.Prefix())
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return value{n, refm.Entry{Cid: n.Cid(), Tsize: uint64(len(s))}}
}

// dirNode builds the canonical node of ents in the asked form and stores it.
func dirNode(st *env.Store, p *cid.Prefix, ents map[string]refm.Entry, isHAMT bool, width int) refm.Built {
	b := refm.NewB(p)
	var r refm.Built
	if isHAMT {
		var err error
		if r, err = b.HAMTDir(ents, width, refHash); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	} else {
		r = b.BasicDir(ents)
	}
	if st != nil {
		st.PutAll(b.Blocks)
	}
	return r
}

func newDirSys(c *ex.Ctl, cfg *dirCfg, ops []dirOp, canon bool) *dirSys {
	s := &dirSys{cfg: cfg, st: env.NewStore(), m: map[string]refm.Entry{}, ops: ops, canon: canon}
	for _, v := range append([]value{idValue("x"), mkValue(&v1, "one")}, cfg.values...) {
		if err := s.st.Add(bg, v.node); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	if cfg.start == nil {
		s.d = uio.NewDirectory(s.st)
		if cfg.prefix != nil {
			s.d.SetCidBuilder(builderOf(*cfg.prefix, cfg.flavour))
		}
		return s
	}
	s.m = cloneEnts(cfg.start)
	s.hamt = cfg.startHAMT
	w := cfg.width
	if cfg.loadWidth > 0 {
		w = cfg.loadWidth
	}
	r := dirNode(s.st, cfg.prefix, cfg.start, cfg.startHAMT, w)
	d, err := uio.NewDirectoryFromNode(s.st, getNode(c, s.st, r.Cid))
	if err != nil {
		c.Failf("loading a directory: %v", err)
	}
	s.d = d
	return s
}

func (s *dirSys) Apply(c *ex.Ctl, op int) {
	o := s.ops[op]
	c.Logf("%s", o.name)
	o.do(c, s)
}

func (s *dirSys) Fingerprint() ex.Fp {
	var ks []string
	for _, k := range refm.SortedNames(s.m) {
		ks = append(ks, k, s.m[k].Cid.KeyString())
	}
	return ex.DeepHash(s.d, ks, s.hamt, s.threshold, s.base)
}

// updated sets the form expected after an update.
func (s *dirSys) updated(added bool) {
	if s.fly {
		s.flown(added)
		return
	}
	if s.cfg.threshold > 0 {
		s.hamt = sumSize(s.m) >= s.cfg.threshold
	}
}

func (s *dirSys) node(c *ex.Ctl) ipld.Node {
	n, err := s.d.GetNode()
	if err != nil {
		c.Failf("GetNode: %v", err)
	}
	return n
}

func (s *dirSys) reload(c *ex.Ctl) {
	n := s.node(c)
	if err := s.st.Add(bg, n); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	d, err := uio.NewDirectoryFromNode(s.st, getNode(c, s.st, n.Cid()))
	if err != nil {
		c.Failf("loading what GetNode gave: %v", err)
	}
	s.d = d
	if s.fly {
		s.base = sumSize(s.m)
	}
}

func (s *dirSys) forEach(c *ex.Ctl) {
	var ls []*ipld.Link
	err := s.d.ForEachLink(bg, func(l *ipld.Link) error {
		cp := *l
		ls = append(ls, &cp)
		return nil
	})
	if err != nil {
		c.Failf("ForEachLink: %v", err)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("ForEachLink: %v; model %s", err, entStr(s.m))
	}
}

// forEachStop: a callback that fails ends the listing with its error.
func (s *dirSys) forEachStop(c *ex.Ctl, k int) {
	stop := errors.New("stop")
	calls := 0
	seen := map[string]bool{}
	err := s.d.ForEachLink(bg, func(l *ipld.Link) error {
		e, ok := s.m[l.Name]
		if !ok || seen[l.Name] || !e.Cid.Equals(l.Cid) {
			c.Failf("ForEachLink gives %q -> %s; model %s", l.Name, l.Cid, entStr(s.m))
		}
		seen[l.Name] = true
		if calls++; calls == k {
			return stop
		}
		if calls > k {
			c.Failf("ForEachLink goes on after the callback failed")
		}
		return nil
	})
	if k <= len(s.m) && !errors.Is(err, stop) || k > len(s.m) && err != nil {
		c.Failf("the callback failed at entry %d of %d and ForEachLink returns %v", k, len(s.m), err)
	}
}

// streamStop: a consumer that cancels gets no wrong entry and the stream ends.
func (s *dirSys) streamStop(c *ex.Ctl, k int) {
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	seen := map[string]bool{}
	if k == 0 {
		cancel()
	}
	for r := range s.d.EnumLinksAsync(ctx) {
		if r.Err != nil {
			if ctx.Err() == nil {
				c.Failf("EnumLinksAsync: %v", r.Err)
			}
			continue
		}
		e, ok := s.m[r.Link.Name]
		if !ok || seen[r.Link.Name] || !e.Cid.Equals(r.Link.Cid) {
			c.Failf("EnumLinksAsync gives %q -> %s; model %s", r.Link.Name, r.Link.Cid, entStr(s.m))
		}
		seen[r.Link.Name] = true
		if len(seen) == k {
			cancel()
		}
	}
	if ctx.Err() == nil && len(seen) != len(s.m) {
		c.Failf("EnumLinksAsync ends after %d of %d entries", len(seen), len(s.m))
	}
}

func (s *dirSys) links(c *ex.Ctl) {
	ls, err := s.d.Links(bg)
	if err != nil {
		c.Failf("Links: %v", err)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("Links: %v; model %s", err, entStr(s.m))
	}
}

func (s *dirSys) stream(c *ex.Ctl) {
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var ls []*ipld.Link
	for r := range s.d.EnumLinksAsync(ctx) {
		if r.Err != nil {
			c.Failf("EnumLinksAsync: %v", r.Err)
		}
		cp := *r.Link
		ls = append(ls, &cp)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("EnumLinksAsync: %v; model %s", err, entStr(s.m))
	}
}

func (s *dirSys) find(c *ex.Ctl, name string) {
	n, err := s.d.Find(bg, name)
	e, ok := s.m[name]
	switch {
	case ok && err != nil:
		c.Failf("Find(%q) failed: %v, it is an entry", name, err)
	case ok && !n.Cid().Equals(e.Cid):
		c.Failf("Find(%q) gives %s, want %s", name, n.Cid(), e.Cid)
	case !ok && err == nil:
		c.Failf("Find(%q) gives %v, there is no such entry", name, n.Cid())
	case !ok && !errors.Is(err, os.ErrNotExist):
		c.Failf("Find(%q) of an absent name reports %v", name, err)
	}
}

func dirOps(cfg *dirCfg) []dirOp {
	var ops []dirOp
	add := func(n string, f func(c *ex.Ctl, s *dirSys)) { ops = append(ops, dirOp{n, f}) }
	for _, nm := range cfg.names {
		nm := nm
		for i, v := range cfg.values {
			v := v
			if cfg.few && nm != cfg.names[0] && i > 0 {
				continue
			}
			w := fmt.Sprintf("AddChild(%q,v%d)", short(nm), i)
			add(w, func(c *ex.Ctl, s *dirSys) {
				if err := s.d.AddChild(bg, nm, v.node); err != nil {
					if nm == "" { // a sharded directory cannot hold it
						return
					}
					c.Failf("%s failed: %v", w, err)
				}
				s.m[nm] = v.e
				s.updated(true)
			})
		}
		w := fmt.Sprintf("RemoveChild(%q)", short(nm))
		add(w, func(c *ex.Ctl, s *dirSys) {
			err := s.d.RemoveChild(bg, nm)
			_, ok := s.m[nm]
			switch {
			case ok && err != nil:
				c.Failf("%s of an entry failed: %v", w, err)
			case !ok && err == nil:
				c.Failf("%s of an absent name reports success", w)
			case !ok && !errors.Is(err, os.ErrNotExist):
				c.Failf("%s of an absent name reports %v", w, err)
			}
			if ok {
				delete(s.m, nm)
				s.updated(false)
			}
		})
	}
	for _, b := range cfg.builders {
		b := b
		add(fmt.Sprintf("SetCidBuilder(v%d/%x)", b.Version, b.MhType), func(c *ex.Ctl, s *dirSys) { s.d.SetCidBuilder(b) })
	}
	add("reload", func(c *ex.Ctl, s *dirSys) { s.reload(c) })
	add("GetNode", func(c *ex.Ctl, s *dirSys) { // and save it, which encodes the node
		if err := s.st.Add(bg, s.node(c)); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	})
	if !cfg.few {
		add("ForEachLink", func(c *ex.Ctl, s *dirSys) { s.forEach(c) })
		add("Links", func(c *ex.Ctl, s *dirSys) { s.links(c) })
		add(fmt.Sprintf("Find(%q)", short(cfg.names[0])), func(c *ex.Ctl, s *dirSys) { s.find(c, cfg.names[0]) })
	}
	return ops
}

func (s *dirSys) checkForm(c *ex.Ctl, what string) {
	n := s.node(c)
	pn, ok := n.(*dag.ProtoNode)
	if !ok {
		c.Failf("%s: GetNode gave a %T", what, n)
	}
	p, err := refm.Parse(n.Cid(), pn.RawData())
	if err != nil {
		c.Failf("%s: GetNode gave a node that does not decode: %v", what, err)
	}
	isHAMT := p.Type == refm.HAMT
	if isHAMT != s.hamt {
		c.Failf("%s: entries %s of estimated size %d with threshold %d: sharded=%v, want %v", what, entStr(s.m), sumSize(s.m), s.cfg.threshold, isHAMT, s.hamt)
	}
	want := dirNode(nil, s.cfg.prefix, s.m, isHAMT, s.cfg.width)
	if !n.Cid().Equals(want.Cid) {
		c.Failf("%s: the node of %s (sharded=%v) is %s, the canonical one is %s", what, entStr(s.m), isHAMT, n.Cid(), want.Cid)
	}
	if isHAMT {
		ents, _, err := refm.HAMTEntries(s.st, n.Cid(), refHash)
		if err != nil {
			c.Failf("%s: stored directory: %v", what, err)
		}
		if entStr(ents) != entStr(s.m) {
			c.Failf("%s: stored directory holds %s, model %s", what, entStr(ents), entStr(s.m))
		}
	}
	bld := s.d.GetCidBuilder()
	if s.cfg.prefix != nil && bld == nil {
		c.Failf("%s: the CID format was lost", what)
	}
}

func (s *dirSys) Observe(c *ex.Ctl) {
	if s.canon {
		s.checkForm(c, "now")
		s.reload(c)
		s.checkForm(c, "reloaded")
		return
	}
	all := append(append([]string{}, s.cfg.names...), s.cfg.probes...)
	s.stream(c)
	s.links(c)
	for _, nm := range all {
		s.find(c, nm)
	}
	s.forEach(c)
	s.links(c)
	for k := 1; k <= len(s.m)+1; k++ {
		s.forEachStop(c, k)
	}
	for _, k := range []int{0, 1, len(s.m)} {
		s.streamStop(c, k)
	}
	s.reload(c)
	s.stream(c)
	for _, nm := range all {
		s.find(c, nm)
	}
	s.reload(c)
	s.forEach(c)
	s.links(c)
	s.stream(c)
}

// dirSums lists the distinct sums of sizes over every choice of entries.
func dirSums(names []string, vals []value) []int {
	sums := map[int]bool{0: true}
	for _, nm := range names {
		next := map[int]bool{}
		for s := range sums {
			next[s] = true
			for _, v := range vals {
				next[s+entSize(nm, v.e)] = true
			}
		}
		sums = next
	}
	var out []int
	for s := range sums {
		if s > 0 {
			out = append(out, s)
		}
	}
	sort.Ints(out)
	return out
}

func dirCfgs(thorough bool) []*dirCfg {
	var out []*dirCfg
	add := func(c *dirCfg) {
		if c.depth == 0 {
			c.depth = 7
			if c.few {
				c.depth = 8
			}
			if thorough {
				c.depth = 60
			}
		}
		out = append(out, c)
	}
	a, b, c, d := slotName(8, "a", 1, 2, 3), slotName(8, "bb", 1, 2, 4), slotName(8, "cccc", 1, 5), slotName(8, "d", 7)
	vals := []value{idValue("x"), mkValue(&v1, "one")}
	probes := []string{"", "00", slotName(8, "p", 1, 2, 3), "1"}
	// off
	for _, p := range []*cid.Prefix{nil, &v1, &blk2} {
		add(&dirCfg{name: fmt.Sprintf("threshold off, new, builder %v", p != nil), threshold: 0, width: 8, prefix: p, names: []string{a, b, d}, values: vals, probes: probes})
	}
	e := map[string]refm.Entry{a: vals[0].e, b: vals[1].e, d: vals[0].e}
	add(&dirCfg{name: "threshold off, loaded basic", width: 8, prefix: &v0, names: []string{a, b, c}, values: vals, probes: append(probes, d), start: e})
	add(&dirCfg{name: "threshold off, loaded sharded", width: 8, prefix: &v0, names: []string{a, b, c}, values: vals, probes: append(probes, d), start: e, startHAMT: true})
	add(&dirCfg{name: "threshold off, loaded sharded v1", width: 8, prefix: &v1, names: []string{a, b, c}, values: vals[:1], probes: append(probes, d), start: e, startHAMT: true})
	// always sharded
	add(&dirCfg{name: "threshold 1", threshold: 1, width: 8, prefix: &v1, names: []string{a, b, c}, values: vals, probes: probes})
	add(&dirCfg{name: "threshold 1, fan-out 256", threshold: 1, width: 256, prefix: nil, names: []string{a, b, c}, values: vals, probes: probes})
	// every threshold that separates reachable sizes
	nm := []string{a, b, d}
	seen := map[int]bool{}
	for _, s := range dirSums(nm, vals) {
		for _, t := range []int{s, s + 1} {
			if seen[t] {
				continue
			}
			seen[t] = true
			add(&dirCfg{name: fmt.Sprintf("threshold %d, new", t), threshold: t, width: 8, prefix: &v1, names: nm, values: vals, probes: probes})
		}
	}
	// four names, thresholds in the middle
	nm4 := []string{a, b, c, d}
	sums := dirSums(nm4, vals[:1])
	for i, t := range sums {
		if thorough || i%4 == 2 {
			add(&dirCfg{name: fmt.Sprintf("threshold %d, four names", t), threshold: t, width: 8, prefix: &v0, names: nm4, values: vals[:1], probes: probes, few: true})
		}
	}
	// loaded, with entries that are never touched
	for _, t := range []int{sumSize(e) - 3, sumSize(e), sumSize(e) + 1, sumSize(e) + 10} {
		add(&dirCfg{name: fmt.Sprintf("threshold %d, loaded", t), threshold: t, width: 8, prefix: &v1, names: []string{a, c}, values: vals, probes: append(probes, b, d), start: e, startHAMT: sumSize(e) >= t})
	}
	// values whose sizes are one byte apart, replaced by each other
	near := []value{idValue("xy"), idValue("x")}
	e3 := map[string]refm.Entry{a: near[0].e, b: near[1].e, d: near[0].e}
	for _, t := range []int{sumSize(e3) - 1, sumSize(e3), sumSize(e3) + 1} {
		for i, st := range []map[string]refm.Entry{nil, e3} {
			add(&dirCfg{name: fmt.Sprintf("threshold %d, values of nearly one size, loaded %v", t, i > 0), threshold: t, width: 8, prefix: &v1, names: []string{a, b, d}, values: near, probes: probes, start: st, startHAMT: i > 0 && sumSize(e3) >= t, few: i == 0})
		}
	}
	// odd names
	add(&dirCfg{name: "odd names", threshold: 25, width: 8, prefix: &v1, names: []string{"00", "0", "a/b"}, values: vals[:1], probes: []string{"000", "", "b"}})
	add(&dirCfg{name: "empty name", threshold: 0, width: 8, prefix: &v1, names: []string{"", "0"}, values: vals[:1], probes: []string{"00"}})
	// the form loaded is not the one the threshold asks for, or has another
	// fan-out, or the CID format is changed on the way
	for _, h := range []bool{false, true} {
		for _, t := range []int{sumSize(e) - 3, sumSize(e) + 1, 1, 1000} {
			add(&dirCfg{name: fmt.Sprintf("threshold %d, loaded in either form, sharded %v", t, h), threshold: t, width: 8, prefix: &v1, names: []string{a, c}, values: vals[:1], probes: append(probes, b, d), start: e, startHAMT: h, mapOnly: true, loadWidth: 16, few: true})
		}
	}
	add(&dirCfg{name: "threshold off, loaded with fan-out 256", width: 8, prefix: &v0, names: []string{a, b, c}, values: vals[:1], probes: append(probes, d), start: e, startHAMT: true, mapOnly: true, loadWidth: 256, few: true})
	for _, t := range []int{0, 1, sumSize(e)} {
		add(&dirCfg{name: fmt.Sprintf("threshold %d, CID format changes", t), threshold: t, width: 8, prefix: &v1, names: []string{a, b}, values: vals[:1], probes: append(probes, d), start: e, startHAMT: t > 0 && sumSize(e) >= t, mapOnly: true, builders: []cid.Prefix{v0, blk2}, few: true})
	}
	if thorough {
		for _, t := range dirSums(nm4, vals) {
			add(&dirCfg{name: fmt.Sprintf("threshold %d, four names, two values", t), threshold: t, width: 8, prefix: &v1, names: nm4, values: vals, probes: probes, few: true})
		}
		nm5 := append(nm4, slotName(8, "eee", 1, 2, 3, 1))
		for i, t := range dirSums(nm5, vals[:1]) {
			if i%3 == 1 {
				add(&dirCfg{name: fmt.Sprintf("threshold %d, five names", t), threshold: t, width: 8, prefix: &v1, names: nm5, values: vals[:1], probes: probes, few: true})
			}
		}
	}
	return out
}

func runDir(canon bool) func(r *ex.Run) {
	return func(r *ex.Run) {
		cfgs := dirCfgs(r.Thorough())
		for i, cfg := range cfgs {
			cfg := cfg
			if canon && cfg.mapOnly {
				continue
			}
			r.Share(len(cfgs)-i, 3)
			cfg.apply()
			ops := dirOps(cfg)
			r.BFS(cfg.name, len(ops), cfg.depth, 0, func(c *ex.Ctl) ex.System { return newDirSys(c, cfg, ops, canon) })
		}
		r.Share(0, 0)
		flyDirs(r, canon)
		scaleDirs(r, canon)
		defaultDirs(r, canon)
		if !canon {
			notDirs(r)
		}
	}
}

// flown sets the form expected after an update of a directory whose threshold
// has been changed: adding makes a directory sharded whose size is at or above
// the threshold there is now; a sharded one at or above it stays sharded; one
// below it is basic when it is smaller than it was when it became sharded.
// What it is otherwise depends on its history, and is taken from it.
func (s *dirSys) flown(added bool) {
	size := sumSize(s.m)
	if s.threshold == 0 || !s.hamt && !added {
		return
	}
	switch {
	case size >= s.threshold:
		if !s.hamt {
			s.base = size
		}
		s.hamt = true
	case !s.hamt || size < s.base:
		s.hamt = false
	default:
		if dd, ok := s.d.(*uio.DynamicDirectory); ok {
			_, s.hamt = dd.Directory.(*uio.HAMTDirectory)
		}
	}
}

// flyDirs: the threshold is a variable, and it is switched on, off and changed
// under an open directory.
func flyDirs(r *ex.Run, canon bool) {
	a, b, d := slotName(8, "a", 1, 2, 3), slotName(8, "bb", 1, 2, 4), slotName(8, "d", 7)
	vals := []value{idValue("x"), mkValue(&v1, "one")}
	probes := []string{"00", slotName(8, "p", 1, 2, 3)}
	sums := dirSums([]string{a, b, d}, vals[:1])
	depth, step := 6, 2
	if r.Thorough() {
		depth, step = 12, 1
	}
	all := append([]int{1}, sums...)
	all = append(all, sums[len(sums)-1]+1)
	w := r.Workers
	r.Workers = 1 // the threshold is one for the process
	defer func() { r.Workers = w }()
	for i, x := range [][]value{vals[:1], vals} {
		for j := i; j < len(all); j += step {
			t := all[j]
			cfg := &dirCfg{width: 8, prefix: &v1, names: []string{a, b, d}, values: x, probes: probes, few: true}
			cfg.name = fmt.Sprintf("threshold set to %d and to 0 under an open directory, %d values", t, len(x))
			hi := all[(j+3)%len(all)]
			ops := dirOps(cfg)
			for _, v := range []int{0, t, hi} {
				v := v
				ops = append(ops, dirOp{fmt.Sprintf("HAMTShardingSize = %d", v), func(c *ex.Ctl, s *dirSys) {
					s.threshold, uio.HAMTShardingSize = v, v
				}})
			}
			cfg.apply()
			r.BFS(cfg.name, len(ops), depth, 0, func(c *ex.Ctl) ex.System {
				uio.HAMTShardingSize = 0
				s := newDirSys(c, cfg, ops, canon)
				s.fly = true
				return s
			})
		}
	}
	uio.HAMTShardingSize = 0
}

// notDirs: loading something else as a directory is refused.
func notDirs(r *ex.Run) {
	r.Enum("non-directories are refused", ex.Opt{}, func(c *ex.Ctl) {
		b := refm.NewB(&v1)
		var k refm.Built
		switch c.Choose(5) {
		case 0:
			k = b.Leaf([]byte("x"), refm.File, true)
		case 1:
			k = b.Leaf([]byte("x"), refm.File, false)
		case 2:
			k = b.Leaf([]byte("x"), refm.Raw, false)
		case 3:
			k = b.Put(&refm.Node{Type: refm.Symlink, HasData: true, Data: []byte("x")})
		case 4:
			k = b.Put(&refm.Node{Type: refm.Metadata, HasData: true, Data: []byte("\x0a\x01x")})
		}
		s := storeOf(b)
		d, err := uio.NewDirectoryFromNode(s, getNode(c, s, k.Cid))
		if err == nil {
			c.Failf("a node that is not a directory was loaded as %T", d)
		}
	})
}

var _ = ft.TFile

func init() {
	ex.Register(&ex.Check{ID: "C15", Level: "model_checking", Run: runDir(false), Quick: 300 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C16", Level: "model_checking", Run: runDir(true), Quick: 300 * time.Second, Thorough: 50 * time.Minute})
}

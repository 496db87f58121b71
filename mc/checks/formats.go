package checks

import (
	"fmt"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// verifyFormat: every block of the file has the CID format asked for and every
// leaf is raw exactly when asked (a root that never was a leaf excepted).
func verifyFormat(c *ex.Ctl, st *env.Store, root cid.Cid, want cid.Prefix, raw, looseRoot bool) {
	var rec func(k cid.Cid)
	rec = func(k cid.Cid) {
		blk, ok := st.Raw(k)
		if !ok {
			c.Failf("block %s is not stored", k)
		}
		n, err := refm.Parse(k, blk)
		if err != nil {
			c.Failf("%v", err)
		}
		p := k.Prefix()
		leaf := len(n.Links) == 0
		if leaf && !(k.Equals(root) && looseRoot) && n.RawBlock != raw {
			c.Failf("leaf %s raw=%v, requested %v", k, n.RawBlock, raw)
		}
		if !leaf && n.RawBlock {
			c.Failf("raw inner node")
		}
		ver := want.Version
		codec := uint64(cid.DagProtobuf)
		if n.RawBlock {
			codec = cid.Raw
			ver = 1
		}
		if p.Version != ver || p.Codec != codec || p.MhType != want.MhType || want.MhLength > 0 && p.MhLength != want.MhLength {
			c.Failf("block %s has CID format %v, requested %v", k, p, want)
		}
		for _, l := range n.Links {
			rec(l.Cid)
		}
	}
	rec(root)
}

// verifyDirFormat: every node of the directory has the CID format asked for.
func verifyDirFormat(c *ex.Ctl, st *env.Store, root cid.Cid, want cid.Prefix, what string) {
	var rec func(k cid.Cid, depth int)
	rec = func(k cid.Cid, depth int) {
		blk, ok := st.Raw(k)
		if !ok {
			c.Failf("%s: block %s is not stored", what, k)
		}
		n, err := refm.Parse(k, blk)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		if p := k.Prefix(); p.Version != want.Version || p.Codec != cid.DagProtobuf || p.MhType != want.MhType || want.MhLength > 0 && p.MhLength != want.MhLength {
			c.Failf("%s: node at depth %d has CID format %v, requested %v", what, depth, p, want)
		}
		if n.Type != refm.HAMT {
			return
		}
		pad := len(fmt.Sprintf("%X", n.Fanout-1))
		for _, l := range n.Links {
			if len(l.Name) == pad {
				rec(l.Cid, depth+1)
			}
		}
	}
	rec(root, 0)
}

// fmtDir is a directory explored for its nodes' CID formats.
type fmtDir struct {
	*dirSys
	want cid.Prefix
}

func (s *fmtDir) Observe(c *ex.Ctl) {
	see := func(what string) {
		n := s.node(c)
		if err := s.st.Add(bg, n); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		verifyDirFormat(c, s.st, n.Cid(), s.want, what)
	}
	see("now")
	s.reload(c)
	see("reloaded")
	// whatever is built on top of what was loaded has it too
	for _, nm := range s.cfg.probes {
		if err := s.d.AddChild(bg, nm, s.cfg.values[0].node); err != nil {
			c.Failf("AddChild(%q): %v", nm, err)
		}
		see(fmt.Sprintf("after AddChild(%q)", short(nm)))
	}
}

func fmtDirs(r *ex.Run, pre []*cid.Prefix) {
	n := func(tag string, slots ...int) string { return slotName(8, tag, slots...) }
	a, b, d := n("a", 1, 2, 3, 4), n("b", 1, 2, 3, 5), n("d", 7)
	vals := []value{idValue("x"), mkValue(&v1, "one")}
	sz := entSize(a, vals[0].e)
	e := map[string]refm.Entry{a: vals[0].e, d: vals[1].e, n("e", 6, 1): vals[0].e}
	for i, p := range pre {
		want := v0
		if p != nil {
			want = *p
		}
		want.Codec = cid.DagProtobuf
		cfgs := []*dirCfg{
			{name: "basic", names: []string{a, d}, values: vals},
			{name: "sharded", threshold: 1, names: []string{a, b, d}, values: vals[:1]},
			{name: "switching", threshold: 2*sz + 2, names: []string{a, b, d}, values: vals[:1]},
			{name: "loaded basic, switching", threshold: sumSize(e) + 1, start: e, names: []string{a, b}, values: vals[:1]},
			{name: "loaded sharded", start: e, startHAMT: true, names: []string{a, b}, values: vals[:1]},
			{name: "loaded sharded, switching", threshold: sumSize(e) - 2, start: e, startHAMT: true, names: []string{a, b}, values: vals[:1]},
		}
		for k, cfg := range cfgs {
			if p == nil && cfg.start != nil {
				continue
			}
			cfg.flavour = (i + k) % 3
			cfg.name = fmt.Sprintf("directory, format %d: %s", i, cfg.name)
			cfg.width, cfg.prefix, cfg.few = 8, p, true
			cfg.probes = []string{n("p", 7, 1), n("q", 6, 1, 2), n("r", 1, 2, 3, 6)}
			cfg.depth = 4
			if r.Thorough() {
				cfg.depth = 30
			}
			cfg.apply()
			ops := dirOps(cfg)
			cfg := cfg
			r.BFS(cfg.name, len(ops), cfg.depth, 0, func(c *ex.Ctl) ex.System {
				return &fmtDir{newDirSys(c, cfg, ops, true), want}
			})
		}
	}
}

// dmLook is a modifier explored for something that must hold of its node.
type dmLook struct {
	*dmSys
	look func(c *ex.Ctl, s *dmSys, n ipld.Node)
}

func (s *dmLook) Observe(c *ex.Ctl) {
	n, err := s.dm.GetNode()
	if err != nil {
		c.Failf("GetNode: %v", err)
	}
	s.look(c, s.dmSys, n)
}

// lookOps is a short alphabet that reaches every way of changing the DAG.
func lookOps() []dmOp {
	return []dmOp{
		opWrite("a"), opWrite("bcdefgh"), opSync, opSeek(0, 0), opSeek(2, 0), opSeek(0, 2), opSeek(11, 0),
		opWriteAt("ij", 1), opWriteAt("k", 5), opWriteAt("lmn", 12),
		opTruncate(0), opTruncate(2), opTruncate(3), opTruncate(16),
	}
}

func lookDm(r *ex.Run, pre []*cid.Prefix, depth int, look func(f fcfg) func(c *ex.Ctl, s *dmSys, n ipld.Node)) {
	for _, p := range pre {
		for _, x := range []dmInit{
			{fcfg{trickleL, 2, 2, false, p, 0}, 0}, {fcfg{trickleL, 2, 2, true, p, 0}, 0},
			{fcfg{trickleL, 2, 2, false, p, 0}, 9}, {fcfg{trickleL, 2, 2, true, p, 0}, 9},
			{fcfg{balancedL, 4, 2, false, p, 0}, 3}, {fcfg{balancedL, 4, 2, true, p, 0}, 3},
			{fcfg{balancedL, 2, 2, false, p, 0}, 9}, {fcfg{balancedL, 2, 2, true, p, 0}, 9},
		} {
			x := x
			ops := lookOps()
			r.BFS(fmt.Sprintf("modifier on %d bytes, %v", x.size, x.f), len(ops), depth, 0, func(c *ex.Ctl) ex.System {
				return &dmLook{newDmSys(c, x.f, x.size, int64(x.f.chunk), ops), look(x.f)}
			})
		}
	}
}

var _ = uio.NewDirectory

package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
	"github.com/ipfs/go-unixfs/zzverif/sched"
)

// C17: operations of directories with faults.

const (
	ftNone   = iota
	ftFail   // the k-th storage call of the operation fails
	ftFrom   // it and all later ones fail
	ftCancel // the context is cancelled just before the k-th call
	ftKinds
)

var ftName = []string{"", "failing", "failing from", "cancelled at"}

type dfOp struct {
	name string
	// do runs the operation; ok tells that its full effect was reported.
	do func(ctx context.Context, c *ex.Ctl, s *dfSys) error
	// effect on the model, given success
	eff func(m map[string]refm.Entry)
	// want is the error the operation must give without faults
	absent  func(m map[string]refm.Entry) bool
	update  bool
	dueCall bool // no context: cancellation does not apply
}

type dfVariant struct {
	op, kind, k int
}

type dfSys struct {
	*dirSys
	ops  []dfOp
	vars []dfVariant
}

// run executes f under the default schedule.
func (s *dfSys) run(c *ex.Ctl, what string, f func()) {
	res := sched.Run(c, sched.Opt{Fixed: true, MaxSteps: 20000}, f)
	switch {
	case res.Deadlock:
		c.Failf("%s never ends: nothing can run any more", what)
	case res.Livelock:
		c.Failf("%s does not end", what)
	case res.Leak != "":
		c.Failf("%s leaves goroutines behind for ever", what)
	}
}

// tooDeep: the entries cannot be held by a sharded directory (their hashes
// agree too far).
func tooDeep(m map[string]refm.Entry, width int) bool {
	_, err := refm.NewB(nil).HAMTDir(m, width, refHash)
	return err != nil
}

func (s *dfSys) same(c *ex.Ctl, what string) {
	ls, err := s.d.Links(bg)
	if err != nil {
		c.Failf("%s: Links: %v", what, err)
	}
	if err := sameLinks(ls, s.m); err != nil {
		c.Failf("%s: %v; model %s", what, err, entStr(s.m))
	}
}

func (s *dfSys) Apply(c *ex.Ctl, opi int) {
	v := s.vars[opi]
	o := s.ops[v.op]
	what := o.name
	if v.kind != ftNone {
		what = fmt.Sprintf("%s %s storage call %d", o.name, ftName[v.kind], v.k+1)
	}
	c.Logf("%s", what)
	after := cloneEnts(s.m)
	absent := o.absent != nil && o.absent(s.m)
	if !absent && o.eff != nil {
		o.eff(after)
	}
	willBeHAMT := s.hamt
	if s.cfg.threshold > 0 && o.update {
		willBeHAMT = sumSize(after) >= s.cfg.threshold
	}
	impossible := o.update && willBeHAMT && tooDeep(after, s.cfg.width)
	attempt := func(kind, k int) (err error, calls int, hit bool) {
		s.run(c, what, func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			n := 0
			hook := func(cid.Cid) error {
				n++
				switch {
				case kind == ftFail && n == k+1, kind == ftFrom && n >= k+1:
					hit = true
					return env.ErrInjected
				case kind == ftCancel && n == k+1:
					hit = true
					cancel()
					return ctx.Err()
				}
				return nil
			}
			s.st.OnAdd, s.st.OnGet = hook, hook
			err = o.do(ctx, c, s)
			s.st.OnAdd, s.st.OnGet = nil, nil
			calls = n
		})
		s.st.OnAdd, s.st.OnGet = nil, nil
		return
	}
	settle := func(err error) {
		switch {
		case absent:
			if err == nil {
				c.Failf("%s of an absent name reports success", what)
			}
			if !errors.Is(err, os.ErrNotExist) {
				c.Failf("%s of an absent name reports %v", what, err)
			}
		case impossible:
			if err == nil {
				c.Failf("%s reports success, but the format cannot hold %s", what, entStr(after))
			}
		case err != nil:
			c.Failf("%s failed without a fault: %v", what, err)
		default:
			s.m = after
			if o.update {
				s.hamt = willBeHAMT
			}
		}
	}
	if v.kind == ftNone {
		err, _, _ := attempt(ftNone, 0)
		settle(err)
		return
	}
	err, _, hit := attempt(v.kind, v.k)
	if !hit {
		c.Skip()
	}
	if err == nil {
		// The fault was of no consequence: then the operation is done.
		c.Outcome("fault absorbed")
		settle(nil)
		return
	}
	if absent && errors.Is(err, os.ErrNotExist) {
		c.Outcome("absent all the same")
		return
	}
	if errors.Is(err, os.ErrNotExist) {
		c.Failf("%s reports %v", what, err)
	}
	c.Outcome("failed")
	// Nothing changed.
	// (Looked at on a twin: looking may load shards.)
	// The caller of this state's Observe and of every later operation checks it.
}

func (s *dfSys) Fingerprint() ex.Fp { return s.dirSys.Fingerprint() }

func (s *dfSys) Observe(c *ex.Ctl) {
	s.same(c, "now")
	all := append(append([]string{}, s.cfg.names...), s.cfg.probes...)
	for _, nm := range all {
		s.find(c, nm)
	}
	s.same(c, "after lookups")
	s.checkForm(c, "now")
	s.reload(c)
	s.checkForm(c, "reloaded")
	s.same(c, "reloaded")
}

func dfOps(cfg *dirCfg) []dfOp {
	var ops []dfOp
	for _, nm := range cfg.names {
		nm := nm
		for i, v := range cfg.values {
			v := v
			ops = append(ops, dfOp{
				name:   fmt.Sprintf("AddChild(%q,v%d)", short(nm), i),
				do:     func(ctx context.Context, c *ex.Ctl, s *dfSys) error { return s.d.AddChild(ctx, nm, v.node) },
				eff:    func(m map[string]refm.Entry) { m[nm] = v.e },
				update: true,
			})
		}
		ops = append(ops, dfOp{
			name:   fmt.Sprintf("RemoveChild(%q)", short(nm)),
			do:     func(ctx context.Context, c *ex.Ctl, s *dfSys) error { return s.d.RemoveChild(ctx, nm) },
			eff:    func(m map[string]refm.Entry) { delete(m, nm) },
			absent: func(m map[string]refm.Entry) bool { _, ok := m[nm]; return !ok },
			update: true,
		})
	}
	ops = append(ops,
		dfOp{name: "GetNode", dueCall: true, do: func(ctx context.Context, c *ex.Ctl, s *dfSys) error {
			n, err := s.d.GetNode()
			if err != nil {
				return err
			}
			want := dirNode(nil, cfg.prefix, s.m, s.hamt, cfg.width)
			if !n.Cid().Equals(want.Cid) {
				c.Failf("GetNode gives %s without an error, the canonical node of %s is %s", n.Cid(), entStr(s.m), want.Cid)
			}
			if s.hamt {
				if _, _, err := refm.HAMTEntries(s.st, n.Cid(), refHash); err != nil {
					c.Failf("GetNode reports success but the directory is not stored: %v", err)
				}
			}
			return nil
		}},
		dfOp{name: "reload", dueCall: true, do: func(ctx context.Context, c *ex.Ctl, s *dfSys) error {
			n, err := s.d.GetNode()
			if err != nil {
				return err
			}
			if err := s.st.Add(ctx, n); err != nil {
				return err
			}
			nd, err := s.st.Get(ctx, n.Cid())
			if err != nil {
				return err
			}
			d, err := uio.NewDirectoryFromNode(s.st, nd)
			if err != nil {
				return err
			}
			s.d = d
			return nil
		}},
		dfOp{name: "Links", do: func(ctx context.Context, c *ex.Ctl, s *dfSys) error {
			ls, err := s.d.Links(ctx)
			if err == nil {
				if e := sameLinks(ls, s.m); e != nil {
					c.Failf("Links reports no error: %v; model %s", e, entStr(s.m))
				}
			}
			return err
		}},
		dfOp{name: "ForEachLink", do: func(ctx context.Context, c *ex.Ctl, s *dfSys) error {
			var ls []*ipld.Link
			err := s.d.ForEachLink(ctx, func(l *ipld.Link) error {
				cp := *l
				ls = append(ls, &cp)
				return nil
			})
			if err == nil {
				if e := sameLinks(ls, s.m); e != nil {
					c.Failf("ForEachLink reports no error: %v; model %s", e, entStr(s.m))
				}
			}
			return err
		}},
	)
	for _, nm := range append(append([]string{}, cfg.names[:1]...), cfg.probes...) {
		nm := nm
		ops = append(ops, dfOp{name: fmt.Sprintf("Find(%q)", short(nm)), absent: func(m map[string]refm.Entry) bool { _, ok := m[nm]; return !ok },
			do: func(ctx context.Context, c *ex.Ctl, s *dfSys) error {
				n, err := s.d.Find(ctx, nm)
				if err == nil {
					e, ok := s.m[nm]
					if !ok {
						c.Failf("Find(%q) gives %s, there is no such entry", nm, n.Cid())
					}
					if !n.Cid().Equals(e.Cid) {
						c.Failf("Find(%q) gives %s, want %s", nm, n.Cid(), e.Cid)
					}
				}
				return err
			}})
	}
	return ops
}

func dfCfgs(thorough bool) []*dirCfg {
	var out []*dirCfg
	add := func(c *dirCfg) { out = append(out, c) }
	n := func(tag string, slots ...int) string { return slotName(8, tag, slots...) }
	a, b, c, d := n("a", 1, 2, 3), n("bb", 1, 2, 4), n("cccc", 1, 5), n("d", 7)
	vals := []value{mkValue(&v1, "one"), idValue("x")}
	probe := n("p", 1, 2, 3)
	e := map[string]refm.Entry{a: vals[0].e, b: vals[1].e, d: vals[0].e}
	e2 := map[string]refm.Entry{a: vals[0].e, b: vals[0].e, c: vals[0].e, n("e", 6, 1): vals[0].e, n("f", 6, 2): vals[0].e}
	sz := sumSize(map[string]refm.Entry{a: vals[0].e})
	add(&dirCfg{name: "basic", width: 8, prefix: &v1, names: []string{a, d}, values: vals, probes: []string{probe}})
	add(&dirCfg{name: "basic, loaded", width: 8, prefix: &v0, names: []string{a, c}, values: vals[:1], probes: []string{d}, start: e})
	add(&dirCfg{name: "sharded, loaded", width: 8, prefix: &v1, names: []string{a, c}, values: vals, probes: []string{d, probe}, start: e, startHAMT: true})
	add(&dirCfg{name: "sharded, loaded, deeper", width: 8, prefix: &v1, names: []string{a, c}, values: vals[:1], probes: []string{b}, start: e2, startHAMT: true})
	add(&dirCfg{name: "sharded, new", threshold: 1, width: 8, prefix: &v1, names: []string{a, b, c}, values: vals[:1], probes: []string{probe}})
	add(&dirCfg{name: "switching", threshold: 2 * sz, width: 8, prefix: &v1, names: []string{a, b, d}, values: vals[:1], probes: []string{probe}})
	add(&dirCfg{name: "switching, two values", threshold: sz + 10, width: 8, prefix: &v1, names: []string{a, b}, values: vals, probes: []string{probe}})
	add(&dirCfg{name: "switching, loaded", threshold: sumSize(e2) - sz/2, width: 8, prefix: &v1, names: []string{a, c}, values: vals, probes: []string{b}, start: e2, startHAMT: true})
	// names the format cannot hold together
	x, y, z := "0102030405060708!x", "0102030405060708!y", "0102030405060709!z"
	w := n("w", 0, 0, 4)
	add(&dirCfg{name: "equal hashes, sharded", threshold: 1, width: 8, prefix: &v1, names: []string{x, y, w}, values: vals[:1], probes: []string{z}})
	add(&dirCfg{name: "equal hashes, switching", threshold: 2*sz + sz/2, width: 8, prefix: &v1, names: []string{x, y, w}, values: vals[:1], probes: []string{z}})
	add(&dirCfg{name: "hashes equal but for the last bit", threshold: 1, width: 8, prefix: &v1, names: []string{x, z, w}, values: vals[:1], probes: []string{y}})
	add(&dirCfg{name: "equal hashes, wide", threshold: 1, width: 256, prefix: &v1, names: []string{x, z, y}, values: vals[:1], probes: []string{w}})
	for _, c := range out {
		c.depth = 4
		if thorough {
			c.depth = 40
		}
	}
	return out
}

func runC17(r *ex.Run) {
	cfgs := dfCfgs(r.Thorough())
	for i, cfg := range cfgs {
		r.Share(len(cfgs)-i, 2.5)
		cfg.apply()
		ops := dfOps(cfg)
		var vars []dfVariant
		maxk := 6
		if r.Thorough() {
			maxk = 12
		}
		for o := range ops {
			vars = append(vars, dfVariant{o, ftNone, 0})
		}
		for o := range ops {
			for kind := ftFail; kind < ftKinds; kind++ {
				if kind == ftCancel && ops[o].dueCall || kind == ftFrom && !r.Thorough() {
					continue
				}
				for k := 0; k < maxk; k++ {
					vars = append(vars, dfVariant{o, kind, k})
				}
			}
		}
		cfg := cfg
		r.BFS(cfg.name, len(vars), cfg.depth, 0, func(c *ex.Ctl) ex.System {
			ds := newDirSys(c, cfg, nil, true)
			return &dfSys{dirSys: ds, ops: ops, vars: vars}
		})
	}
	r.Share(0, 0)
}

func init() {
	ex.Register(&ex.Check{ID: "C17", Level: "fault_enumeration", Run: runC17, Quick: 200 * time.Second, Thorough: 50 * time.Minute})
}

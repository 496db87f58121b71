package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// notFound: the error says that there is no such entry.
func notFound(err error) bool {
	return errors.Is(err, os.ErrNotExist) || errors.Is(err, dag.ErrLinkNotFound)
}

// getterOnly hides everything but fetching.
type getterOnly struct{ s *env.Store }

func (g getterOnly) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) { return g.s.Get(ctx, c) }
func (g getterOnly) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	return g.s.GetMany(ctx, cs)
}

// resolveNames: entries that share slots to several depths, look like link
// names of shards, extend one another.
func resolveNames(width int) (names, probes []string) {
	n := func(tag string, slots ...int) string { return slotName(width, tag, slots...) }
	pad := len(fmt.Sprintf("%X", width-1))
	link := func(slot int, s string) string { return fmt.Sprintf("%0*X", pad, slot) + s }
	a, b, c := n("a", 1, 2, 3), n("ab", 1, 2, 3, 4), n("b", 1, 2, 5)
	d := n("a", 1, 6)
	names = []string{a, b, c, d, link(1, ""), "plain", "plain.txt", "0"}
	probes = append(probes, names...)
	for _, x := range []string{a, d, "plain"} {
		probes = append(probes, x+"x", x[:len(x)-1], x+"/", "/"+x, link(1, x), link(0, x), x+"\x00", " "+x)
	}
	probes = append(probes, "", link(0, ""), link(1, ""), link(1, "")+link(2, ""), link(width-1, ""), "P", ".", "..", n("zz", 1, 2, 3), n("a", 2, 2, 3), "Links", "Data", "1", "-1")
	return
}

func runC18(r *ex.Run) {
	vals := []value{idValue("x"), mkValue(&v1, "one"), mkRawValue("raw")}
	widths := []int{8, 16, 256}
	for _, width := range widths {
		names, probes := resolveNames(width)
		if !r.Thorough() && width == 16 {
			names = names[:6]
		}
		for _, isHAMT := range []bool{false, true} {
			isHAMT := isHAMT
			width := width
			// The directories, once.
			type made struct {
				ents map[string]refm.Entry
				root cid.Cid
				st   *env.Store
			}
			var dirs []made
			for set := 0; set < 1<<uint(len(names)); set++ {
				m := made{ents: map[string]refm.Entry{}, st: env.NewStore()}
				for i, nm := range names {
					if set>>uint(i)&1 == 1 {
						m.ents[nm] = vals[i%len(vals)].e
					}
				}
				m.root = dirNode(m.st, []*cid.Prefix{&v0, &v1}[set&1], m.ents, isHAMT, width).Cid
				dirs = append(dirs, m)
			}
			form := "basic"
			if isHAMT {
				form = "sharded"
			}
			r.Enum(fmt.Sprintf("%s, fan-out %d", form, width), ex.Opt{Deviations: 2}, func(c *ex.Ctl) {
				m := dirs[c.Choose(len(dirs))]
				q := probes[c.Choose(len(probes))]
				path := []string{q, "rest", q}[:1+c.Choose(3)]
				st := m.st.Clone()
				fault := false
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				st.OnGet = func(k cid.Cid) error {
					switch c.Deviate(4) {
					case 1:
						fault = true
						return env.ErrInjected
					case 2:
						fault = true
						return ipld.ErrNotFound
					case 3:
						fault = true
						cancel()
						return ctx.Err()
					}
					return nil
				}
				nd, err := env.Decode(m.root, mustRaw(m.st, m.root))
				if err != nil {
					panic(fmt.Sprintf("harness: %v", err))
				}
				c.Logf("%s width %d %s: resolve %q", form, width, entStr(m.ents), path)
				in := append([]string{}, path...)
				lnk, rest, err := uio.ResolveUnixfsOnce(ctx, getterOnly{st}, nd, in)
				c.Step()
				if fault {
					c.Logf("with a fault")
				}
				checkResolved(c, m.ents, path, lnk, rest, err, fault)
				c.State(ex.FpBytes([]byte(fmt.Sprint(form, width, entStr(m.ents), q))))
			})
		}
	}
	scaleResolve(r)
	otherNodes(r, vals)
}

func mustRaw(s *env.Store, k cid.Cid) []byte {
	b, ok := s.Raw(k)
	if !ok {
		panic("harness: block is not there")
	}
	return b
}

func checkResolved(c *ex.Ctl, ents map[string]refm.Entry, path []string, lnk *ipld.Link, rest []string, err error, fault bool) {
	e, ok := ents[path[0]]
	switch {
	case err != nil && fault:
		if notFound(err) {
			c.Failf("a failed fetch is reported as %v", err)
		}
	case ok && err != nil:
		c.Failf("resolving %q fails: %v, it is an entry", path[0], err)
	case !ok && err == nil:
		c.Failf("resolving %q gives %v, there is no such entry", path[0], lnk.Cid)
	case !ok:
		if !notFound(err) {
			c.Failf("resolving the absent %q reports %v", path[0], err)
		}
	default:
		if lnk == nil || !lnk.Cid.Equals(e.Cid) || lnk.Size != e.Tsize {
			c.Failf("resolving %q gives %+v, want %s/%d", path[0], lnk, e.Cid, e.Tsize)
		}
		if len(rest) != len(path)-1 {
			c.Failf("resolving %q leaves %q", path, rest)
		}
		for i, s := range rest {
			if s != path[i+1] {
				c.Failf("resolving %q leaves %q", path, rest)
			}
		}
	}
}

// otherNodes: everything that is not a directory resolves by link name.
func otherNodes(r *ex.Run, vals []value) {
	names := []string{"a", "ab", "00", "00a", ""}
	r.Enum("other nodes", ex.Opt{}, func(c *ex.Ctl) {
		kind := c.Choose(6)
		ents := map[string]refm.Entry{}
		set := c.Choose(1 << uint(len(names)))
		n := &refm.Node{Type: refm.File, HasSize: true}
		for i, nm := range names {
			if set>>uint(i)&1 == 1 {
				e := vals[i%len(vals)].e
				ents[nm] = e
				n.Links = append(n.Links, refm.Link{Name: nm, Cid: e.Cid, Tsize: e.Tsize})
			}
		}
		b := refm.NewB(&v1)
		st := env.NewStore()
		var nd ipld.Node
		switch kind {
		case 0, 1: // files, symlinks
			if kind == 1 {
				n.Type = refm.Symlink
			}
			k := b.Put(n)
			st.PutAll(b.Blocks)
			nd = getNode(c, st, k.Cid)
		case 2: // no UnixFS inside
			pn := dag.NodeWithData([]byte("nothing to see"))
			for _, l := range n.Links {
				_ = pn.AddRawLink(l.Name, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Tsize})
			}
			nd = pn
		case 3: // no data at all
			pn := dag.NodeWithData(nil)
			for _, l := range n.Links {
				_ = pn.AddRawLink(l.Name, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Tsize})
			}
			nd = pn
		case 4:
			nd = dag.NewRawNode([]byte("raw"))
			ents = nil
			if set != 0 {
				c.Skip()
			}
		case 5: // a directory given as something newly made
			pn := dag.NodeWithData((&refm.Node{Type: refm.Directory}).EncodeUnixfs())
			for _, l := range n.Links {
				_ = pn.AddRawLink(l.Name, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Tsize})
			}
			nd = pn
		}
		q := append(append([]string{}, names...), "b", "abc", "0", "a/b")
		path := []string{q[c.Choose(len(q))], "rest", "more"}[:1+c.Choose(3)]
		c.Logf("node kind %d %s: resolve %q", kind, entStr(ents), path)
		lnk, rest, err := uio.ResolveUnixfsOnce(bg, getterOnly{st}, nd, append([]string{}, path...))
		c.Step()
		checkResolved(c, ents, path, lnk, rest, err, false)
	})
	r.Enum("no segment left", ex.Opt{}, func(c *ex.Ctl) {
		st := env.NewStore()
		ents := map[string]refm.Entry{}
		if c.Bool() {
			ents["a"] = vals[0].e
		}
		k := dirNode(st, &v1, ents, c.Bool(), 8)
		var path []string
		if c.Bool() {
			path = []string{}
		}
		if lnk, _, err := uio.ResolveUnixfsOnce(bg, getterOnly{st}, getNode(c, st, k.Cid), path); err == nil {
			c.Failf("resolving an empty path gives %v", lnk)
		}
	})
}

func init() {
	ex.Register(&ex.Check{ID: "C18", Level: "fault_enumeration", Run: runC18, Quick: 120 * time.Second, Thorough: 20 * time.Minute})
}

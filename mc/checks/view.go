package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
	"github.com/ipfs/go-unixfs/zzverif/sched"
	"github.com/ipfs/go-unixfs/zzverif/zz"
)

// vt is a tree to be viewed.
type vt struct {
	kind int
	data []byte
	f    fcfg
	kids map[string]*vt
	// once built
	b refm.Built
}

const (
	vFile   = iota // imported with f
	vRawPB         // a UnixFS raw node
	vMeta          // metadata around a file
	vLink          // symlink
	vBasic         // directory
	vHamt          // sharded directory
	vInline        // a File node without size fields set beyond its data
)

func (t *vt) String() string {
	switch t.kind {
	case vFile:
		return fmt.Sprintf("file(%q %v)", clip(t.data), t.f)
	case vRawPB:
		return fmt.Sprintf("rawnode(%q)", t.data)
	case vMeta:
		return fmt.Sprintf("metadata(%q)", t.data)
	case vLink:
		return fmt.Sprintf("symlink(%q)", t.data)
	case vInline:
		return fmt.Sprintf("inline(%q)", t.data)
	}
	var ks []string
	for k, c := range t.kids {
		ks = append(ks, fmt.Sprintf("%q:%v", k, c))
	}
	sort.Strings(ks)
	return []string{vBasic: "dir", vHamt: "sharded"}[t.kind] + "{" + strings.Join(ks, " ") + "}"
}

const vWidth = 8

func (t *vt) build(b *refm.B) refm.Built {
	switch t.kind {
	case vFile:
		ch := chunksOf(t.data, t.f.chunk)
		if t.f.layout == trickleL {
			t.b = b.Trickle(ch, t.f.maxlinks, t.f.raw)
		} else {
			t.b = b.Balanced(ch, t.f.maxlinks, t.f.raw)
		}
	case vRawPB:
		t.b = b.Leaf(t.data, refm.Raw, false)
	case vInline:
		t.b = b.Put(&refm.Node{Type: refm.File, HasData: true, Data: t.data, HasSize: true, FileSize: uint64(len(t.data))})
	case vMeta:
		k := b.Balanced(chunksOf(t.data, 2), 2, false)
		t.b = b.Put(&refm.Node{Type: refm.Metadata, HasData: true, Data: []byte("\x0a\x01m"), Links: []refm.Link{{Name: "", Cid: k.Cid, Tsize: k.Tsize}}})
	case vLink:
		t.b = b.Put(&refm.Node{Type: refm.Symlink, HasData: true, Data: t.data})
	default:
		ents := map[string]refm.Entry{}
		for k, c := range t.kids {
			x := c.build(b)
			ents[k] = refm.Entry{Cid: x.Cid, Tsize: x.Tsize}
		}
		if t.kind == vHamt {
			var err error
			if t.b, err = b.HAMTDir(ents, vWidth, refHash); err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
		} else {
			t.b = b.BasicDir(ents)
		}
	}
	return t.b
}

// errSeen wraps an error the view reported.
type errSeen struct{ err error }

// look compares a view with the tree; the first error it reports ends it.
func (t *vt) look(c *ex.Ctl, n files.Node, faulty bool, twice bool) (rep *errSeen) {
	sz, err := n.Size()
	if err != nil {
		c.Failf("Size of %v: %v", t, err)
	}
	if err != nil && !faulty {
		c.Failf("%v: Size: %v", t, err)
	}
	switch x := n.(type) {
	case *files.Symlink:
		if t.kind != vLink {
			c.Failf("%v is seen as a symlink", t)
		}
		if x.Target != string(t.data) {
			c.Failf("%v is seen with target %q", t, x.Target)
		}
		if sz != int64(len(t.data)) {
			c.Failf("%v has size %d", t, sz)
		}
	case files.Directory:
		if t.kind != vBasic && t.kind != vHamt {
			c.Failf("%v is seen as a directory", t)
		}
		if sz != int64(t.b.Tsize) {
			c.Failf("%v has size %d, its cumulative size is %d", t, sz, t.b.Tsize)
		}
		rounds := 1
		if twice {
			rounds = 2
		}
		for i := 0; i < rounds; i++ {
			seen := map[string]bool{}
			it := x.Entries()
			for {
				zz.Point("consumer")
				ok := it.Next()
				zz.Woke()
				if !ok {
					break
				}
				if err := it.Err(); err != nil {
					c.Failf("%v: Next succeeded but Err is %v", t, err)
				}
				k, ok := t.kids[it.Name()]
				if !ok {
					c.Failf("%v: entry %q is not there", t, it.Name())
				}
				if seen[it.Name()] {
					c.Failf("%v: entry %q seen twice", t, it.Name())
				}
				seen[it.Name()] = true
				if it.Node() == nil {
					c.Failf("%v: entry %q has no node", t, it.Name())
				}
				if rep := k.look(c, it.Node(), faulty, twice); rep != nil {
					return rep
				}
			}
			if err := it.Err(); err != nil {
				if !faulty {
					c.Failf("%v: listing fails: %v", t, err)
				}
				if it.Next() || it.Err() == nil {
					c.Failf("%v: after the error %v the iteration goes on (Err %v)", t, err, it.Err())
				}
				return &errSeen{err}
			}
			if len(seen) != len(t.kids) {
				for k := range t.kids {
					if !seen[k] {
						c.Failf("%v: the listing ends without error and without %q", t, k)
					}
				}
			}
			if it.Next() {
				c.Failf("%v: Next succeeds after the end", t)
			}
		}
	case files.File:
		if t.kind == vLink || t.kind == vBasic || t.kind == vHamt {
			c.Failf("%v is seen as a file", t)
		}
		if sz != int64(len(t.data)) {
			c.Failf("%v has size %d", t, sz)
		}
		got, err := io.ReadAll(x)
		if err != nil {
			if !faulty {
				c.Failf("%v: reading: %v", t, err)
			}
			if !bytes.HasPrefix(t.data, got) {
				c.Failf("%v: reads %q before failing", t, got)
			}
			return &errSeen{err}
		}
		if !bytes.Equal(got, t.data) {
			c.Failf("%v: reads %q without an error", t, got)
		}
		if len(t.data) > 1 && !faulty { // and it seeks
			if _, err := x.Seek(1, io.SeekStart); err != nil {
				c.Failf("%v: seek: %v", t, err)
			}
			if got, err = io.ReadAll(x); err != nil || !bytes.Equal(got, t.data[1:]) {
				c.Failf("%v: reads %q (%v) after a seek to 1", t, got, err)
			}
		}
	default:
		c.Failf("%v is seen as %T", t, n)
	}
	_ = n.Close()
	return nil
}

// rebuild writes the view out again, with the tree's own settings.
func (t *vt) rebuild(c *ex.Ctl, n files.Node, st *env.Store, p cid.Prefix) ipld.Node {
	var out ipld.Node
	switch x := n.(type) {
	case *files.Symlink:
		d, err := ft.SymlinkData(x.Target)
		if err != nil {
			c.Failf("SymlinkData: %v", err)
		}
		pn := dag.NodeWithData(d)
		pn.SetCidBuilder(p)
		out = pn
	case files.Directory:
		uio.HAMTShardingSize = 0 // (set once, before anything runs)
		d := uio.NewDirectory(st)
		if t.kind == vHamt {
			en := refm.NewB(&p)
			k, err := en.HAMTDir(nil, vWidth, refHash)
			if err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			nd, err := env.Decode(k.Cid, mustRawB(en, k.Cid))
			if err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			if d, err = uio.NewDirectoryFromNode(st, nd); err != nil {
				c.Failf("loading an empty sharded directory: %v", err)
			}
		}
		d.SetCidBuilder(p)
		it := x.Entries()
		for it.Next() {
			k := t.kids[it.Name()].rebuild(c, it.Node(), st, p)
			if err := d.AddChild(bg, it.Name(), k); err != nil {
				c.Failf("AddChild(%q): %v", it.Name(), err)
			}
		}
		if it.Err() != nil {
			c.Failf("listing: %v", it.Err())
		}
		var err error
		if out, err = d.GetNode(); err != nil {
			c.Failf("GetNode: %v", err)
		}
	case files.File:
		data, err := io.ReadAll(x)
		if err != nil {
			c.Failf("reading: %v", err)
		}
		f := t.f
		f.prefix = &p
		if out, err = importFile(st, f, data); err != nil {
			c.Failf("importing %q: %v", data, err)
		}
	}
	if err := st.Add(bg, out); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return out
}

func mustRawB(b *refm.B, k cid.Cid) []byte {
	x, ok := b.Raw(k)
	if !ok {
		panic("harness: block is not there")
	}
	return x
}

var vNames = []string{slotName(vWidth, "a", 1, 2, 3), slotName(vWidth, "b", 1, 2, 4), "00", slotName(vWidth, "c", 1, 5)}

// vLeaves are the childless kinds of nodes.
func vLeaves(rich bool) []func() *vt {
	fl := func(n int, f fcfg) func() *vt { return func() *vt { return &vt{kind: vFile, data: pat(n), f: f} } }
	sl := func(k int, s string) func() *vt { return func() *vt { return &vt{kind: k, data: []byte(s)} } }
	out := []func() *vt{
		fl(0, fcfg{layout: balancedL, chunk: 2, maxlinks: 2}),
		fl(3, fcfg{layout: balancedL, chunk: 4, maxlinks: 2, raw: true}),
		fl(7, fcfg{layout: balancedL, chunk: 2, maxlinks: 2}),
		sl(vLink, "../x"),
	}
	if rich {
		out = append(out,
			fl(1, fcfg{layout: balancedL, chunk: 4, maxlinks: 2}),
			fl(9, fcfg{layout: balancedL, chunk: 2, maxlinks: 2, raw: true}),
			fl(8, fcfg{layout: trickleL, chunk: 2, maxlinks: 2}),
			fl(0, fcfg{layout: trickleL, chunk: 2, maxlinks: 2}),
			sl(vRawPB, "rawpb"), sl(vMeta, "meta data"), sl(vLink, ""), sl(vInline, "in"),
		)
	}
	return out
}

// pickTree chooses a tree of at most *left nodes.
func pickTree(c *ex.Ctl, left *int, depth int, leaves []func() *vt) *vt {
	*left--
	n := len(leaves)
	if depth > 0 {
		n += 2
	}
	k := c.Choose(n)
	if k < len(leaves) {
		return leaves[k]()
	}
	t := &vt{kind: vBasic + k - len(leaves), kids: map[string]*vt{}}
	for i := 0; i < len(vNames) && *left > 0; i++ {
		if c.Bool() {
			t.kids[vNames[i]] = pickTree(c, left, depth-1, leaves)
		}
	}
	return t
}

func (t *vt) anyKind(k int) bool {
	if t.kind == k {
		return true
	}
	for _, c := range t.kids {
		if c.anyKind(k) {
			return true
		}
	}
	return false
}

func (t *vt) store(p *cid.Prefix) *env.Store {
	b := refm.NewB(p)
	t.build(b)
	return storeOf(b)
}

func runC19(r *ex.Run) {
	uio.HAMTShardingSize = 0
	uio.DefaultShardWidth = vWidth
	trees := func(name string, size, depth int, leaves []func() *vt) {
		r.Enum(name, ex.Opt{}, func(c *ex.Ctl) {
			left := size
			t := pickTree(c, &left, depth, leaves)
			c.Logf("%v", t)
			p := v1
			st := t.store(&p)
			nd := getNode(c, st, t.b.Cid)
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			v, err := unixfile.NewUnixfsFile(ctx, st, nd)
			if err != nil {
				c.Failf("%v: %v", t, err)
			}
			c.Step()
			t.look(c, v, false, true)
			if !t.anyKind(vRawPB) && !t.anyKind(vMeta) && !t.anyKind(vInline) {
				if v, err = unixfile.NewUnixfsFile(ctx, st, getNode(c, st, t.b.Cid)); err != nil {
					c.Failf("%v: %v", t, err)
				}
				out := t.rebuild(c, v, env.NewStore(), p)
				if !out.Cid().Equals(t.b.Cid) {
					c.Failf("%v written out and imported again is %s, was %s", t, out.Cid(), t.b.Cid)
				}
			}
			c.State(ex.FpBytes([]byte(t.b.Cid.KeyString())))
		})
	}
	if r.Thorough() {
		trees("trees of every kind of node", 4, 2, vLeaves(true))
		trees("deep trees", 6, 4, vLeaves(false)[1:])
	} else {
		trees("trees of every kind of node", 3, 2, vLeaves(true))
		trees("deep trees", 5, 3, vLeaves(false)[2:])
	}
	scaleTrees(r)
	// A fetch that fails, at every place of every tree.
	size := 4
	if r.Thorough() {
		size = 5
	}
	const (
		fInject = 1 + iota
		fMissing
		fGarbage
		fCancel
	)
	r.Share(2, 1)
	r.Enum("failing fetches", ex.Opt{Deviations: 1}, func(c *ex.Ctl) {
		left := size
		t := pickTree(c, &left, 2, vLeaves(false))
		if t.kind < vBasic && t.kind != vFile || len(t.kids) == 0 && t.kind >= vBasic {
			c.Skip()
		}
		c.Logf("%v", t)
		st := t.store(&v1)
		nd := getNode(c, st, t.b.Cid)
		faulty := false
		var rep *errSeen
		wRun(c, sched.Opt{Fixed: true}, "viewing", func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			st.OnGet = func(k cid.Cid) error {
				switch c.Deviate(5) {
				case fInject:
					faulty = true
					return env.ErrInjected
				case fMissing:
					faulty = true
					return ipld.ErrNotFound
				case fGarbage:
					faulty = true
					return errors.New("malformed block")
				case fCancel:
					faulty = true
					cancel()
					return ctx.Err()
				}
				return nil
			}
			v, err := unixfile.NewUnixfsFile(ctx, st, nd)
			if err != nil {
				rep = &errSeen{err}
				return
			}
			rep = t.look(c, v, true, false)
		})
		c.Step()
		switch {
		case rep != nil && !faulty:
			c.Failf("%v: viewing fails without a fault: %v", t, rep.err)
		case rep != nil:
			c.Outcome("error")
		case faulty:
			c.Outcome("absorbed")
		default:
			c.Outcome("whole")
		}
		c.State(ex.FpBytes([]byte(t.b.Cid.KeyString())))
	})
	r.Enum("undecodable children", ex.Opt{}, func(c *ex.Ctl) {
		left := size
		t := pickTree(c, &left, 2, vLeaves(false))
		var all []*vt
		var rec func(x *vt)
		rec = func(x *vt) {
			var ks []string
			for k := range x.kids {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				all = append(all, x.kids[k])
				rec(x.kids[k])
			}
		}
		rec(t)
		if len(all) == 0 {
			c.Skip()
		}
		st := t.store(&v1)
		bad := all[c.Choose(len(all))]
		if bad.b.Cid.Type() != cid.DagProtobuf {
			c.Skip()
		}
		// valid dag-pb, not valid UnixFS; not dag-pb at all
		junk := [][]byte{dag.NodeWithData([]byte("\xff\xff")).RawData(), dag.NodeWithData(nil).RawData(), []byte("\xff\xff\xff")}[c.Choose(3)]
		st.Put(bad.b.Cid, junk)
		nd := getNode(c, st, t.b.Cid)
		c.Logf("%v with an undecodable %v", t, bad)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		v, err := unixfile.NewUnixfsFile(ctx, st, nd)
		if err != nil {
			c.Failf("%v: %v", t, err)
		}
		c.Step()
		if rep := t.look(c, v, true, false); rep == nil {
			c.Failf("%v with an undecodable %v is seen whole", t, bad)
		}
	})
	// Schedules.
	dev := 3
	if r.Thorough() {
		dev = 5
	}
	sched1 := func(name string, kind int, n int, dev int, sub bool) {
		r.Enum(fmt.Sprintf("schedules: %s (%d deviations)", name, dev), ex.Opt{Deviations: dev}, func(c *ex.Ctl) {
			t := &vt{kind: kind, kids: map[string]*vt{}}
			for i := 0; i < n; i++ {
				t.kids[slotName(vWidth, fmt.Sprint(i), i%3, i)] = &vt{kind: vFile, data: pat(i), f: fcfg{layout: balancedL, chunk: 8, maxlinks: 2, raw: true}}
			}
			if sub {
				t.kids["sub"] = &vt{kind: vHamt, kids: map[string]*vt{"x": {kind: vLink, data: []byte("t")}, "y": {kind: vBasic}}}
			}
			st := t.store(&v1)
			nd := getNode(c, st, t.b.Cid)
			stop := c.Choose(n+3) - 1 // leave after so many entries; -1: go on to the end
			if !sub && stop > n {
				c.Skip()
			}
			failed := false
			var rep *errSeen
			left := false
			wRun(c, sched.Opt{}, "viewing", func() {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				st.OnGet = func(k cid.Cid) error {
					if stop == -1 && c.Deviate(2) == 1 {
						failed = true
						return env.ErrInjected
					}
					return nil
				}
				v, err := unixfile.NewUnixfsFile(ctx, st, nd)
				if err != nil {
					c.Failf("%v: %v", t, err)
				}
				if stop == -1 {
					rep = t.look(c, v, true, false)
					return
				}
				// cancel on the way: no more than right entries, and an error
				// unless it was complete
				it := v.(files.Directory).Entries()
				seen := map[string]bool{}
				for {
					if len(seen) == stop && !left {
						left = true
						zz.Point("cancel")
						cancel()
					}
					zz.Point("consumer")
					if !it.Next() {
						break
					}
					k, ok := t.kids[it.Name()]
					if !ok || seen[it.Name()] {
						c.Failf("%v: %q listed", t, it.Name())
					}
					_ = k
					seen[it.Name()] = true
				}
				if it.Err() == nil && len(seen) != len(t.kids) {
					c.Failf("cancelled after %d entries, the iteration ends after %d of %d without an error", stop, len(seen), len(t.kids))
				}
				if it.Err() != nil && !left {
					c.Failf("listing fails: %v", it.Err())
				}
			})
			c.Step()
			if rep != nil && !failed {
				c.Failf("viewing fails without a fault: %v", rep.err)
			}
		})
	}
	sched1("basic directory", vBasic, 6, dev, false)
	sched1("sharded directory", vHamt, 6, dev, false)
	sched1("small sharded directory", vHamt, 3, dev+1, false)
	sched1("basic directory with one below", vBasic, 2, dev, true)
	sched1("sharded directory with one below", vHamt, 3, dev, true)
}

func init() {
	ex.Register(&ex.Check{ID: "C19", Level: "fault_enumeration", Run: runC19, Quick: 200 * time.Second, Thorough: 40 * time.Minute})
}

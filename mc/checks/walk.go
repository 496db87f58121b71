package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
	"github.com/ipfs/go-unixfs/zzverif/sched"
	"github.com/ipfs/go-unixfs/zzverif/zz"
)

// wShape is a directory to enumerate: entries in storage, then operations that
// bring some of it into memory or change it there.
type wShape struct {
	name   string
	width  int
	stored []string
	prep   func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry)
	big    bool // costly: fewer deviations
}

func wVals() []value { return []value{idValue("x"), mkValue(&v1, "one")} }

func wSet(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry, name string, v value) {
	if err := sh.Set(bg, name, v.node); err != nil {
		c.Failf("Set(%q): %v", name, err)
	}
	m[name] = v.e
}

func wRemove(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry, name string) {
	if err := sh.Remove(bg, name); err != nil {
		c.Failf("Remove(%q): %v", name, err)
	}
	delete(m, name)
}

func wFind(c *ex.Ctl, sh *hamt.Shard, name string) {
	if _, err := sh.Find(bg, name); err != nil {
		c.Failf("Find(%q): %v", name, err)
	}
}

func wShapes() []*wShape {
	n := func(tag string, slots ...int) string { return slotName(8, tag, slots...) }
	a1, a2 := n("a1", 1, 2), n("a2", 1, 5)
	b1, b2 := n("b1", 3, 0), n("b2", 3, 7)
	c1, c2, c3 := n("c1", 6, 1, 1), n("c2", 6, 1, 4), n("c3", 6, 3)
	d := n("d", 7)
	v := wVals()
	return []*wShape{
		{name: "empty", width: 8},
		{name: "one shard", width: 8, stored: []string{a1, d}},
		{name: "one child shard", width: 8, stored: []string{a1, a2, d}},
		{name: "two child shards", width: 8, stored: []string{a1, a2, b1, b2}},
		{name: "two child shards, one in memory", width: 8, stored: []string{a1, a2, b1, b2}, prep: func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry) {
			wFind(c, sh, a1)
		}},
		{name: "nested", width: 8, stored: []string{c1, c2, c3, d}},
		{name: "nested, half in memory", width: 8, stored: []string{c1, c2, c3, a1, a2}, prep: func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry) {
			wFind(c, sh, c3)
		}},
		{name: "changed in memory", width: 8, stored: []string{c1, c2, c3, a1, a2}, prep: func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry) {
			wSet(c, sh, m, d, v[1])
			wSet(c, sh, m, a1, v[1])
			wRemove(c, sh, m, c1)
		}},
		{name: "never stored", width: 8, prep: func(c *ex.Ctl, sh *hamt.Shard, m map[string]refm.Entry) {
			for _, k := range []string{c1, c2, c3, b1, b2} {
				wSet(c, sh, m, k, v[0])
			}
		}},
		{name: "three child shards and values, fan-out 16", width: 16, big: true, stored: []string{
			slotName(16, "a1", 1, 2), slotName(16, "a2", 1, 3), slotName(16, "b1", 9, 2), slotName(16, "b2", 9, 3),
			slotName(16, "c1", 14, 2), slotName(16, "c2", 14, 3), slotName(16, "d", 15)}},
	}
}

// wDir is a prepared directory.
type wDir struct {
	st   *env.Store
	sh   *hamt.Shard
	d    uio.Directory // when asked for through the Directory interface
	m    map[string]refm.Entry
	kids []string // keys of stored non-root shard blocks
}

func (w *wShape) ents() map[string]refm.Entry {
	v := wVals()
	m := map[string]refm.Entry{}
	for i, k := range w.stored {
		m[k] = v[i%len(v)].e
	}
	return m
}

func (w *wShape) build(c *ex.Ctl) *wDir {
	r := &wDir{st: env.NewStore()}
	for _, x := range wVals() {
		_ = r.st.Add(bg, x.node)
	}
	r.m = w.ents()
	b := refm.NewB(&v1)
	root, err := b.HAMTDir(r.m, w.width, refHash)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	r.st.PutAll(b.Blocks)
	for k := range b.Blocks {
		if k != root.Cid.KeyString() {
			r.kids = append(r.kids, k)
		}
	}
	sort.Strings(r.kids)
	if len(w.stored) == 0 {
		r.sh, err = hamt.NewShard(r.st, w.width)
	} else {
		r.sh, err = hamt.NewHamtFromDag(r.st, getNode(c, r.st, root.Cid))
	}
	if err != nil {
		c.Failf("loading: %v", err)
	}
	if w.prep != nil {
		w.prep(c, r.sh, r.m)
	}
	return r
}

// got collects what an enumeration delivers and judges each entry.
type got struct {
	links []*ipld.Link
	seen  map[string]bool
}

func (g *got) add(c *ex.Ctl, m map[string]refm.Entry, l *ipld.Link) {
	if l == nil {
		c.Failf("a nil entry was delivered")
	}
	if g.seen == nil {
		g.seen = map[string]bool{}
	}
	e, ok := m[l.Name]
	if !ok {
		c.Failf("delivered %q, which is not an entry of %s", l.Name, entStr(m))
	}
	if g.seen[l.Name] {
		c.Failf("%q was delivered twice", l.Name)
	}
	if !sameLink(l, e) {
		c.Failf("%q was delivered with target %s size %d, want %s size %d", l.Name, l.Cid, l.Size, e.Cid, e.Tsize)
	}
	g.seen[l.Name] = true
	g.links = append(g.links, l)
}

func (g *got) complete(c *ex.Ctl, m map[string]refm.Entry, how string) {
	if len(g.seen) != len(m) {
		for k := range m {
			if !g.seen[k] {
				c.Failf("%s ended without error and without entry %q (%d of %d)", how, k, len(g.seen), len(m))
			}
		}
	}
	for _, l := range g.links { // links must not change after they were delivered
		if e, ok := m[l.Name]; !ok || !sameLink(l, e) {
			c.Failf("%s: a delivered link changed afterwards to %q", how, l.Name)
		}
	}
}

// wSrc hides whether the shard or a Directory around it is enumerated.
type wSrc struct {
	async func(context.Context) <-chan ft.LinkResult
	links func(context.Context) ([]*ipld.Link, error)
	each  func(context.Context, func(*ipld.Link) error) error
}

func shardSrc(sh *hamt.Shard) wSrc { return wSrc{sh.EnumLinksAsync, sh.EnumLinks, sh.ForEachLink} }
func dirSrc(d uio.Directory) wSrc  { return wSrc{d.EnumLinksAsync, d.Links, d.ForEachLink} }

// stream reads an asynchronous enumeration to its end.
func wStream(c *ex.Ctl, ch <-chan ft.LinkResult, m map[string]refm.Entry, g *got) error {
	for {
		zz.Point("consumer")
		r, ok := <-ch
		zz.Woke()
		if !ok {
			return nil
		}
		if r.Err != nil {
			// nothing but the end may follow
			for {
				zz.Point("consumer")
				r2, ok := <-ch
				zz.Woke()
				if !ok {
					return r.Err
				}
				if r2.Link != nil {
					g.add(c, m, r2.Link)
				}
			}
		}
		g.add(c, m, r.Link)
	}
}

func wRun(c *ex.Ctl, o sched.Opt, what string, body func()) {
	res := sched.Run(c, o, body)
	switch {
	case res.Deadlock:
		c.Failf("%s waits for ever", what)
	case res.Livelock:
		c.Failf("%s never finishes", what)
	case res.Leak != "":
		c.Failf("%s leaves goroutines behind that can never finish", what)
	}
}

const (
	wModeStream = iota
	wModeList
	wModeEach
	wModeStop  // cancel after k entries, read on
	wModeLeave // cancel after k entries, never read again
	wModeTwo   // two streams at once
	wModeLate  // the consumer comes late
	wModes
)

var wModeNames = []string{"stream", "list", "callback", "stream cancelled", "stream abandoned", "two streams", "stream and list"}

func runC13(r *ex.Run) {
	shapes := wShapes()
	run := func(sh *wShape, mode, dev int, fine bool) {
		opt := sched.Opt{MaxSteps: 60000, Fine: fine}
		name := fmt.Sprintf("%s: %s (%d deviations", wModeNames[mode], sh.name, dev)
		if fine {
			name += ", every statement"
		}
		r.Enum(name+")", ex.Opt{Deviations: dev}, func(c *ex.Ctl) {
			d := sh.build(c)
			src := shardSrc(d.sh)
			k := 0
			if mode == wModeStop || mode == wModeLeave {
				k = c.Choose(len(d.m) + 1)
			}
			wRun(c, opt, wModeNames[mode], func() {
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				switch mode {
				case wModeStream:
					var g got
					if err := wStream(c, src.async(ctx), d.m, &g); err != nil {
						c.Failf("the stream reports %v", err)
					}
					g.complete(c, d.m, "stream")
				case wModeList:
					var g got
					ls, err := src.links(ctx)
					if err != nil {
						c.Failf("the listing reports %v", err)
					}
					for _, l := range ls {
						g.add(c, d.m, l)
					}
					g.complete(c, d.m, "list")
				case wModeEach:
					for i := 0; i < 2; i++ {
						var g got
						if err := src.each(ctx, func(l *ipld.Link) error { cp := *l; g.add(c, d.m, &cp); return nil }); err != nil {
							c.Failf("the callback form reports %v", err)
						}
						g.complete(c, d.m, "callback")
					}
					stop := errors.New("stop")
					n := 0
					if err := src.each(ctx, func(*ipld.Link) error { n++; return stop }); err != stop && len(d.m) > 0 {
						c.Failf("the callback's error came back as %v", err)
					}
					if n > 1 {
						c.Failf("the callback was called again after it failed")
					}
				case wModeStop, wModeLeave:
					ch := src.async(ctx)
					var g got
					for i := 0; i < k; i++ {
						zz.Point("consumer")
						x, ok := <-ch
						zz.Woke()
						if !ok || x.Err != nil {
							c.Failf("the stream ended after %d of %d entries: %v", i, len(d.m), x.Err)
						}
						g.add(c, d.m, x.Link)
					}
					zz.Point("cancel")
					cancel()
					if mode == wModeStop {
						err := wStream(c, ch, d.m, &g)
						if err != nil && !errors.Is(err, context.Canceled) {
							c.Failf("after cancelling, the stream reports %v", err)
						}
					}
				case wModeTwo:
					var g, h got
					var herr error
					a := src.async(ctx)
					zz.Point("harness") // the two are not interchangeable
					b := src.async(ctx)
					fin := make(chan struct{})
					zz.Point("harness")
					go func() {
						defer close(fin)
						defer zz.Recover()
						zz.Start("second consumer")
						herr = wStream(c, b, d.m, &h)
					}()
					err := wStream(c, a, d.m, &g)
					<-fin
					zz.Woke()
					if err != nil || herr != nil {
						c.Failf("the streams report %v and %v", err, herr)
					}
					g.complete(c, d.m, "first stream")
					h.complete(c, d.m, "second stream")
				case wModeLate:
					ch := src.async(ctx)
					ls, err := src.links(ctx) // while the stream waits for its consumer
					if err != nil {
						c.Failf("the listing reports %v", err)
					}
					var g, h got
					for _, l := range ls {
						h.add(c, d.m, l)
					}
					h.complete(c, d.m, "list")
					if err := wStream(c, ch, d.m, &g); err != nil {
						c.Failf("the stream reports %v", err)
					}
					g.complete(c, d.m, "stream")
				}
				c.State(ex.FpBytes([]byte(fmt.Sprint(mode, sh.name, len(d.m), k))))
			})
			c.State(ex.DeepHash(d.sh))
		})
	}
	if ex.Racing() {
		for _, sh := range shapes {
			for _, mode := range []int{wModeStream, wModeStop, wModeTwo, wModeLate} {
				switch sh.name {
				case "two child shards, one in memory", "changed in memory", "nested":
					run(sh, mode, 1, false)
				default:
					run(sh, mode, 0, false)
				}
			}
		}
		return
	}
	for _, sh := range shapes {
		for mode := 0; mode < wModes; mode++ {
			run(sh, mode, 1, false)
		}
	}
	for mode := 0; mode < wModes; mode++ {
		dev := 0
		if mode == wModeStream || r.Thorough() {
			dev = 1
		}
		run(wWide(), mode, dev, false)
	}
	// statements of different goroutines interleaved
	for _, sh := range shapes {
		switch sh.name {
		case "two child shards", "changed in memory":
			run(sh, wModeStream, 1, true)
			run(sh, wModeTwo, 1, true)
		default:
			if r.Thorough() {
				run(sh, wModeStream, 1, true)
				run(sh, wModeTwo, 1, true)
				run(sh, wModeStop, 1, true)
			}
		}
	}
	// two deviations
	var deep []*wShape
	for _, sh := range shapes {
		if r.Thorough() && !sh.big || sh.name == "one child shard" || sh.name == "empty" {
			deep = append(deep, sh)
		}
	}
	for i, sh := range deep {
		r.Share(len(deep)-i, 2)
		run(sh, wModeStream, 2, false)
		run(sh, wModeLeave, 2, false)
		if r.Thorough() {
			run(sh, wModeStop, 2, false)
			run(sh, wModeTwo, 2, false)
			run(sh, wModeLate, 2, false)
		}
	}
	r.Share(0, 0)
}

const (
	wFaultStream = iota
	wFaultList
	wFaultEach
	wFaultModes
)

var wFaultNames = []string{"stream", "list", "callback"}

// undecodable blocks a shard may be replaced with.
func wBadBlocks() [][]byte {
	enc := func(n *refm.Node) []byte { return n.EncodeBlock() }
	b := refm.NewB(&v1)
	leaf := b.Leaf([]byte("x"), refm.File, false)
	return [][]byte{
		enc(&refm.Node{Type: refm.File, HasData: true, Data: []byte("x"), HasPB: true, HasSize: true, FileSize: 1}),
		enc(&refm.Node{HasPB: true, Type: refm.Directory, Links: []refm.Link{{Name: "x", Cid: leaf.Cid, Tsize: leaf.Tsize}}}),
		{0x0a, 0x02, 0xff, 0xff}, // not a UnixFS node
		{0xff, 0xff, 0xff},       // not a protobuf node
	}
}

func runC14(r *ex.Run) {
	type how int
	const (
		failing how = iota
		undecodable
		tripping  // the context is cancelled by a fetch
		cancelled // the context is cancelled before some step
		dead      // the context was cancelled before the call
	)
	hows := []string{"failing fetches", "undecodable shards", "cancelled while fetching", "cancelled at any step", "context already cancelled"}
	bads := wBadBlocks()
	run := func(sh *wShape, mode int, h how, viaDir bool, dev int) {
		name := fmt.Sprintf("%s, %s: %s (%d deviations", hows[h], wFaultNames[mode], sh.name, dev)
		if viaDir {
			name += ", Directory"
		}
		r.Enum(name+")", ex.Opt{Deviations: dev}, func(c *ex.Ctl) {
			d := sh.build(c)
			src := shardSrc(d.sh)
			if viaDir {
				n, err := d.sh.Node()
				if err != nil {
					c.Failf("Node: %v", err)
				}
				dd, err := uio.NewDirectoryFromNode(d.st, n)
				if err != nil {
					c.Failf("loading: %v", err)
				}
				src = dirSrc(dd)
			}
			var ctx context.Context
			var cancel context.CancelFunc
			bad := map[string]bool{}
			hit := false
			var mu sync.Mutex
			o := sched.Opt{MaxSteps: 60000}
			what := fmt.Sprintf("%s with %s", wFaultNames[mode], hows[h])
			switch h {
			case failing, undecodable, tripping:
				if len(d.kids) == 0 {
					c.Skip()
				}
				i := c.Choose(len(d.kids))
				j := c.Choose(len(d.kids) + 1)
				if j <= i && j > 0 {
					c.Skip()
				}
				bad[d.kids[i]] = true
				if j > 0 && j < len(d.kids) {
					bad[d.kids[j]] = true
				} else if j == len(d.kids) {
					c.Skip()
				}
				if h == undecodable {
					blk := bads[c.Choose(len(bads))]
					for k := range bad {
						key, err := cid.Cast([]byte(k))
						if err != nil {
							panic("harness: " + err.Error())
						}
						d.st.Put(key, blk)
					}
				}
			}
			d.st.OnGet = func(k cid.Cid) error {
				if !bad[k.KeyString()] {
					return nil
				}
				mu.Lock()
				hit = true
				mu.Unlock()
				switch h {
				case failing:
					return env.ErrInjected
				case tripping:
					cancel()
				}
				return nil
			}
			if h == cancelled {
				o.OnStep = func(step int) bool {
					if cancel != nil && !hit && c.Bool() {
						hit = true
						cancel()
						return true
					}
					return false
				}
			}
			cxl := func() bool { return h == tripping || h == dead || h == cancelled && hit }
			wRun(c, o, what, func() {
				ctx, cancel = context.WithCancel(bg)
				defer cancel()
				if h == dead {
					cancel()
				}
				var g got
				var err error
				switch mode {
				case wFaultStream:
					err = wStream(c, src.async(ctx), d.m, &g)
				case wFaultList:
					var ls []*ipld.Link
					ls, err = src.links(ctx)
					for _, l := range ls {
						g.add(c, d.m, l)
					}
				case wFaultEach:
					err = src.each(ctx, func(l *ipld.Link) error { cp := *l; g.add(c, d.m, &cp); return nil })
				}
				if err == nil && !(mode == wFaultStream && cxl()) {
					g.complete(c, d.m, what)
				}
				c.Outcome(fmt.Sprintf("%s: error=%v complete=%v", what, err != nil, len(g.seen) == len(d.m)))
				c.State(ex.FpBytes([]byte(fmt.Sprint(mode, h, sh.name, viaDir, len(g.seen), err != nil, hit))))
			})
			if h == undecodable {
				return
			}
			// once the cause has gone the same object lists everything
			d.st.OnGet = nil
			var g got
			ls, err := src.links(bg)
			if err != nil {
				c.Failf("%s: later, with everything available, listing reports %v", what, err)
			}
			for _, l := range ls {
				g.add(c, d.m, l)
			}
			g.complete(c, d.m, "a later listing")
		})
	}
	for _, sh := range wShapes() {
		for mode := 0; mode < wFaultModes; mode++ {
			for h := failing; h <= dead; h++ {
				if len(sh.stored) == 0 && h <= tripping {
					continue
				}
				dev := 1
				if h == cancelled && !r.Thorough() && (mode != wFaultList || sh.name != "empty" && sh.name != "one child shard") {
					dev = 0
				}
				run(sh, mode, h, false, dev)
				if h != cancelled && sh.prep == nil && len(sh.stored) > 0 {
					run(sh, mode, h, true, 0)
				}
			}
		}
	}
	for mode := 0; mode < wFaultModes; mode++ {
		for h := failing; h <= dead; h++ {
			run(wWide(), mode, h, false, 0)
		}
	}
	// basic directories
	r.Enum("basic directory, cancelled at any step", ex.Opt{Deviations: 1}, func(c *ex.Ctl) {
		w := wShapes()[3]
		st := env.NewStore()
		m := w.ents()
		k := dirNode(st, &v1, m, false, 8)
		dd, err := uio.NewDirectoryFromNode(st, getNode(c, st, k.Cid))
		if err != nil {
			c.Failf("loading: %v", err)
		}
		src := dirSrc(dd)
		mode := c.Choose(wFaultModes)
		var cancel context.CancelFunc
		hit := false
		wRun(c, sched.Opt{OnStep: func(step int) bool {
			if cancel != nil && !hit && c.Bool() {
				hit = true
				cancel()
				return true
			}
			return false
		}}, "a basic directory's "+wFaultNames[mode], func() {
			var ctx context.Context
			ctx, cancel = context.WithCancel(bg)
			defer cancel()
			var g got
			var err error
			switch mode {
			case wFaultStream:
				err = wStream(c, src.async(ctx), m, &g)
			case wFaultList:
				var ls []*ipld.Link
				ls, err = src.links(ctx)
				for _, l := range ls {
					g.add(c, m, l)
				}
			case wFaultEach:
				err = src.each(ctx, func(l *ipld.Link) error { g.add(c, m, l); return nil })
			}
			if err == nil && !(mode == wFaultStream && hit) {
				g.complete(c, m, wFaultNames[mode])
			}
		})
	})
}

func init() {
	ex.Register(&ex.Check{ID: "C13", Level: "model_checking", Run: runC13, Quick: 300 * time.Second, Thorough: 50 * time.Minute})
	ex.Register(&ex.Check{ID: "C14", Level: "fault_enumeration", Run: runC14, Quick: 400 * time.Second, Thorough: 50 * time.Minute})
}

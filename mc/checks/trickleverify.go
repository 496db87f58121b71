package checks

import (
	"fmt"

	cid "github.com/ipfs/go-cid"
	"github.com/ipfs/go-unixfs/importer/trickle"

	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

// tvNode is a node of a DAG to be put before the trickle structure check.
type tvNode struct {
	kind int // see below
	odd  bool
	kids []*tvNode
}

const (
	tvInner    = iota // file node without data
	tvPbLeaf          // UnixFS raw node
	tvRawLeaf         // raw block
	tvFileLeaf        // file node with data
	tvDir             // directory
	tvKinds
)

var tvSym = []string{"(", "p", "r", "f(", "d("}

func (n *tvNode) String() string {
	s := tvSym[n.kind]
	if n.odd {
		s = "!" + s
	}
	for _, k := range n.kids {
		s += k.String()
	}
	if n.kind != tvPbLeaf && n.kind != tvRawLeaf {
		s += ")"
	}
	return s
}

func (n *tvNode) build(b, odd *refm.B) refm.Built {
	w := b
	if n.odd {
		w = odd
	}
	switch n.kind {
	case tvPbLeaf:
		return w.Leaf([]byte("x"), refm.Raw, false)
	case tvRawLeaf:
		return w.Leaf([]byte("x"), refm.Raw, true)
	}
	nd := &refm.Node{Type: refm.File, HasSize: true}
	switch n.kind {
	case tvFileLeaf:
		nd.HasData, nd.Data, nd.FileSize = true, []byte("x"), 1
	case tvDir:
		nd.Type, nd.HasSize = refm.Directory, false
	}
	for _, k := range n.kids {
		kb := k.build(b, odd)
		nd.Links = append(nd.Links, refm.Link{Cid: kb.Cid, Tsize: kb.Tsize})
		nd.Blocksizes = append(nd.Blocksizes, kb.Size)
		nd.FileSize += kb.Size
	}
	r := w.Put(nd)
	r.Size = nd.FileSize
	return r
}

// allowed: the layout allows this node at this depth (-1 the root, unlimited).
func (n *tvNode) allowed(depth, direct, repeat int, raw, prefix bool) bool {
	if n.odd && prefix {
		return false
	}
	if depth == 0 {
		return n.kind == tvPbLeaf && !raw || n.kind == tvRawLeaf && raw
	}
	if n.kind != tvInner {
		return false
	}
	for i, k := range n.kids {
		d := 0
		if i >= direct {
			d = (i-direct)/repeat + 1
			if depth > 0 && d >= depth {
				return false
			}
		}
		if !k.allowed(d, direct, repeat, raw, prefix) {
			return false
		}
	}
	return true
}

func tvCheck(c *ex.Ctl, t *tvNode, direct, repeat int, raw bool, p *cid.Prefix) {
	c.Logf("%v direct=%d repeat=%d raw=%v prefix=%v", t, direct, repeat, raw, p != nil)
	base := &v1
	if p != nil {
		base = p
	}
	b, odd := refm.NewB(base), refm.NewB(&blk2)
	root := t.build(b, odd)
	s := storeOf(b)
	s.PutAll(odd.Blocks)
	err := trickle.VerifyTrickleDagStructure(getNode(c, s, root.Cid), trickle.VerifyParams{Getter: s, Direct: direct, LayerRepeat: repeat, RawLeaves: raw, Prefix: p})
	want := t.allowed(-1, direct, repeat, raw, p != nil)
	c.Step()
	switch {
	case want && err != nil:
		c.Failf("the structure check rejects %v: %v", t, err)
	case !want && err == nil:
		c.Failf("the structure check accepts %v (direct %d, repeat %d, raw leaves %v)", t, direct, repeat, raw)
	}
	c.State(ex.FpBytes([]byte(fmt.Sprint(t, direct, repeat, raw, p != nil))))
}

// tvTrickle is the shape of a canonical DAG of n chunks.
func tvTrickle(n, direct, leaf int) *tvNode {
	pos := 0
	var rec func(depth int) *tvNode
	rec = func(depth int) *tvNode {
		t := &tvNode{kind: tvInner}
		for len(t.kids) < direct && pos < n {
			t.kids = append(t.kids, &tvNode{kind: leaf})
			pos++
		}
		for d := 1; (depth < 0 || d < depth) && pos < n; d++ {
			for r := 0; r < 4 && pos < n; r++ {
				t.kids = append(t.kids, rec(d))
			}
		}
		return t
	}
	return rec(-1)
}

func (n *tvNode) each(f func(t *tvNode, parent *tvNode, i int)) {
	var rec func(t, p *tvNode, i int)
	rec = func(t, p *tvNode, i int) {
		f(t, p, i)
		for j, k := range append([]*tvNode{}, t.kids...) {
			rec(k, t, j)
		}
	}
	rec(n, nil, 0)
}

func runTrickleVerify(r *ex.Run) {
	size := 6
	if r.Thorough() {
		size = 8
	}
	r.Enum("structure check on every small tree", ex.Opt{}, func(c *ex.Ctl) {
		direct, repeat, raw := 1+c.Choose(2), 1+c.Choose(2), c.Bool()
		left := size - 1
		var rec func() *tvNode
		rec = func() *tvNode {
			t := &tvNode{kind: c.Choose(3)}
			if t.kind == tvInner {
				for left > 0 && c.Bool() {
					left--
					t.kids = append(t.kids, rec())
				}
			}
			return t
		}
		tvCheck(c, rec(), direct, repeat, raw, nil)
	})
	max := 40
	if r.Thorough() {
		max = 90
	}
	r.Enum("structure check on mutations", ex.Opt{}, func(c *ex.Ctl) {
		direct, raw := 1+c.Choose(3), c.Bool()
		p := []*cid.Prefix{nil, &v0, &v1}[c.Choose(3)]
		leaf := tvPbLeaf
		if raw {
			leaf = tvRawLeaf
		}
		t := tvTrickle(c.Choose(max), direct, leaf)
		var all []*tvNode
		t.each(func(n, _ *tvNode, _ int) { all = append(all, n) })
		n := all[c.Choose(len(all))]
		cp := *n
		switch c.Choose(8) {
		case 0: // as it is
			if n != t {
				c.Skip()
			}
		case 1:
			n.odd = true
		case 2: // another kind
			k := c.Choose(tvKinds)
			if k == n.kind {
				c.Skip()
			}
			n.kind = k
			if k == tvPbLeaf || k == tvRawLeaf {
				n.kids = nil
			}
		case 3: // one level more
			*n = tvNode{kind: tvInner, kids: []*tvNode{&cp}}
		case 4: // one level less
			if len(n.kids) == 0 {
				c.Skip()
			}
			*n = *n.kids[0]
		case 5: // a child less
			if len(n.kids) == 0 {
				c.Skip()
			}
			k := c.Choose(len(n.kids))
			n.kids = append(append([]*tvNode{}, n.kids[:k]...), n.kids[k+1:]...)
		case 6: // a child twice
			if len(n.kids) == 0 {
				c.Skip()
			}
			k := c.Choose(len(n.kids))
			n.kids = append(append([]*tvNode{}, n.kids[:k+1]...), n.kids[k:]...)
		case 7: // two neighbours change places
			if len(n.kids) < 2 {
				c.Skip()
			}
			k := c.Choose(len(n.kids) - 1)
			n.kids = append([]*tvNode{}, n.kids...)
			n.kids[k], n.kids[k+1] = n.kids[k+1], n.kids[k]
		}
		tvCheck(c, t, direct, 4, raw, p)
	})
}

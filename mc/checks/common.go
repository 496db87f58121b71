// Package checks holds the property harnesses.
package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/env"
	"github.com/ipfs/go-unixfs/zzverif/ex"
	"github.com/ipfs/go-unixfs/zzverif/refm"
)

var bg = context.Background()

// Layouts.
const (
	balancedL = iota
	trickleL
)

var layoutName = []string{"balanced", "trickle"}

var (
	v0   = cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	v1   = cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	blk2 = cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.BLAKE2B_MIN + 31, MhLength: -1}
)

// fcfg is one way of importing a file.
type fcfg struct {
	layout   int
	chunk    int
	maxlinks int
	raw      bool
	prefix   *cid.Prefix
	flavour  int // how prefix is given: see builderOf
}

// builderOf gives a CID format to the code in one of the forms it may take:
// a cid.Prefix, a pointer to one, or the format's own builder type.
func builderOf(p cid.Prefix, flavour int) cid.Builder {
	switch flavour {
	case 1:
		if p.Version == 0 {
			return cid.V0Builder{}
		}
		return cid.V1Builder{Codec: p.Codec, MhType: p.MhType, MhLength: p.MhLength}
	case 2:
		return &p
	}
	return p
}

func (f fcfg) String() string {
	p := "nil"
	if f.prefix != nil {
		p = fmt.Sprintf("v%d/%x", f.prefix.Version, f.prefix.MhType)
		if f.prefix.MhLength > 0 {
			p += fmt.Sprintf("/%d bytes", f.prefix.MhLength)
		}
		if f.flavour > 0 {
			p += fmt.Sprintf(" as %T", builderOf(*f.prefix, f.flavour))
		}
	}
	return fmt.Sprintf("%s chunk=%d fan=%d raw=%v cid=%s", layoutName[f.layout], f.chunk, f.maxlinks, f.raw, p)
}

// pat is position-dependent content without short periods.
func pat(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + (i*7+i/26*3+i/5)%57)
	}
	return b
}

func chunksOf(data []byte, size int) [][]byte {
	var out [][]byte
	for len(data) > 0 {
		n := size
		if n > len(data) {
			n = len(data)
		}
		out = append(out, data[:n])
		data = data[n:]
	}
	return out
}

// listSplitter hands out given chunks.
type listSplitter struct {
	chunks [][]byte
	i      int
	failAt int // return err instead of chunk failAt (0-based); -1 never
	err    error
	r      io.Reader
	early  bool // the last chunk comes together with io.EOF
}

func (l *listSplitter) Reader() io.Reader {
	if l.r != nil {
		return l.r
	}
	return bytes.NewReader(nil)
}
func (l *listSplitter) NextBytes() ([]byte, error) {
	if l.failAt >= 0 && l.i == l.failAt {
		return nil, l.err
	}
	if l.i >= len(l.chunks) {
		return nil, io.EOF
	}
	c := l.chunks[l.i]
	l.i++
	if l.early && l.i == len(l.chunks) {
		return append([]byte{}, c...), io.EOF
	}
	return append([]byte{}, c...), nil
}

func splitList(chunks [][]byte) chunker.Splitter { return &listSplitter{chunks: chunks, failAt: -1} }

func layoutWith(ds ipld.DAGService, f fcfg, spl chunker.Splitter) (ipld.Node, error) {
	p := h.DagBuilderParams{Dagserv: ds, Maxlinks: f.maxlinks, RawLeaves: f.raw}
	if f.prefix != nil {
		p.CidBuilder = builderOf(*f.prefix, f.flavour)
	}
	db, err := p.New(spl)
	if err != nil {
		return nil, err
	}
	if f.layout == trickleL {
		return trickle.Layout(db)
	}
	return balanced.Layout(db)
}

// importFile builds data with the code under test.
func importFile(ds ipld.DAGService, f fcfg, data []byte) (ipld.Node, error) {
	return layoutWith(ds, f, splitList(chunksOf(data, f.chunk)))
}

func mustImport(c *ex.Ctl, s *env.Store, f fcfg, data []byte) ipld.Node {
	n, err := importFile(s, f, data)
	if err != nil {
		c.Failf("import %v of %d bytes failed: %v", f, len(data), err)
	}
	return n
}

// refImport builds data with the reference builder.
func refImport(f fcfg, data []byte) (*refm.B, refm.Built) {
	b := refm.NewB(f.prefix)
	ch := chunksOf(data, f.chunk)
	if f.layout == trickleL {
		return b, b.Trickle(ch, f.maxlinks, f.raw)
	}
	return b, b.Balanced(ch, f.maxlinks, f.raw)
}

// storeOf puts the blocks of a reference DAG into a store.
func storeOf(b *refm.B) *env.Store {
	s := env.NewStore()
	s.PutAll(b.Blocks)
	return s
}

// getNode loads a node the way the store serves it.
func getNode(c *ex.Ctl, s *env.Store, k cid.Cid) ipld.Node {
	n, err := s.Get(bg, k)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return n
}

func isEOF(err error) bool { return errors.Is(err, io.EOF) }

var _ = dag.NodeWithData
var _ = ft.TFile
var _ uio.DagReader

// Package env provides the closed environment of the harnesses: an in-memory
// DAG service whose answers (errors, availability) the explorer decides.
package env

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"

	"github.com/ipfs/go-unixfs/zzverif/zz"
)

// ErrInjected is the error every injected storage fault returns.
var ErrInjected = errors.New("injected storage fault")

// Store is a content-addressed store implementing ipld.DAGService. What it
// keeps is the encoded block at the time of Add; every Get decodes afresh.
type Store struct {
	mu     sync.Mutex
	blocks map[string][]byte
	Adds   int
	Gets   int

	// OnAdd/OnGet may inject a fault (called without the lock).
	OnAdd func(c cid.Cid) error
	OnGet func(c cid.Cid) error
	// OnNode sees every node handed to Add.
	OnNode func(n ipld.Node)
}

func NewStore() *Store { return &Store{blocks: map[string][]byte{}} }

var _ ipld.DAGService = (*Store)(nil)

func (s *Store) Add(ctx context.Context, n ipld.Node) error {
	zz.Point("store")
	if err := ctx.Err(); err != nil {
		return err
	}
	c := n.Cid()
	if s.OnAdd != nil {
		if err := s.OnAdd(c); err != nil {
			return err
		}
	}
	if s.OnNode != nil {
		s.OnNode(n)
	}
	raw := n.RawData()
	cp := append([]byte(nil), raw...)
	zz.Hide()
	s.mu.Lock()
	s.Adds++
	s.blocks[c.KeyString()] = cp
	s.mu.Unlock()
	zz.Show()
	return nil
}

func (s *Store) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		if err := s.Add(ctx, n); err != nil {
			return err
		}
	}
	return nil
}

// Raw returns the stored bytes of c.
func (s *Store) Raw(c cid.Cid) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.blocks[c.KeyString()]
	return b, ok
}

// Put stores raw bytes under c without any check.
func (s *Store) Put(c cid.Cid, b []byte) {
	s.mu.Lock()
	s.blocks[c.KeyString()] = b
	s.mu.Unlock()
}

// PutAll stores blocks keyed by binary CID.
func (s *Store) PutAll(m map[string][]byte) {
	s.mu.Lock()
	for k, v := range m {
		s.blocks[k] = v
	}
	s.mu.Unlock()
}

// Len is the number of blocks held.
func (s *Store) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.blocks)
}

// Clone copies the store's content (not its hooks).
func (s *Store) Clone() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := make(map[string][]byte, len(s.blocks))
	for k, v := range s.blocks {
		m[k] = v
	}
	return &Store{blocks: m}
}

// Decode decodes a stored block the way the real DAG service does.
func Decode(c cid.Cid, raw []byte) (n ipld.Node, err error) {
	// The dag-pb library panics on some truncated blocks; that is not this
	// repository's to answer for.
	defer func() {
		if p := recover(); p != nil {
			n, err = nil, fmt.Errorf("undecodable block: %v", p)
		}
	}()
	b, err := blocks.NewBlockWithCid(raw, c)
	if err != nil {
		return nil, err
	}
	switch c.Type() {
	case cid.DagProtobuf:
		return dag.DecodeProtobufBlock(b)
	case cid.Raw:
		return dag.DecodeRawBlock(b)
	}
	return nil, fmt.Errorf("unsupported codec %d", c.Type())
}

func (s *Store) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	zz.Point("fetch")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return s.get(c)
}

func (s *Store) get(c cid.Cid) (ipld.Node, error) {
	if s.OnGet != nil {
		if err := s.OnGet(c); err != nil {
			return nil, err
		}
	}
	zz.Hide()
	s.mu.Lock()
	s.Gets++
	raw, ok := s.blocks[c.KeyString()]
	s.mu.Unlock()
	zz.Show()
	if !ok {
		return nil, ipld.ErrNotFound
	}
	return Decode(c, raw)
}

func (s *Store) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs)+1)
	// Callers collect keys in maps: their order means nothing.
	var left []cid.Cid
	dup := map[string]bool{}
	for _, c := range cs {
		if !dup[c.KeyString()] {
			dup[c.KeyString()] = true
			left = append(left, c)
		}
	}
	sort.Slice(left, func(i, j int) bool { return left[i].KeyString() < left[j].KeyString() })
	if zz.Active() {
		// blocks arrive one at a time, in the order and when the explorer says so
		go func() {
			defer close(out)
			zz.Start("fetcher")
			for len(left) > 0 {
				k := 0
				if len(left) > 1 {
					k = zz.Pick(len(left))
				}
				c := left[k]
				left = append(left[:k:k], left[k+1:]...)
				n, err := s.Get(ctx, c)
				out <- &ipld.NodeOption{Node: n, Err: err}
				if err != nil {
					return
				}
			}
		}()
		return out
	}
	for _, c := range left {
		n, err := s.Get(ctx, c)
		out <- &ipld.NodeOption{Node: n, Err: err}
		if err != nil {
			break
		}
	}
	close(out)
	return out
}

func (s *Store) Remove(ctx context.Context, c cid.Cid) error {
	s.mu.Lock()
	delete(s.blocks, c.KeyString())
	s.mu.Unlock()
	return nil
}

func (s *Store) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		_ = s.Remove(ctx, c)
	}
	return nil
}

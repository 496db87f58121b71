// Package refm is the reference model of the formats: an independent encoder
// and decoder of dag-pb and UnixFS blocks, independent canonical builders of
// every DAG shape, and an independent validator of DAGs. It shares no code
// with the repository under test.
package refm

import (
	"errors"
	"fmt"
	"unicode/utf8"

	cid "github.com/ipfs/go-cid"
)

// UnixFS node types.
const (
	Raw = iota
	Directory
	File
	Metadata
	Symlink
	HAMT
)

// Link is a dag-pb link.
type Link struct {
	Name  string
	Cid   cid.Cid
	Tsize uint64
}

// Node is a decoded block.
type Node struct {
	RawBlock   bool // raw codec: Data is the whole block
	Links      []Link
	HasPB      bool // dag-pb Data field present
	Type       int
	Data       []byte
	HasData    bool
	FileSize   uint64
	HasSize    bool
	Blocksizes []uint64
	HashType   uint64
	HasHash    bool
	Fanout     uint64
	HasFanout  bool
	BlockLen   int
}

func putUvarint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func tag(b []byte, field, wire int) []byte { return putUvarint(b, uint64(field<<3|wire)) }

func bytesField(b []byte, field int, v []byte) []byte {
	b = tag(b, field, 2)
	b = putUvarint(b, uint64(len(v)))
	return append(b, v...)
}
func varField(b []byte, field int, v uint64) []byte {
	b = tag(b, field, 0)
	return putUvarint(b, v)
}

// EncodeUnixfs encodes the UnixFS message.
func (n *Node) EncodeUnixfs() []byte {
	var b []byte
	b = varField(b, 1, uint64(n.Type))
	if n.HasData {
		b = bytesField(b, 2, n.Data)
	}
	if n.HasSize {
		b = varField(b, 3, n.FileSize)
	}
	for _, s := range n.Blocksizes {
		b = varField(b, 4, s)
	}
	if n.HasHash {
		b = varField(b, 5, n.HashType)
	}
	if n.HasFanout {
		b = varField(b, 6, n.Fanout)
	}
	return b
}

// EncodeBlock encodes the whole block.
func (n *Node) EncodeBlock() []byte {
	if n.RawBlock {
		return append([]byte{}, n.Data...)
	}
	return EncodePB(n.Links, n.EncodeUnixfs())
}

// EncodePB encodes a dag-pb node.
func EncodePB(links []Link, data []byte) []byte {
	var b []byte
	for _, l := range links {
		var lb []byte
		lb = bytesField(lb, 1, l.Cid.Bytes())
		lb = bytesField(lb, 2, []byte(l.Name))
		lb = varField(lb, 3, l.Tsize)
		b = bytesField(b, 2, lb)
	}
	if data != nil {
		b = bytesField(b, 1, data)
	}
	return b
}

var errPB = errors.New("refm: malformed protobuf")

func uvarint(b []byte) (uint64, []byte, error) {
	var x uint64
	for i := 0; i < len(b) && i < 10; i++ {
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return x, b[i+1:], nil
		}
	}
	return 0, nil, errPB
}

func fields(b []byte, f func(field, wire int, v uint64, data []byte) error) error {
	for len(b) > 0 {
		t, r, err := uvarint(b)
		if err != nil {
			return err
		}
		b = r
		switch t & 7 {
		case 0:
			v, r, err := uvarint(b)
			if err != nil {
				return err
			}
			b = r
			if err := f(int(t>>3), 0, v, nil); err != nil {
				return err
			}
		case 2:
			l, r, err := uvarint(b)
			if err != nil || l > uint64(len(r)) {
				return errPB
			}
			if err := f(int(t>>3), 2, 0, r[:l]); err != nil {
				return err
			}
			b = r[l:]
		default:
			return errPB
		}
	}
	return nil
}

// ParseUnixfs decodes a UnixFS message into n.
func (n *Node) ParseUnixfs(b []byte) error {
	seenType := false
	err := fields(b, func(f, w int, v uint64, d []byte) error {
		switch {
		case f == 1 && w == 0:
			n.Type = int(v)
			seenType = true
		case f == 2 && w == 2:
			n.Data = append([]byte{}, d...)
			n.HasData = true
		case f == 3 && w == 0:
			n.FileSize, n.HasSize = v, true
		case f == 4 && w == 0:
			n.Blocksizes = append(n.Blocksizes, v)
		case f == 4 && w == 2:
			for len(d) > 0 {
				v, r, err := uvarint(d)
				if err != nil {
					return err
				}
				n.Blocksizes = append(n.Blocksizes, v)
				d = r
			}
		case f == 5 && w == 0:
			n.HashType, n.HasHash = v, true
		case f == 6 && w == 0:
			n.Fanout, n.HasFanout = v, true
		}
		return nil
	})
	if err != nil {
		return err
	}
	if !seenType {
		return fmt.Errorf("refm: unixfs type missing")
	}
	return nil
}

// Parse decodes a stored block.
func Parse(c cid.Cid, block []byte) (*Node, error) {
	n, data, err := ParsePB(c, block)
	if err != nil {
		return nil, err
	}
	if n.HasPB {
		if err := n.ParseUnixfs(data); err != nil {
			return nil, err
		}
	}
	return n, nil
}

// ParsePB parses the links of a block and gives its data field as it is.
func ParsePB(c cid.Cid, block []byte) (*Node, []byte, error) {
	n := &Node{BlockLen: len(block)}
	if c.Type() == cid.Raw {
		n.RawBlock = true
		n.Data = block
		n.HasData = true
		return n, nil, nil
	}
	if c.Type() != cid.DagProtobuf {
		return nil, nil, fmt.Errorf("refm: codec %d", c.Type())
	}
	var data []byte
	err := fields(block, func(f, w int, v uint64, d []byte) error {
		switch {
		case f == 1 && w == 2:
			data = d
			n.HasPB = true
		case f == 2 && w == 2:
			var l Link
			err := fields(d, func(f, w int, v uint64, d []byte) error {
				switch {
				case f == 1 && w == 2:
					c, err := cid.Cast(d)
					if err != nil {
						return err
					}
					l.Cid = c
				case f == 2 && w == 2:
					l.Name = string(d)
				case f == 3 && w == 0:
					l.Tsize = v
				}
				return nil
			})
			if err != nil {
				return err
			}
			n.Links = append(n.Links, l)
		}
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	return n, data, nil
}

// ValidName reports whether a link name survives protobuf string rules.
func ValidName(s string) bool { return utf8.ValidString(s) }

// anyFields walks a protobuf message of any shape (unknown fields, groups,
// fixed-width fields), calling f for the varint and bytes fields.
func anyFields(b []byte, depth int, f func(field, wire int, v uint64, data []byte)) ([]byte, error) {
	for len(b) > 0 {
		t, r, err := uvarint(b)
		if err != nil {
			return nil, err
		}
		b = r
		field := int(t >> 3)
		if field == 0 {
			return nil, errPB
		}
		switch t & 7 {
		case 0:
			v, r, err := uvarint(b)
			if err != nil {
				return nil, err
			}
			b = r
			f(field, 0, v, nil)
		case 1:
			if len(b) < 8 {
				return nil, errPB
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, errPB
			}
			b = b[4:]
		case 2:
			l, r, err := uvarint(b)
			if err != nil || l > uint64(len(r)) {
				return nil, errPB
			}
			f(field, 2, 0, r[:l])
			b = r[l:]
		case 3:
			r, err := anyFields(b, depth+1, func(int, int, uint64, []byte) {})
			if err != nil {
				return nil, err
			}
			b = r
		case 4:
			if depth == 0 { // the number an end-group tag carries is not looked at
				return nil, errPB
			}
			return b, nil
		default:
			return nil, errPB
		}
	}
	if depth > 0 {
		return nil, errPB
	}
	return nil, nil
}

// DecodeAny decodes any protobuf encoding of a UnixFS message, canonical or
// not. It fails only on bytes that are no protobuf message at all or that lack
// the required type.
func DecodeAny(b []byte) (*Node, error) {
	n := &Node{}
	seen := false
	bad := false
	_, err := anyFields(b, 0, func(f, w int, v uint64, d []byte) {
		switch {
		case f == 1 && w == 0:
			n.Type, seen = int(int32(v)), true
		case f == 2 && w == 2:
			n.Data, n.HasData = append([]byte{}, d...), true
		case f == 3 && w == 0:
			n.FileSize, n.HasSize = v, true
		case f == 4 && w == 0:
			n.Blocksizes = append(n.Blocksizes, v)
		case f == 4 && w == 2:
			for len(d) > 0 {
				v, r, err := uvarint(d)
				if err != nil {
					bad = true
					return
				}
				n.Blocksizes = append(n.Blocksizes, v)
				d = r
			}
		case f == 5 && w == 0:
			n.HashType, n.HasHash = v, true
		case f == 6 && w == 0:
			n.Fanout, n.HasFanout = v, true
		}
	})
	if err != nil {
		return nil, err
	}
	if bad {
		return nil, errPB
	}
	if !seen {
		return nil, errors.New("refm: unixfs type missing")
	}
	return n, nil
}

// DecodeMime decodes a UnixFS Metadata message.
func DecodeMime(b []byte) (string, error) {
	m := ""
	_, err := anyFields(b, 0, func(f, w int, v uint64, d []byte) {
		if f == 1 && w == 2 {
			m = string(d)
		}
	})
	return m, err
}

// EncodeMime encodes a UnixFS Metadata message.
func EncodeMime(m string) []byte { return bytesField(nil, 1, []byte(m)) }

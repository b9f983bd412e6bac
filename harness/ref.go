package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"sort"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"golang.org/x/crypto/sha3"
)

// Reference implementations, written from the documentation (doc.go files,
// the CONIKS paper) and independent of the code under test.

func refDigest(ms ...[]byte) []byte {
	var all []byte
	for _, m := range ms {
		all = append(all, m...)
	}
	out := make([]byte, 32)
	sha3.ShakeSum128(out, all)
	return out
}

func le32(n uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, n); return b }
func le64(n uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, n); return b }

func bit(b []byte, i int) int {
	return int(b[i>>3]>>(7-uint(i&7))) & 1
}

// refLeaf is a binding in the reference tree.
type refLeaf struct {
	index  []byte
	commit []byte
}

type refTree struct {
	nonce  []byte
	leaves []refLeaf // sorted by index
	depth  int
}

func newRefTree(nonce []byte, leaves []refLeaf) *refTree {
	ls := append([]refLeaf(nil), leaves...)
	sort.Slice(ls, func(i, j int) bool { return bytes.Compare(ls[i].index, ls[j].index) < 0 })
	return &refTree{nonce: nonce, leaves: ls}
}

func prefixBytes(idx []byte, level int) []byte {
	out := make([]byte, (level+7)/8)
	for i := 0; i < level; i++ {
		if bit(idx, i) == 1 {
			out[i>>3] |= 1 << (7 - uint(i&7))
		}
	}
	return out
}

func (t *refTree) emptyHash(prefix []byte, level int) []byte {
	return refDigest([]byte{'E'}, t.nonce, prefix, le32(uint32(level)))
}
func (t *refTree) leafHash(l refLeaf, level int) []byte {
	return refDigest([]byte{'L'}, t.nonce, l.index, le32(uint32(level)), l.commit)
}

// node returns the hash of the node at prefix (the first level bits of pre)
// over the leaves ls, all of which have that prefix.
func (t *refTree) node(pre []byte, level int, ls []refLeaf) []byte {
	if level > t.depth {
		t.depth = level
	}
	if level > 0 {
		switch len(ls) {
		case 0:
			return t.emptyHash(prefixBytes(pre, level), level)
		case 1:
			return t.leafHash(ls[0], level)
		}
	}
	l, r := t.split(ls, level)
	return refDigest(t.node(t.ext(pre, level, 0), level+1, l), t.node(t.ext(pre, level, 1), level+1, r))
}

func (t *refTree) ext(pre []byte, level, b int) []byte {
	out := make([]byte, 32)
	copy(out, prefixBytes(append(append([]byte(nil), pre...), make([]byte, 33)...), level))
	if b == 1 {
		out[level>>3] |= 1 << (7 - uint(level&7))
	}
	return out
}

func (t *refTree) split(ls []refLeaf, level int) (l, r []refLeaf) {
	i := sort.Search(len(ls), func(i int) bool { return bit(ls[i].index, level) == 1 })
	return ls[:i], ls[i:]
}

func (t *refTree) root() []byte { return t.node(make([]byte, 32), 0, t.leaves) }

// proof returns what a lookup of idx must show.
func (t *refTree) proof(idx []byte) (level int, siblings [][]byte, leaf *refLeaf) {
	ls := t.leaves
	pre := make([]byte, 32)
	for level == 0 || len(ls) > 1 {
		l, r := t.split(ls, level)
		if bit(idx, level) == 1 {
			siblings = append(siblings, t.node(t.ext(pre, level, 0), level+1, l))
			ls = r
		} else {
			siblings = append(siblings, t.node(t.ext(pre, level, 1), level+1, r))
			ls = l
		}
		level++
		pre = t.ext(idx, level, 0)
		copy(pre, prefixBytes(idx, level))
		for i := (level + 7) / 8; i < 32; i++ {
			pre[i] = 0
		}
	}
	if len(ls) == 1 {
		leaf = &ls[0]
	}
	return
}

// refPathRoot computes the root a path leads to.
func refPathRoot(ap *merkletree.AuthenticationPath) []byte {
	n := ap.Leaf
	var h []byte
	if n.IsEmpty {
		h = refDigest([]byte{'E'}, ap.TreeNonce, n.Index, le32(n.Level))
	} else {
		h = refDigest([]byte{'L'}, ap.TreeNonce, n.Index, le32(n.Level), n.Commitment.Value)
	}
	for d := int(n.Level) - 1; d >= 0; d-- {
		if bit(n.Index, d) == 1 {
			h = refDigest(ap.PrunedTree[d][:], h)
		} else {
			h = refDigest(h, ap.PrunedTree[d][:])
		}
	}
	return h
}

// refVerify is the specification of path verification. It reports whether
// ap is a valid proof under root, of which kind and, for an inclusion, of
// which value.
func refVerify(ap *merkletree.AuthenticationPath, index []byte, name string, root []byte) (ok, inclusion bool, value []byte) {
	if ap == nil || ap.Leaf == nil || len(index) != 32 || !bytes.Equal(ap.LookupIndex, index) {
		return
	}
	n := ap.Leaf
	if n.Level > 256 || len(ap.PrunedTree) != int(n.Level) || len(ap.TreeNonce) > 32 {
		return
	}
	if n.IsEmpty {
		if len(n.Index) != (int(n.Level)+7)/8 {
			return
		}
	} else if len(n.Index) != 32 || n.Commitment == nil || len(n.Commitment.Value) != 32 {
		return
	}
	if bytes.Equal(n.Index, index) {
		if n.IsEmpty || len(n.Commitment.Salt) != 32 ||
			!bytes.Equal(n.Commitment.Value, refDigest(n.Commitment.Salt, []byte(name), n.Value)) {
			return
		}
		inclusion, value = true, n.Value
	} else {
		for i := 0; i < int(n.Level); i++ {
			if bit(n.Index, i) != bit(index, i) {
				return
			}
		}
		if len(n.Value) > 0 {
			return
		}
	}
	if !bytes.Equal(refPathRoot(ap), root) {
		return false, false, nil
	}
	return true, inclusion, value
}

func refPolicies(p *protocol.Policies) []byte {
	var b []byte
	b = append(b, p.Version...)
	b = append(b, p.HashID...)
	b = append(b, p.VrfPublicKey...)
	return append(b, le64(uint64(p.EpochDeadline))...)
}

func refSTRBytes(s *protocol.DirSTR) []byte {
	b := le64(s.Epoch)
	if s.Epoch > 0 {
		b = append(b, le64(s.PreviousEpoch)...)
	}
	b = append(b, s.TreeHash...)
	b = append(b, s.PreviousSTRHash...)
	return append(b, refPolicies(s.Policies)...)
}

// refSTRWellFormed: the signed bytes can be split into fields in only one way.
// For the first root, which is pinned and not verified, only the policies and
// the previous epoch are constrained.
func refSTRWellFormed(s *protocol.DirSTR) bool {
	if len(s.Policies.VrfPublicKey) != 32 || s.Policies.HashID != "SHAKE128" {
		return false
	}
	if s.Epoch == 0 {
		return s.PreviousEpoch == 0
	}
	return len(s.TreeHash) == 32 && len(s.PreviousSTRHash) == 32
}

func refSTRSigned(s *protocol.DirSTR, pk sign.PublicKey) bool {
	return refSTRWellFormed(s) && len(pk) == 32 && ed25519.Verify(ed25519.PublicKey(pk), refSTRBytes(s), s.Signature)
}

func refLinks(prev, s *protocol.DirSTR) bool {
	return s.Epoch == prev.Epoch+1 && s.PreviousEpoch == prev.Epoch &&
		bytes.Equal(s.PreviousSTRHash, refDigest(prev.Signature))
}

func refTBSigned(tb *protocol.TemporaryBinding, str *protocol.DirSTR, pk sign.PublicKey) bool {
	msg := append(append(append([]byte(nil), str.Signature...), tb.Index...), tb.Value...)
	return ed25519.Verify(ed25519.PublicKey(pk), msg, tb.Signature)
}

//go:build overlay

package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/coniks-sys/coniks-go/merkletree"
)

const haveOverlay = true

// c03crafted drives a bare tree with chosen indices, so that bindings share
// prefixes of every length up to 255 bits.
func c03crafted(c *Ctx) {
	for i := 0; i < c.N(40, 500); i++ {
		c.Case(fmt.Sprintf("crafted-%d", i), func(r *rand.Rand) {
			m, err := merkletree.NewMerkleTree()
			c.Must(err)
			base := randBytes(r, 32)
			if i%5 == 0 {
				base = bytes.Repeat([]byte{byte(0xff * (r.Intn(2)))}, 32)
			}
			var idxs [][]byte
			n := 1 + r.Intn(24)
			for j := 0; j < n; j++ {
				idx := append([]byte(nil), base...)
				switch r.Intn(4) {
				case 0:
					idx = randBytes(r, 32)
				default: // share exactly k bits with base
					k := []int{r.Intn(256), 255, 254, 248, 247, 8 * (1 + r.Intn(31))}[r.Intn(6)]
					idx[k>>3] ^= 1 << (7 - uint(k&7))
					for b := k + 1; b < 256; b++ {
						if r.Intn(2) == 0 {
							idx[b>>3] ^= 1 << (7 - uint(b&7))
						}
					}
				}
				idxs = append(idxs, idx)
			}
			if r.Intn(2) == 0 {
				idxs = append(idxs, base)
			}
			vals := map[string]string{}
			var clone *merkletree.MerkleTree
			var cloneRoot []byte
			for j, idx := range idxs {
				name, v := fmt.Sprintf("n%d", j), randBytes(r, 1+r.Intn(20))
				c.Must(m.Set(append([]byte(nil), idx...), name, v))
				vals[string(idx)] = name + "\x00" + string(v)
				if r.Intn(3) == 0 {
					merkletree.VerifRoot(m)
				}
				if r.Intn(6) == 0 {
					merkletree.VerifRoot(m)
					clone = m.Clone()
					cloneRoot = append([]byte(nil), merkletree.VerifRoot(clone)...)
				}
			}
			root := merkletree.VerifRoot(m)
			snap := m.Clone()
			var leaves []refLeaf
			var nonce []byte
			for idx, nv := range vals {
				ap := snap.Get([]byte(idx))
				c.Check(ap.Leaf != nil && bytes.Equal(ap.Leaf.Index, []byte(idx)) && !ap.Leaf.IsEmpty, "a binding is missing from the tree", "index %x", idx)
				k := bytes.IndexByte([]byte(nv), 0)
				name, v := nv[:k], nv[k+1:]
				c.Check(string(ap.Leaf.Value) == v, "a binding has another value", "index %x", idx)
				c.Check(bytes.Equal(ap.Leaf.Commitment.Value, refDigest(ap.Leaf.Commitment.Salt, []byte(name), []byte(v))), "commitment of a binding", "does not open")
				leaves = append(leaves, refLeaf{[]byte(idx), ap.Leaf.Commitment.Value})
				nonce = ap.TreeNonce
				c.Check(ap.Verify([]byte(name), []byte(v), root) == nil, "inclusion does not verify in a crafted tree", "index %x level %d", idx, ap.Leaf.Level)
			}
			t := newRefTree(nonce, leaves)
			c.Check(bytes.Equal(t.root(), root), "root differs from the specified tree", "crafted indices %x", idxs)
			c.Count("roots compared", 1)
			c.Distinct(root)
			s := &sim{c: c, r: r}
			for j := 0; j < 40; j++ {
				q := append([]byte(nil), idxs[r.Intn(len(idxs))]...)
				b := r.Intn(256)
				q[b>>3] ^= 1 << (7 - uint(b&7))
				if j%4 == 0 {
					q = idxs[r.Intn(len(idxs))]
				}
				ap := snap.Get(q)
				level, sib, leaf := t.proof(q)
				s.compareIdx(t, nonce, q, ap, level, sib, leaf)
				if leaf == nil || !bytes.Equal(leaf.index, q) {
					c.Check(ap.Verify([]byte("x"), nil, root) == nil, "absence does not verify in a crafted tree", "index %x level %d", q, level)
				}
				c.Eval(1)
			}
			if clone != nil {
				c.Check(bytes.Equal(merkletree.VerifRoot(clone), cloneRoot), "a clone changes with its original", "")
			}
			if t.depth > 200 {
				c.Count("trees deeper than 200", 1)
			}
		})
	}
}

package merkletree

// VerifRoot recomputes and returns the root hash of a bare tree.
func VerifRoot(m *MerkleTree) []byte {
	m.recomputeHash()
	return m.hash
}

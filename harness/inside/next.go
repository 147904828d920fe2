package oid

// VerifKth gives the driver the search for the k-th leaf in a range.
func (node *Node) VerifKth(oid1, oid2 []uint32, include1 bool, k int16) *Node {
	return node.getNextNode(oid1, oid2, include1, k)
}

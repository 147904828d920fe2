package oid

// VerifRemove gives the driver the removal that prunes.
func (node *Node) VerifRemove(oid []uint32, prune bool) bool {
	return node.removeNode(oid, prune)
}

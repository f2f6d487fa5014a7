package libeopkg

// verifDeltaNames gives the names of two deltas.
func verifDeltaNames(o1, n1, o2, n2 *MetaPackage) (string, string) {
	return ComputeDeltaName(o1, n1), ComputeDeltaName(o2, n2)
}

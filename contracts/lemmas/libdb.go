// Lemma functions for package libdb: where the keys of buckets lie. Overlaid at
// src/libdb/zz_verif_lemmas.go, for verification only.

package libdb

// verifMid is the middle of a key: the names from i on, each after a dash, then y.
func verifMid(p []string, i, n int, y string) string {
	if i >= n {
		return y
	}
	return "-" + p[i] + verifMid(p, i+1, n, y)
}

// verifLast moves the last name out of the middle.
func verifLast(p []string, i, n int, y string) {
	if i < n-1 {
		verifLast(p, i+1, n, y)
	}
}

// verifShape: the key of a bucket n deep is n bucket marks, the root's, and the middle.
func verifShape(p []string, n int, y string) {
	if n > 0 {
		verifLast(p, 0, n, y)
		verifShape(p, n-1, "-"+p[n-1]+y)
	}
}

// verifHeads: equal keys are equally deep.
func verifHeads(n, m int, x, y string) {
	if n > 0 && m > 0 {
		verifHeads(n-1, m-1, x, y)
	}
}

// verifSplit: equal middles have the same names.
func verifSplit(p, q []string, i, n int, k, j string) {
	if i < n {
		verifSplit(p, q, i+1, n, k, j)
	}
}

// verifKeys: different buckets or keys have different keys in the store.
func verifKeys(p, q []string, k, j string) {
	verifShape(p, len(p), "-"+k)
	verifShape(q, len(q), "-"+j)
	verifHeads(len(p), len(q), verifMid(p, 0, len(p), "-"+k), verifMid(q, 0, len(q), "-"+j))
	verifSplit(p, q, 0, len(p), k, j)
}

// verifEnum: what an enumeration of bucket p finds is in bucket p.
func verifEnum(p, q []string, j, rest string) {
	verifKeys(p, q, rest, j)
}

// verifHandle: the handle of a bucket has that bucket's prefix.
func verifHandle(l *levelDbHandle, p []string, n int) Database {
	return l.Bucket([]byte(p[n]))
}

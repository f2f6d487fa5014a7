// Lemma functions for package core: they compose or replay the real functions, so that a contract
// can speak about several of them. Overlaid at src/ferryd/core/zz_verif_lemmas.go, for
// verification only.

package core

import (
	"io"
	"unicode/utf8"
)

// verifEscapeCat walks over a: escaping is compatible with concatenation.
func verifEscapeCat(a, b []byte) {
	var out []byte
	e := &EscapedWriter{}
	for len(a) > 0 && utf8.FullRune(a) {
		r, n := utf8.DecodeRune(a)
		out = e.appendRune(out, r)
		a = a[n:]
	}
}

// verifTwoWrites writes a text in two pieces.
func verifTwoWrites(w io.Writer, a, b []byte) error {
	e := NewEscapedWriter(w)
	if _, err := e.Write(a); err != nil {
		return err
	}
	verifEscapeCat(a, b)
	_, err := e.Write(b)
	return err
}

// verifMoreWrites writes two more pieces to a writer.
func verifMoreWrites(e *EscapedWriter, a, b []byte) error {
	p := append(e.pending, a...)
	if _, err := e.Write(a); err != nil {
		return err
	}
	verifEscapeCat(p, b)
	_, err := e.Write(b)
	return err
}

package core

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
	"testing"
	"time"
)

// Bounded replay for C22: every kind of source and destination against the real
// file system, with and without writes failing part way.

func vfail22(t *testing.T, f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL property C22: %s\n", fmt.Sprintf(f, a...))
	t.FailNow()
}

func vbytes(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed) + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func TestVerifC22(t *testing.T) {
	base, err := os.MkdirTemp("", "files")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	signal.Ignore(syscall.SIGXFSZ)
	roots := []string{base}
	if d, err := os.MkdirTemp("/dev/shm", "files"); err == nil {
		// another file system, where links fail
		defer os.RemoveAll(d)
		roots = append(roots, d)
	}
	evals, distinct := 0, map[string]bool{}
	put := func(p string, b []byte) {
		if err := os.WriteFile(p, b, 0644); err != nil {
			t.Fatal(err)
		}
	}
	sizes := []int{0, 1, 100, 4096, 32768, 32769, 70000, 1<<20 + 3}
	kinds := []string{"missing", "nodir", "shorter", "longer", "samesize", "samesizetime", "prefix", "newer", "older", "samelink", "otherlink", "self", "symlinkself", "symlinkother", "dangling", "dir", "readonly", "selfdot"}
	n := 0
	for _, root := range roots {
		for _, size := range sizes {
			for _, kind := range kinds {
				for _, how := range []string{"copy", "link", "force"} {
					for _, limit := range []int{-1, 0, size / 2, size - 1} {
						if limit >= 0 && (limit >= size || (limit == size/2 && size < 2) || how == "link" && root == base) {
							continue
						}
						n++
						d := filepath.Join(base, strconv.Itoa(n))
						dd := d
						if root != base {
							dd = filepath.Join(root, strconv.Itoa(n))
						}
						for _, x := range []string{d, dd} {
							if err := os.MkdirAll(x, 0755); err != nil {
								t.Fatal(err)
							}
						}
						src, dst := filepath.Join(d, "src"), filepath.Join(dd, "dst")
						want := vbytes(size, byte(n))
						put(src, want)
						when := time.Unix(1500000000, 123456789)
						os.Chtimes(src, when, when)
						third := filepath.Join(dd, "third")
						var thirdWas []byte
						skip := false
						ln := func(err error) {
							if err != nil {
								skip = true
							}
						}
						switch kind {
						case "nodir":
							dst = filepath.Join(dd, "no", "dst")
						case "shorter":
							put(dst, vbytes(size/2, 7))
						case "longer":
							put(dst, vbytes(size*2+5, 7))
						case "samesize":
							put(dst, vbytes(size, 7))
						case "samesizetime":
							put(dst, vbytes(size, 7))
							os.Chtimes(dst, when, when)
						case "newer":
							put(dst, vbytes(size, 9))
							os.Chtimes(dst, when.Add(time.Hour), when.Add(time.Hour))
						case "older":
							put(dst, vbytes(size+1, 9))
							os.Chtimes(dst, when.Add(-time.Hour), when.Add(-time.Hour))
						case "prefix":
							put(dst, append(append([]byte{}, want...), "tail"...))
						case "samelink":
							ln(os.Link(src, dst))
						case "otherlink":
							put(third, vbytes(size+9, 3))
							ln(os.Link(third, dst))
						case "self":
							dst = src
						case "selfdot":
							dst = d + "/../" + filepath.Base(d) + "/./src"
						case "symlinkself":
							ln(os.Symlink(src, dst))
						case "symlinkother":
							put(third, vbytes(size+9, 3))
							ln(os.Symlink(third, dst))
						case "dangling":
							ln(os.Symlink(filepath.Join(dd, "nothing"), dst))
						case "dir":
							ln(os.Mkdir(dst, 0755))
						case "readonly":
							put(dst, vbytes(3, 3))
							os.Chmod(dst, 0444)
						}
						_ = thirdWas
						if !skip {
							var old syscall.Rlimit
							if limit >= 0 {
								syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
								l := old
								l.Cur = uint64(limit)
								if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
									skip = true
								}
							}
							var err error
							if !skip {
								switch how {
								case "copy":
									err = CopyFile(src, dst)
								case "link":
									err = LinkOrCopyFile(src, dst, false)
								case "force":
									err = LinkOrCopyFile(src, dst, true)
								}
							}
							if limit >= 0 {
								syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
							}
							evals++
							what := fmt.Sprintf("%s of %d bytes onto a %q destination (other file system: %v, files limited to %d bytes)", how, size, kind, root != base, limit)
							distinct[what] = true
							if n%97 == 1 {
								fmt.Println("VERIF-SAMPLE", what)
							}
							got, e := os.ReadFile(src)
							if e != nil || !bytes.Equal(got, want) {
								vfail22(t, "%s: the source no longer has its content (%d bytes, %v; result %v)", what, len(got), e, err)
							}
							if err == nil {
								got, e := os.ReadFile(dst)
								if e != nil || !bytes.Equal(got, want) {
									vfail22(t, "%s: success, but the destination holds %d bytes that are not the source's (%v)", what, len(got), e)
								}
							}
						}
						os.RemoveAll(d)
						os.RemoveAll(dd)
					}
				}
			}
		}
	}
	// no source at all
	for _, f := range []func(a, b string) error{CopyFile, func(a, b string) error { return LinkOrCopyFile(a, b, false) }, func(a, b string) error { return LinkOrCopyFile(a, b, true) }} {
		for _, s := range []string{filepath.Join(base, "nosuch"), base} {
			dst := filepath.Join(base, "out")
			evals++
			if f(s, dst) == nil {
				vfail22(t, "copying %s succeeded", s[len(base):])
			}
			os.Remove(dst)
		}
	}
	// tidying up
	for mask := 0; mask < 1<<7; mask++ {
		d := filepath.Join(base, fmt.Sprintf("t%d", mask))
		p := filepath.Join(d, "libr", "libreoffice", "pkg.eopkg")
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			t.Fatal(err)
		}
		in := func(i int) bool { return mask>>uint(i)&1 == 1 }
		keep := map[string]bool{}
		mk := func(i int, q string, dir bool) {
			if !in(i) {
				return
			}
			q = filepath.Join(d, q)
			keep[q] = dir
			if dir {
				os.MkdirAll(q, 0755)
			} else {
				put(q, []byte("x"))
			}
		}
		mk(0, "libr/libreoffice/pkg.eopkg", false)
		mk(1, "libr/libreoffice/.hidden", false)
		mk(2, "libr/libreoffice/sub", true)
		mk(3, "libr/other.eopkg", false)
		mk(4, "libr/librsvg", true)
		mk(5, "top", false)
		if in(6) {
			if err := os.Symlink("nowhere", filepath.Join(d, "libr", "dangling")); err == nil {
				keep[filepath.Join(d, "libr", "dangling")] = false
			}
		}
		err := RemovePackageParents(p)
		evals++
		distinct[fmt.Sprint("tidy ", mask)] = true
		for q := range keep {
			if _, e := os.Lstat(q); e != nil {
				vfail22(t, "tidying up after %s deleted %s (result %v)", p[len(d):], q[len(d):], err)
			}
		}
		os.RemoveAll(d)
	}
	// digests
	for i, size := range []int{0, 1, 2, 4095, 4096, 4097, 65536, 100000, 1 << 20, 17<<20 + 11} {
		p, o := filepath.Join(base, "dig"), filepath.Join(base, "dig.sum")
		b := vbytes(size, byte(i))
		put(p, b)
		s1, s2 := sha1.Sum(b), sha256.Sum256(b)
		for k, w := range []string{hex.EncodeToString(s1[:]), hex.EncodeToString(s2[:])} {
			f, g := FileSha1sum, WriteSha1sum
			if k == 1 {
				f, g = FileSha256sum, WriteSha256sum
			}
			evals++
			distinct[fmt.Sprint("digest ", k, size)] = true
			if got, err := f(p); err == nil && got != w {
				vfail22(t, "the digest of %d bytes is %s, reported %s", size, w, got)
			} else if err != nil && size > 0 {
				vfail22(t, "no digest of %d bytes: %v", size, err)
			}
			for _, before := range []string{"", "short", string(vbytes(200, 4))} {
				os.Remove(o)
				if before != "" {
					put(o, []byte(before))
				}
				if err := g(p, o); err == nil {
					if got, _ := os.ReadFile(o); string(got) != w {
						vfail22(t, "the checksum file of %d bytes holds %q, not %s", size, got, w)
					}
				}
			}
		}
	}
	fmt.Printf("VERIF-EVALS %d %d copies, links, tidyings and digests over every kind of destination, each compared with the property; distinct by operation, size, destination and fault\n", evals, len(distinct))
}

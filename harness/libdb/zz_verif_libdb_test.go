package libdb

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// Bounded replay for C17: random histories of the real store against an oracle that
// keeps one map per bucket path.

type vRec struct {
	Name string
	N    int64
	L    []string
	M    map[string]int
}

type vBucket struct {
	path []string
	live map[string]vRec
}

type vWorld struct {
	rng     *rand.Rand
	dir     string
	db      Database
	buckets []*vBucket
	trace   []string
	failed  bool
	checks  int
	cache   map[int]Database // handles obtained once and kept
}

func (w *vWorld) fail(f string, a ...interface{}) {
	if w.failed {
		return
	}
	w.failed = true
	t := w.trace
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	fmt.Printf("VERIF-FAIL property C17: %s\n  history (last %d steps):\n    %s\n", fmt.Sprintf(f, a...), len(t), strings.Join(t, "\n    "))
}

func (w *vWorld) log(f string, a ...interface{}) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

func (b *vBucket) in(db Database) Database {
	for _, p := range b.path {
		db = db.Bucket([]byte(p))
	}
	return db
}

func (w *vWorld) handle(i int) Database {
	if w.rng.Intn(2) == 0 {
		if h, ok := w.cache[i]; ok {
			return h
		}
	}
	h := w.buckets[i].in(w.db)
	w.cache[i] = h
	return h
}

func vPaths(r *rand.Rand, names []string) [][]string {
	ret := [][]string{{}}
	for i := 0; i < 7; i++ {
		p := append([]string{}, ret[r.Intn(len(ret))]...)
		if len(p) < 4 {
			ret = append(ret, append(p, names[r.Intn(len(names))]))
		}
	}
	seen := map[string]bool{}
	var out [][]string
	for _, p := range ret {
		k := strings.Join(p, "\x00") + fmt.Sprint(len(p))
		if !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	return out
}

func (w *vWorld) rec() vRec {
	r := w.rng
	v := vRec{Name: strings.Repeat("x", r.Intn(5)), N: r.Int63() - (1 << 62)}
	for i := 0; i < r.Intn(3); i++ {
		v.L = append(v.L, strconv.Itoa(r.Intn(100)))
	}
	if r.Intn(3) == 0 {
		v.M = map[string]int{"a": r.Intn(9)}
	}
	return v
}

func vSame(a, b vRec) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// audit compares every bucket with the oracle.
func (w *vWorld) audit(when string) {
	for i, b := range w.buckets {
		if w.failed {
			return
		}
		var want []string
		for k := range b.live {
			want = append(want, k)
		}
		sort.Strings(want)
		h := w.handle(i)
		var got []string
		read := func(db ReadOnlyView) error {
			return db.ForEach(func(k, v []byte) error {
				got = append(got, string(k))
				var o vRec
				if err := db.Decode(v, &o); err != nil {
					w.fail("%s: a value of bucket %q does not decode: %v", when, b.path, err)
				} else if e, ok := b.live[string(k)]; ok && !vSame(e, o) {
					w.fail("%s: enumerating bucket %q gave %v for key %q, stored was %v", when, b.path, o, k, e)
				}
				return nil
			})
		}
		var err error
		if w.rng.Intn(2) == 0 {
			err = h.View(read)
		} else {
			err = read(h)
		}
		w.checks++
		if err != nil {
			w.fail("%s: enumerating bucket %q failed: %v", when, b.path, err)
		}
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
			w.fail("%s: enumerating bucket %q visited %q, live keys are %q", when, b.path, got, want)
		}
		// stops at the first error and reports it
		if len(want) > 0 {
			stop := errors.New("stop")
			n, at := 0, 1+w.rng.Intn(len(want))
			err := h.ForEach(func(k, v []byte) error {
				n++
				if n == at {
					return stop
				}
				return nil
			})
			if err != stop || n != at {
				w.fail("%s: an enumeration whose callback failed at call %d made %d calls and returned %v", when, at, n, err)
			}
		}
		for _, o := range w.buckets {
			for k := range o.live {
				if w.rng.Intn(3) != 0 {
					continue
				}
				w.checks++
				e, live := b.live[k]
				var out vRec
				err := h.GetObject([]byte(k), &out)
				has, herr := h.HasObject([]byte(k))
				if herr != nil || has != live || (err == nil) != live || live && !vSame(e, out) {
					w.fail("%s: bucket %q key %q: stored=%v %v, HasObject=%v,%v GetObject=%v %v", when, b.path, k, live, e, has, herr, out, err)
				}
			}
		}
	}
}

func (w *vWorld) key(b *vBucket) string {
	r := w.rng
	if r.Intn(2) == 0 {
		for k := range b.live {
			return k
		}
	}
	ks := []string{"", "a", "b", "ab", "a-b", "-", "b-", "key", "a b", "\x00\xff", "|root", "Record", "package", "k|bucket|", "ü"}
	return ks[r.Intn(len(ks))]
}

var vReserved = []string{"|bucket|", "|bucket|-x", "|bucket|x", "|rootBucket|-", "|rootBucket|-a"}

func (w *vWorld) step() {
	r := w.rng
	i := r.Intn(len(w.buckets))
	b := w.buckets[i]
	h := w.handle(i)
	switch k := w.key(b); r.Intn(12) {
	case 0, 1, 2:
		v := w.rec()
		w.log("put %q %q %v", b.path, k, v)
		if err := h.PutObject([]byte(k), &v); err != nil {
			w.fail("PutObject failed: %v", err)
		}
		b.live[k] = v
	case 3:
		w.log("delete %q %q", b.path, k)
		if err := h.DeleteObject([]byte(k)); err != nil {
			w.fail("DeleteObject failed: %v", err)
		}
		delete(b.live, k)
	case 4:
		k := vReserved[r.Intn(len(vReserved))]
		v := w.rec()
		w.log("put/delete reserved %q %q", b.path, k)
		if h.PutObject([]byte(k), &v) == nil {
			w.fail("the reserved key %q was stored", k)
		}
		if h.DeleteObject([]byte(k)) == nil {
			w.fail("the reserved key %q was deleted", k)
		}
	case 5:
		w.log("close and open")
		w.db.Close()
		w.db.Close()
		db, err := Open(w.dir)
		if err != nil {
			w.fail("reopening: %v", err)
			return
		}
		w.db = db
		w.cache = map[int]Database{}
	case 6:
		v := make(chan int)
		w.log("unencodable value into %q %q", b.path, k)
		if h.PutObject([]byte(k), v) == nil {
			w.fail("a value that cannot be encoded was stored")
		}
	default:
		w.update(i, h)
	}
}

func (w *vWorld) update(root int, h Database) {
	r := w.rng
	base := w.buckets[root]
	next := map[int]map[string]*vRec{}
	fails := r.Intn(3) == 0
	n := r.Intn(6)
	w.log("update in %q, %d writes, fails=%v {", base.path, n, fails)
	boom := errors.New("boom")
	var under []int
	for j, b := range w.buckets {
		if len(b.path) >= len(base.path) && strings.Join(b.path[:len(base.path)], "\x00") == strings.Join(base.path, "\x00") {
			under = append(under, j)
		}
	}
	err := h.Update(func(db Database) error {
		for s := 0; s < n; s++ {
			j := under[r.Intn(len(under))]
			b := w.buckets[j]
			d := db
			for _, p := range b.path[len(base.path):] {
				d = d.Bucket([]byte(p))
			}
			if next[j] == nil {
				next[j] = map[string]*vRec{}
			}
			k := w.key(b)
			if r.Intn(3) == 0 {
				w.log("  delete %q %q", b.path, k)
				if err := d.DeleteObject([]byte(k)); err != nil {
					w.fail("DeleteObject in a transaction failed: %v", err)
				}
				next[j][k] = nil
			} else {
				v := w.rec()
				w.log("  put %q %q %v", b.path, k, v)
				if err := d.PutObject([]byte(k), &v); err != nil {
					w.fail("PutObject in a transaction failed: %v", err)
				}
				next[j][k] = &v
			}
			if d.PutObject([]byte(vReserved[r.Intn(len(vReserved))]), &vRec{}) == nil {
				w.fail("a reserved key was stored in a transaction")
			}
			if r.Intn(3) == 0 {
				w.audit("inside a transaction")
			}
		}
		if fails {
			return boom
		}
		return nil
	})
	w.log("} = %v", err)
	if fails {
		if err != boom {
			w.fail("a transaction whose function failed returned %v", err)
		}
		return
	}
	if err != nil {
		w.fail("a transaction failed: %v", err)
		return
	}
	for j, m := range next {
		for k, v := range m {
			if v == nil {
				delete(w.buckets[j].live, k)
			} else {
				w.buckets[j].live[k] = *v
			}
		}
	}
}

func vWorldRun(seed int64, names []string, steps int) *vWorld {
	dir, _ := os.MkdirTemp("", "verif17")
	defer os.RemoveAll(dir)
	db, err := Open(dir)
	if err != nil {
		panic(err)
	}
	w := &vWorld{rng: rand.New(rand.NewSource(seed)), dir: dir, db: db, cache: map[int]Database{}}
	defer func() { w.db.Close() }()
	for _, p := range vPaths(w.rng, names) {
		w.buckets = append(w.buckets, &vBucket{path: p, live: map[string]vRec{}})
	}
	for s := 0; s < steps && !w.failed; s++ {
		w.step()
		if s%3 == 0 || s == steps-1 {
			w.audit("after the step")
		}
	}
	return w
}

// vSequences checks the keys handed out for a bucket that is filled through them.
func vSequences(w *vWorld, r *rand.Rand) {
	dir, _ := os.MkdirTemp("", "verif17")
	defer os.RemoveAll(dir)
	db, err := Open(dir)
	if err != nil {
		panic(err)
	}
	defer db.Close()
	w.trace = nil
	names := []string{"Async", "Sync", "Async2", "S"}
	live := map[string]map[string]bool{}
	for _, n := range names {
		live[n] = map[string]bool{}
		// neighbours which must not be looked at
		db.Bucket([]byte(n)).Bucket([]byte("Record")).PutObject([]byte("index"), &vRec{})
	}
	start := []uint64{0, 1, 254, 255, 256, 65535, 65536, 1<<32 - 2, 1<<63 - 3, 1<<64 - 40}[r.Intn(10)]
	for s := 0; s < 30 && !w.failed; s++ {
		n := names[r.Intn(len(names))]
		b := db.Bucket([]byte(n))
		switch r.Intn(5) {
		case 0:
			for k := range live[n] {
				w.log("delete %s %x", n, k)
				b.DeleteObject([]byte(k))
				delete(live[n], k)
				break
			}
		case 1:
			if len(live[n]) == 0 {
				k := make([]byte, 8)
				binary.BigEndian.PutUint64(k, start)
				w.log("put %s %x", n, k)
				b.PutObject(k, &vRec{})
				live[n][string(k)] = true
			}
		default:
			k := b.NextSequence()
			w.log("next %s %x", n, k)
			w.checks++
			for o := range live[n] {
				if bytes.Compare(k, []byte(o)) <= 0 || len(k) != 8 {
					w.fail("NextSequence handed out %x for bucket %s, which holds %x", k, n, o)
				}
			}
			if err := b.PutObject(k, &vRec{}); err != nil {
				w.fail("putting under a sequence key: %v", err)
			}
			live[n][string(k)] = true
		}
	}
}

func TestVerifC17(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 150
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 2000
	}
	names := []string{"a", "b", "ab", "repo", "package", "pool", "Record", "a b", "|", "é", "Asyn", "Async"}
	checks, distinct := 0, 0
	for i := 0; i < n; i++ {
		w := vWorldRun(seed*1000003+int64(i), names, 40)
		if !w.failed {
			vSequences(w, w.rng)
		}
		checks += w.checks
		distinct++
		if w.failed {
			t.Fail()
			return
		}
	}
	fmt.Printf("VERIF-EVALS %d %d random histories of 40 operations on up to 8 nested buckets, 30 sequence keys each\n", checks, distinct)
	// names with dashes: a recorded finding
	dir, _ := os.MkdirTemp("", "verif17")
	defer os.RemoveAll(dir)
	db, err := Open(dir)
	if err != nil {
		panic(err)
	}
	defer db.Close()
	one := db.Bucket([]byte("repo")).Bucket([]byte("x")).Bucket([]byte("package"))
	two := db.Bucket([]byte("repo")).Bucket([]byte("x-package")).Bucket([]byte("package"))
	v := vRec{Name: "two"}
	two.PutObject([]byte("k"), &v)
	var o vRec
	c := 0
	one.ForEach(func(k, v []byte) error { c++; return nil })
	if one.GetObject([]byte("package-k"), &o) == nil || c != 0 {
		fmt.Println("VERIF-KNOWN bucket-names-with-dashes: key \"k\" of bucket repo/x-package/package is also key \"package-k\" of bucket repo/x/package")
	}
}

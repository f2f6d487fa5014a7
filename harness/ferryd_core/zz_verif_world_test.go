package core

import (
	"archive/zip"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libeopkg"
)

// Random histories over a real database and file tree in a scratch directory, compared with what
// the properties say. Nothing here replaces the proofs: it finds failing inputs for them.

type vpkg struct {
	id, name, source string
	rel              int
	file             string
	from, to         string // deltas
}

type vsnap struct {
	pool  map[string]PoolEntry
	repos map[string]map[string]RepoEntry
	known map[string]bool
}

type vworld struct {
	t     *testing.T
	prop  string
	dir   string
	m     *Manager
	db    libdb.Database
	rnd   *rand.Rand
	log   []string
	files []*vpkg
	names []string // every repository name ever used
	locks map[string]*Repository
	exact bool

	failAt int // fail the n-th write from now, 0: never
	writes int
	hooks  bool
	inj    bool
}

var errInjected = errors.New("injected failure")

func (w *vworld) fail(prop, f string, a ...interface{}) {
	if prop != w.prop {
		return
	}
	fmt.Printf("VERIF-FAIL property %s: %s\n", prop, fmt.Sprintf(f, a...))
	for _, l := range w.log {
		fmt.Println("   ", l)
	}
	w.t.FailNow()
}

func vzip(file string, parts map[string]string) error {
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer f.Close()
	z := zip.NewWriter(f)
	var ks []string
	for k := range parts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o, err := z.Create(k)
		if err != nil {
			return err
		}
		if _, err = io.WriteString(o, parts[k]); err != nil {
			return err
		}
	}
	return z.Close()
}

func vmeta(name, source string, rel int, version string) string {
	// older history entries of every kind: only the first one counts
	older := ""
	for i, d := range []int{1, -2, 7}[:(rel&3+4)%4] {
		older += fmt.Sprintf(`<Update release="%d"><Date>2019-01-01</Date><Version>0.%d</Version><Comment>c</Comment><Name>n</Name><Email>e</Email></Update>`, rel-d, i)
	}
	// what a package says of deltas means nothing
	claim := ""
	if rel == 3 || rel == 10 {
		claim = `<DeltaPackages><Delta releaseFrom="1"><PackageURI>claimed.delta.eopkg</PackageURI><PackageSize>7</PackageSize><PackageHash>x</PackageHash></Delta></DeltaPackages>`
	}
	return fmt.Sprintf(`<PISI><Source><Name>%s</Name><Packager><Name>x</Name><Email>x</Email></Packager></Source>
<Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>%s</Version><Comment>c</Comment><Name>n</Name><Email>e</Email></Update>%s</History>
<DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture>%s<Source><Name>%s</Name></Source></Package></PISI>`,
		source, name, rel, version, older, claim, source)
}

func (w *vworld) mkpkg(sub, id, name, source string, rel int, version string) *vpkg {
	d := filepath.Join(w.dir, "in", sub)
	os.MkdirAll(d, 0755)
	f := filepath.Join(d, id)
	if err := vzip(f, map[string]string{"metadata.xml": vmeta(name, source, rel, version), "files.xml": "<Files></Files>"}); err != nil {
		w.t.Fatal(err)
	}
	return &vpkg{id: id, name: name, source: source, rel: rel, file: f}
}

func newWorld(t *testing.T, prop string, seed int64, universe bool) *vworld {
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "w")
	if err != nil {
		t.Fatal(err)
	}
	w := &vworld{t: t, prop: prop, dir: dir, rnd: rand.New(rand.NewSource(seed)), exact: true, locks: map[string]*Repository{}}
	base := filepath.Join(dir, "base")
	os.MkdirAll(base, 0755)
	m, err := NewManager(base)
	if err != nil {
		t.Fatal(err)
	}
	w.m, w.db = m, m.db
	m.db = &vdb{Database: m.db, w: w}
	w.note("seed %d", seed)
	if !universe {
		return w
	}
	// a universe of package files
	type nam struct{ n, s string }
	ns := []nam{{"nano", "nano"}, {"nano-dbginfo", "nano"}, {"libfoo", "libfoo"}, {"a", "nano"}, {"foo-dbginfo", "foo"}, {"nano-dbginfo-devel", "nano"}, {"lib", "lib"}, {"nano-dbginfo-dbginfo", "nano"}, {"Nano", "Nano"}, {"nan", "nan"}, {"nano-b", "nano-b"}}
	w.rnd.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	rels := []int{1, 2, 3, 4, 5, 9, 10, 0, -3, 100}
	for _, n := range ns[:2+w.rnd.Intn(4)] {
		k := 2 + w.rnd.Intn(4)
		for i := 0; i < k; i++ {
			r := rels[w.rnd.Intn(len(rels))]
			v := fmt.Sprintf("%d.%d", w.rnd.Intn(3), i)
			w.files = append(w.files, w.mkpkg("p", fmt.Sprintf("%s-%s-%d-1-x86_64.eopkg", n.n, v, r), n.n, n.s, r, v))
			// another build of the same release, of the same version or not
			switch w.rnd.Intn(6) {
			case 0:
				w.files = append(w.files, w.mkpkg("p", fmt.Sprintf("%s-%s-%d-2-x86_64.eopkg", n.n, v, r), n.n, n.s, r, v))
			case 1:
				w.files = append(w.files, w.mkpkg("p", fmt.Sprintf("%s-8%s-%d-1-x86_64.eopkg", n.n, v, r), n.n, n.s, r, "8"+v))
			}
		}
	}
	// another package under a file name already used
	if w.rnd.Intn(3) == 0 {
		f := w.files[w.rnd.Intn(len(w.files))]
		w.files = append(w.files, w.mkpkg("q", f.id, f.name, f.source, f.rel+1, "7"))
		w.files = append(w.files, w.mkpkg("r", f.id, "other", f.source, f.rel, "7"))
	}
	return w
}

func (w *vworld) close() {
	w.m.Close()
	os.RemoveAll(w.dir)
}

func (w *vworld) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

// ---- observing ---------------------------------------------------------------

func (w *vworld) snap() *vsnap {
	s := &vsnap{pool: map[string]PoolEntry{}, repos: map[string]map[string]RepoEntry{}, known: map[string]bool{}}
	pb := w.db.Bucket([]byte(DatabaseBucketPool))
	pb.ForEach(func(k, v []byte) error {
		var e PoolEntry
		if err := pb.Decode(v, &e); err == nil {
			s.pool[string(k)] = e
		}
		return nil
	})
	rb := w.db.Bucket([]byte(DatabaseBucketRepo))
	rb.ForEach(func(k, v []byte) error { s.known[string(k)] = true; return nil })
	for _, n := range w.names {
		l := map[string]RepoEntry{}
		b := rb.Bucket([]byte(n)).Bucket([]byte(DatabaseBucketPackage))
		b.ForEach(func(k, v []byte) error {
			var e RepoEntry
			if err := b.Decode(v, &e); err == nil {
				l[string(k)] = e
			}
			return nil
		})
		if len(l) > 0 || s.known[n] {
			s.repos[n] = l
		}
	}
	return s
}

func in(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func (s *vsnap) lists(r, id string) bool {
	for _, e := range s.repos[r] {
		if in(e.Available, id) || in(e.Deltas, id) {
			return true
		}
	}
	return false
}

func (s *vsnap) count(id string) (n int) {
	for r := range s.repos {
		if s.lists(r, id) {
			n++
		}
	}
	return
}

func (s *vsnap) listed() map[string]bool {
	m := map[string]bool{}
	for _, l := range s.repos {
		for _, e := range l {
			for _, id := range append(append([]string{}, e.Available...), e.Deltas...) {
				m[id] = true
			}
		}
	}
	return m
}

func (s *vsnap) rel(id string) int { e := s.pool[id]; return e.Meta.History[0].Release }

// wellFormed: C03 and the backing of every listing, C02
func (w *vworld) wellFormed(s *vsnap, when string) {
	for id := range s.listed() {
		p, ok := s.pool[id]
		if !ok {
			w.fail("C02", "%s: %s is listed but has no pool record", when, id)
			return
		}
		if int(p.RefCount) < s.count(id) {
			w.fail("C02", "%s: %s is counted %d times but listed by %d repositories", when, id, p.RefCount, s.count(id))
		}
		if _, err := os.Stat(w.m.pool.GetMetaPoolPath(id, p.Meta)); err != nil {
			w.fail("C02", "%s: %s is listed but its pool file is gone", when, id)
		}
	}
	for id, p := range s.pool {
		if _, err := os.Stat(w.m.pool.GetMetaPoolPath(id, p.Meta)); err != nil {
			w.fail("C02", "%s: pool record %s has no file", when, id)
		}
	}
	for r, l := range s.repos {
		for n, e := range l {
			if e.Name != n || len(e.Available) == 0 || !in(e.Available, e.Published) {
				w.fail("C03", "%s: entry %s of %s is %+v", when, n, r, e)
			}
			if !sort.StringsAreSorted(e.Available) {
				w.fail("C03", "%s: available of %s in %s not sorted: %v", when, n, r, e.Available)
			}
			seen := map[string]bool{}
			for _, id := range append(append([]string{}, e.Available...), e.Deltas...) {
				if seen[id] {
					w.fail("C03", "%s: %s twice in %s of %s", when, id, n, r)
				}
				seen[id] = true
				p, ok := s.pool[id]
				if !ok {
					return
				}
				if p.Meta.Name != n {
					w.fail("C03", "%s: %s (of %s) listed under %s in %s", when, id, p.Meta.Name, n, r)
				}
			}
			for _, id := range e.Available {
				if s.rel(id) > s.rel(e.Published) {
					w.fail("C03", "%s: %s publishes %s for %s although %s is newer", when, r, e.Published, n, id)
				}
			}
		}
	}
}

// ---- a database that observes writes and can fail ------------------------------

type vdb struct {
	libdb.Database
	w     *vworld
	path  []string
	batch bool
}

func (d *vdb) Bucket(id []byte) libdb.Database {
	return &vdb{Database: d.Database.Bucket(id), w: d.w, path: append(append([]string{}, d.path...), string(id)), batch: d.batch}
}

func (d *vdb) lockCheck() {
	if d.w.prop == "C23" && len(d.path) == 3 && d.path[0] == DatabaseBucketRepo && d.path[2] == DatabaseBucketPackage {
		if r := d.w.locks[d.path[1]]; r != nil && r.insertMut.TryLock() {
			r.insertMut.Unlock()
			d.w.fail("C23", "listing of %s written without holding its lock", d.path[1])
		}
	}
}

func (d *vdb) before() bool {
	w := d.w
	w.writes++
	if w.hooks {
		w.wellFormed(w.snap(), fmt.Sprintf("just before write %d", w.writes))
	}
	if w.failAt > 0 {
		w.failAt--
		if w.failAt == 0 {
			w.inj = true
			return false
		}
	}
	return true
}

func (d *vdb) after() {
	if d.w.hooks {
		d.w.wellFormed(d.w.snap(), fmt.Sprintf("just after write %d", d.w.writes))
	}
}

func (d *vdb) PutObject(id []byte, o interface{}) error {
	d.lockCheck()
	if d.batch {
		return d.Database.PutObject(id, o)
	}
	if !d.before() {
		return errInjected
	}
	err := d.Database.PutObject(id, o)
	d.after()
	return err
}

func (d *vdb) DeleteObject(id []byte) error {
	d.lockCheck()
	if d.batch {
		return d.Database.DeleteObject(id)
	}
	if !d.before() {
		return errInjected
	}
	err := d.Database.DeleteObject(id)
	d.after()
	return err
}

func (d *vdb) Update(f libdb.WriterFunc) error {
	ok := d.before()
	err := d.Database.Update(func(db libdb.Database) error {
		if err := f(&vdb{Database: db, w: d.w, path: d.path, batch: true}); err != nil {
			return err
		}
		if !ok {
			return errInjected
		}
		return nil
	})
	d.after()
	return err
}

// ---- operations ---------------------------------------------------------------

type vop struct {
	kind   string
	repo   string
	other  string
	pkg    *vpkg
	source string
	rel    int
	max    int
	flag   bool
	obs    []string
	names  []string
	skip   bool
	api    bool // through the manager
	pkgs   []*vpkg
}

func (w *vworld) repo(n string) *Repository {
	r, err := w.m.repo.GetRepo(w.m.db, n)
	if err != nil {
		w.t.Fatalf("no repository %s: %v", n, err)
	}
	w.locks[n] = r
	return r
}

// do runs one operation under a watchdog and compares.
func (w *vworld) do(o *vop) error {
	s0 := w.snap()
	w.note("%s repo=%s other=%s pkg=%v source=%q rel=%d max=%d flag=%v", o.kind, o.repo, o.other, func() string {
		if o.pkg == nil {
			return "-"
		}
		return fmt.Sprintf("%s(%s from %s)", strings.TrimPrefix(o.pkg.file, w.dir)+"#"+o.pkg.id, o.pkg.name, o.pkg.source)
	}(), o.source, o.rel, o.max, o.flag)
	if o.api {
		// the one the manager will use
		delete(w.locks, o.repo)
		if s0.known[o.repo] {
			w.repo(o.repo)
		}
	}
	restore := func() {}
	if w.prop == "C01" || w.prop == "C02" || w.prop == "C23" {
		restore = w.fault(o, s0)
	}
	b0, _ := os.ReadFile(filepath.Join(w.m.repo.repoBase, o.repo, "eopkg-index.xml"))
	var err error
	done := make(chan bool)
	var pan interface{}
	go func() {
		defer close(done)
		defer func() { pan = recover() }()
		err = w.exec(o)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		w.fail(w.prop, "the operation does not return (a lock was not released?)")
		w.t.Fatal("stuck")
	}
	if w.t.Failed() {
		w.t.FailNow()
	}
	if pan != nil {
		w.fail(w.prop, "the operation panicked: %v", pan)
		w.t.Fatal("panic")
	}
	w.note("   -> %v", err)
	restore()
	if w.prop == "C08" && o.api && err == nil && (o.kind == "removesource" || o.kind == "copysource") {
		ix := filepath.Join(w.m.repo.repoBase, o.repo, "eopkg-index.xml")
		b1, _ := os.ReadFile(ix)
		if o.kind == "copysource" && o.skip {
			if string(b0) != string(b1) {
				w.fail("C08", "the target was indexed although that was to be skipped")
			}
		} else if e := w.m.Index(o.repo); e != nil {
			w.fail("C08", "indexing fails: %v", e)
		} else if b2, _ := os.ReadFile(ix); string(b1) != string(b2) {
			w.fail("C08", "the index was not brought up to date by %s", o.kind)
		}
	}
	for n, r := range w.locks {
		for _, mu := range []*sync.Mutex{r.insertMut, r.indexMut} {
			if !mu.TryLock() {
				w.fail("C23", "a lock of %s is still held after %s", n, o.kind)
			} else {
				mu.Unlock()
			}
		}
	}
	if w.m.repo.repoLock.TryLock() {
		w.m.repo.repoLock.Unlock()
	} else {
		w.fail("C23", "the repository cache lock is still held after %s", o.kind)
	}
	w.compare(o, s0, w.snap(), err)
	return err
}

// fault makes something in the file tree an operation works on unusable, sometimes, and tells how to repair it.
func (w *vworld) fault(o *vop, s *vsnap) func() {
	nop := func() {}
	if w.rnd.Intn(6) > 0 || !s.known[o.repo] {
		return nop
	}
	base := filepath.Join(w.m.repo.repoBase, o.repo)
	var block, kind string
	switch o.kind {
	case "unref", "removesource", "trim", "obsolete":
		// an exported file that cannot be removed, or is not there
		var ids []string
		for _, e := range s.repos[o.repo] {
			ids = append(ids, e.Available...)
			ids = append(ids, e.Deltas...)
		}
		sort.Strings(ids)
		if len(ids) == 0 {
			return nop
		}
		id := w.pick(ids)
		if o.kind == "unref" && w.rnd.Intn(2) == 0 {
			id = o.pkg.id
		}
		p := s.pool[id]
		file := filepath.Join(base, p.Meta.GetPathComponent(), id)
		back := filepath.Join(w.dir, "back")
		if os.Rename(file, back) != nil {
			return nop
		}
		kind = "missing"
		if w.rnd.Intn(2) == 0 {
			os.MkdirAll(filepath.Join(file, "x"), 0755)
			kind = "blocked"
		}
		w.note("   (%s is %s)", file[len(w.dir):], kind)
		w.inj = true
		return func() {
			os.RemoveAll(file)
			if w.snap().lists(o.repo, id) {
				os.MkdirAll(filepath.Dir(file), 0755)
				os.Rename(back, file)
			}
			os.Remove(back)
		}
	case "add", "adddelta":
		// a directory that cannot be created
		m := libeopkg.MetaPackage{Source: libeopkg.Source{Name: o.pkg.source}}
		for _, d := range []string{base, w.m.pool.poolDir} {
			if b := filepath.Join(d, m.GetPathComponent()); !PathExists(b) && PathExists(d) && (block == "" || w.rnd.Intn(2) == 0) {
				block = b
			}
		}
		if block == "" && o.kind == "adddelta" {
			// the directory is there: hide it
			b := filepath.Join(base, m.GetPathComponent())
			back := filepath.Join(w.dir, "back")
			if os.Rename(b, back) != nil {
				return nop
			}
			os.WriteFile(b, nil, 0644)
			w.note("   (%s is a file)", b[len(w.dir):])
			w.inj = true
			return func() {
				os.RemoveAll(b)
				os.Rename(back, b)
			}
		}
		if block == "" {
			return nop
		}
		os.MkdirAll(filepath.Dir(block), 0755)
		if os.WriteFile(block, nil, 0644) != nil {
			return nop
		}
		w.note("   (%s is a file)", block[len(w.dir):])
		w.inj = true
		return func() {
			if fi, err := os.Lstat(block); err == nil && fi.Mode().IsRegular() {
				os.Remove(block)
			}
		}
	}
	return nop
}

// viaManager runs an operation the way the jobs do.
func (w *vworld) viaManager(o *vop) (bool, error) {
	m := w.m
	if !o.api {
		return false, nil
	}
	switch o.kind {
	case "add":
		return true, m.AddPackages(o.repo, []string{o.pkg.file}, o.flag)
	case "addmany":
		var fs []string
		for _, p := range o.pkgs {
			fs = append(fs, p.file)
		}
		w.note("   uploads, in order: %v", fs)
		return true, m.AddPackages(o.repo, fs, o.flag)
	case "removesource":
		return true, m.RemoveSource(o.repo, o.source, o.rel)
	case "copysource":
		return true, m.CopySource(o.other, o.repo, o.source, o.rel, o.skip)
	case "clone":
		return true, m.CloneRepo(o.other, o.repo, o.flag)
	case "pull":
		n, err := m.PullRepo(o.other, o.repo)
		o.names = n
		return true, err
	case "trim":
		return true, m.TrimPackages(o.repo, o.max)
	case "delete":
		return true, m.DeleteRepo(o.repo)
	}
	return false, nil
}

func (w *vworld) exec(o *vop) error {
	if done, err := w.viaManager(o); done {
		return err
	}
	db, pool := w.m.db, w.m.pool
	switch o.kind {
	case "create":
		w.names = append(w.names, o.repo)
		_, err := w.m.repo.CreateRepo(db, o.repo)
		return err
	case "delete":
		return w.m.repo.DeleteRepo(db, pool, o.repo)
	case "add":
		return w.repo(o.repo).AddPackage(db, pool, o.pkg.file, o.flag)
	case "unref":
		return w.repo(o.repo).UnrefPackage(db, pool, o.pkg.id)
	case "refpkg":
		return w.repo(o.repo).RefPackage(db, pool, o.pkg.id)
	case "adddelta":
		return w.repo(o.repo).AddDelta(db, pool, o.pkg.file, &DeltaInformation{FromID: o.pkg.from, ToID: o.pkg.to})
	case "refdelta":
		return w.repo(o.repo).RefDelta(db, pool, o.pkg.id)
	case "removesource":
		return w.repo(o.repo).RemoveSource(db, pool, o.source, o.rel)
	case "copysource":
		return w.repo(o.repo).CopySourceFrom(db, pool, w.repo(o.other), o.source, o.rel)
	case "clone":
		return w.repo(o.repo).CloneFrom(db, pool, w.repo(o.other), o.flag)
	case "pull":
		n, err := w.repo(o.repo).PullFrom(db, pool, w.repo(o.other))
		o.names = n
		return err
	case "trim":
		return w.repo(o.repo).TrimPackages(db, pool, o.max)
	case "obsolete":
		r := w.repo(o.repo)
		p := filepath.Join(r.assetPath, "distribution.xml")
		os.Remove(p)
		if o.flag {
			x := "<PISI><SourceName>s</SourceName><Obsoletes>"
			for _, n := range o.obs {
				x += "<Package>" + n + "</Package>"
			}
			os.WriteFile(p, []byte(x+"</Obsoletes></PISI>"), 0644)
		}
		return r.TrimObsolete(db, pool)
	}
	panic(o.kind)
}

// without gives the entries left after removing a set of packages.
func (s *vsnap) without(l map[string]RepoEntry, ids map[string]bool) map[string]RepoEntry {
	r := map[string]RepoEntry{}
	for n, e := range l {
		f := e
		f.Available, f.Deltas = nil, nil
		for _, id := range e.Available {
			if !ids[id] {
				f.Available = append(f.Available, id)
			}
		}
		if len(f.Available) == 0 {
			continue
		}
		for _, id := range e.Deltas {
			d := s.pool[id].Delta
			if d == nil || (!ids[d.FromID] && !ids[d.ToID]) {
				f.Deltas = append(f.Deltas, id)
			}
		}
		r[n] = f
	}
	return r
}

// same compares listings, leaving the choice of the published version open
func (w *vworld) same(prop, what string, got, want map[string]RepoEntry, withDeltas bool) {
	for n := range want {
		if _, ok := got[n]; !ok {
			w.fail(prop, "%s: %s is no longer listed", what, n)
		}
	}
	for n, g := range got {
		x, ok := want[n]
		if !ok {
			w.fail(prop, "%s: %s is unexpectedly listed: %v", what, n, g.Available)
		}
		a, b := append([]string{}, g.Available...), append([]string{}, x.Available...)
		sort.Strings(a)
		sort.Strings(b)
		if !reflect.DeepEqual(a, b) {
			w.fail(prop, "%s: %s has versions %v, expected %v", what, n, a, b)
		}
		if withDeltas {
			a, b := append([]string{}, g.Deltas...), append([]string{}, x.Deltas...)
			sort.Strings(a)
			sort.Strings(b)
			if !reflect.DeepEqual(a, b) {
				w.fail(prop, "%s: %s has deltas %v, expected %v", what, n, a, b)
			}
		}
	}
}

// plus gives the entries with some versions added.
func (s *vsnap) plus(l map[string]RepoEntry, s2 *vsnap, ids map[string]bool) map[string]RepoEntry {
	r := map[string]RepoEntry{}
	for n, e := range l {
		e.Available = append([]string{}, e.Available...)
		r[n] = e
	}
	for id := range ids {
		n := s2.pool[id].Meta.Name
		e := r[n]
		if !in(e.Available, id) {
			e.Available = append(e.Available, id)
		}
		r[n] = e
	}
	return r
}

func (w *vworld) unchanged(prop, what string, s0, s1 *vsnap) {
	if !reflect.DeepEqual(s0.repos, s1.repos) || !reflect.DeepEqual(s0.pool, s1.pool) {
		w.fail(prop, "%s changed something", what)
	}
}

func (w *vworld) compare(o *vop, s0, s1 *vsnap, err error) {
	inj := w.inj
	w.inj = false
	w.wellFormed(s1, "after "+o.kind)
	// other repositories
	for r, l := range s0.repos {
		if r != o.repo && !reflect.DeepEqual(l, s1.repos[r]) {
			w.fail("C01", "%s of %s changed what %s lists", o.kind, o.repo, r)
			w.fail("C19", "%s of %s changed what %s lists", o.kind, o.repo, r)
			w.fail("C07", "%s of %s changed what %s lists", o.kind, o.repo, r)
			w.fail("C06", "%s of %s changed what %s lists", o.kind, o.repo, r)
			w.fail("C08", "%s of %s changed what %s lists", o.kind, o.repo, r)
		}
	}
	exact := true
	for id, p := range s1.pool {
		n := s1.count(id)
		if int(p.RefCount) != n {
			exact = false
			if w.exact && err == nil {
				w.fail("C01", "after %s: %s is counted %d times but listed by %d repositories", o.kind, id, p.RefCount, n)
			}
			if int(p.RefCount) < n {
				w.fail("C01", "after %s: %s is counted %d times but listed by %d repositories", o.kind, id, p.RefCount, n)
			}
		}
	}
	for id := range s1.listed() {
		if _, ok := s1.pool[id]; !ok {
			w.fail("C01", "after %s: %s is listed but not in the pool", o.kind, id)
		}
	}
	if !inj && w.exact && err == nil {
		for id, p := range s0.pool {
			if s0.lists(o.repo, id) == s1.lists(o.repo, id) && !reflect.DeepEqual(p, s1.pool[id]) {
				w.fail("C01", "%s changed the pool item %s which it neither added nor removed", o.kind, id)
			}
		}
	}
	w.exact = w.exact && exact
	if err == nil && w.exact {
		recs := map[string]bool{}
		for id, p := range s1.pool {
			recs[w.m.pool.GetMetaPoolPath(id, p.Meta)] = true
		}
		filepath.Walk(w.m.pool.poolDir, func(p string, fi os.FileInfo, e error) error {
			if e == nil && fi.Mode().IsRegular() && !recs[p] {
				w.fail("C02", "after %s: the pool still holds %s, which nothing lists", o.kind, p[len(w.m.pool.poolDir):])
			}
			return nil
		})
	}
	if inj {
		return
	}
	l0, l1 := s0.repos[o.repo], s1.repos[o.repo]
	switch o.kind {
	case "create":
		_, was := s0.repos[o.repo]
		if (err == nil) == was {
			w.fail("C19", "create %s: %v although the repository existed: %v", o.repo, err, was)
		}
		if err == nil && (len(l1) != 0 || !s1.known[o.repo]) {
			w.fail("C19", "a new repository lists %v", l1)
		}
	case "delete":
		if !s0.known[o.repo] {
			if err == nil {
				w.fail("C19", "deleting an unknown repository succeeded")
			}
			w.unchanged("C19", "deleting an unknown repository", s0, s1)
			return
		}
		if err != nil {
			if w.exact {
				w.fail("C19", "deleting %s failed: %v", o.repo, err)
			}
			return
		}
		if _, e := w.m.GetRepo(o.repo); e == nil {
			w.fail("C19", "%s is still known after its deletion", o.repo)
		}
		if e := w.m.DeleteRepo(o.repo); e == nil {
			w.fail("C19", "%s was deleted twice", o.repo)
		}
		if _, ok := s1.repos[o.repo]; ok {
			w.fail("C19", "%s still exists after its deletion: %v", o.repo, l1)
		}
		for _, d := range []string{w.m.repo.repoBase, w.m.repo.assetBase, w.m.repo.deltaBase, w.m.repo.deltaStageBase} {
			if PathExists(filepath.Join(d, o.repo)) {
				w.fail("C19", "%s is still there after the repository's deletion", filepath.Join(d, o.repo)[len(w.dir):])
			}
			for r := range s1.known {
				if !PathExists(filepath.Join(d, r)) {
					w.fail("C19", "the directory of %s went with %s", r, o.repo)
				}
			}
		}
	case "addmany":
		// taken in order up to the first one that is not newer
		tip := map[string]int{}
		for n, e := range l0 {
			tip[n] = s0.rel(e.Published)
		}
		now, bad := map[string]bool{}, ""
		for _, p := range o.pkgs {
			if t, have := tip[p.name]; o.flag && have && p.rel <= t {
				bad = p.id
				break
			} else if !have || p.rel > t {
				tip[p.name] = p.rel
			}
			now[p.id] = true
		}
		if err == nil {
			if bad != "" {
				w.fail("C04", "uploads succeeded with %s, which is not newer than the published one", bad)
			}
			w.same("C04", "inclusion", l1, s0.plus(l0, s1, now), true)
			break
		}
		for n, e := range l1 {
			for _, id := range e.Available {
				if !in(l0[n].Available, id) && !now[id] {
					w.fail("C04", "refused uploads (%v) left %s listed", err, id)
				}
			}
		}
	case "add":
		e, have := l0[o.pkg.name]
		if o.flag {
			newer := !have || o.pkg.rel > s0.rel(e.Published)
			if !newer {
				if err == nil {
					w.fail("C04", "an upload of release %d was accepted over %s", o.pkg.rel, e.Published)
				}
				w.unchanged("C04", "a refused upload", s0, s1)
			} else if p, ok := s0.pool[o.pkg.id]; err != nil && (!ok || (p.Delta == nil && p.Meta.Name == o.pkg.name && s0.rel(o.pkg.id) == o.pkg.rel)) {
				w.fail("C04", "a newer upload was refused: %v", err)
			}
		}
		if err == nil {
			x := s0.plus(l0, s1, map[string]bool{o.pkg.id: true})
			w.same("C04", "inclusion", l1, x, true)
			w.same("C01", "inclusion", l1, x, true)
			w.same("C03", "inclusion", l1, x, true)
		} else {
			w.same("C04", "refused inclusion", l1, l0, true)
		}
	case "unref":
		if err == nil {
			w.same("C03", "removal", l1, s0.without(l0, map[string]bool{o.pkg.id: true}), true)
		}
	case "removesource", "copysource":
		src := o.repo
		if o.kind == "copysource" {
			src = o.other
		}
		ids := map[string]bool{}
		for _, e := range s0.repos[src] {
			for _, id := range e.Available {
				if s0.pool[id].Meta.Source.Name == o.source && (o.rel <= 0 || s0.rel(id) == o.rel) {
					ids[id] = true
				}
			}
		}
		if len(ids) == 0 {
			if err == nil {
				w.fail("C08", "%s matched nothing and succeeded", o.kind)
			}
			w.unchanged("C08", o.kind+" without a match", s0, s1)
			return
		}
		if err != nil {
			w.fail("C08", "%s failed: %v", o.kind, err)
			return
		}
		if o.kind == "removesource" {
			w.same("C08", o.kind, l1, s0.without(l0, ids), true)
		} else {
			w.same("C08", o.kind, l1, s0.plus(l0, s0, ids), true)
		}
	case "clone":
		if o.api && s0.known[o.repo] {
			if err == nil {
				w.fail("C07", "cloning to %s, which exists, succeeded", o.repo)
			}
			w.unchanged("C07", "a refused clone", s0, s1)
			return
		}
		if err == nil && !s1.known[o.repo] {
			w.fail("C07", "there is no %s after cloning to it", o.repo)
		}
		if err != nil {
			w.fail("C07", "clone failed: %v", err)
			return
		}
		if len(l0) != 0 {
			return
		}
		x := map[string]RepoEntry{}
		for n, e := range s0.repos[o.other] {
			if !o.flag {
				e.Available, e.Deltas = []string{e.Published}, nil
			}
			x[n] = e
		}
		w.same("C07", "clone", l1, x, true)
	case "pull":
		ids := map[string]bool{}
		names := map[string]bool{}
		bad := false
		for n, e := range s0.repos[o.other] {
			t, ok := l0[n]
			switch {
			case !ok || s0.rel(t.Published) < s0.rel(e.Published):
				ids[e.Published] = true
				names[n] = true
			case s0.rel(t.Published) > s0.rel(e.Published):
				bad = true
			}
		}
		if bad {
			if err == nil {
				w.fail("C06", "pull succeeded although the target is ahead of the source")
			}
			w.unchanged("C06", "a refused pull", s0, s1)
			return
		}
		if err != nil {
			w.fail("C06", "pull failed: %v", err)
			return
		}
		w.same("C06", "pull", l1, s0.plus(l0, s0, ids), true)
		got := map[string]bool{}
		for _, n := range o.names {
			if got[n] {
				w.fail("C06", "name %s reported twice", n)
			}
			got[n] = true
		}
		if !reflect.DeepEqual(got, names) {
			w.fail("C06", "pull reported %v, it changed %v", got, names)
		}
	case "trim":
		if o.max < 1 {
			if err == nil {
				w.fail("C09", "trimming to %d succeeded", o.max)
			}
			w.unchanged("C09", "a refused trim", s0, s1)
			return
		}
		if err != nil {
			w.fail("C09", "trim failed: %v", err)
			return
		}
		gone := map[string]bool{}
		for n, e := range l0 {
			f := l1[n]
			want := len(e.Available)
			if want > o.max {
				want = o.max
			}
			if len(f.Available) != want {
				w.fail("C09", "trimming %s to %d left %v of %v", n, o.max, f.Available, e.Available)
			}
			if !in(f.Available, e.Published) {
				w.fail("C09", "trimming removed the published %s", e.Published)
			}
			for _, id := range e.Available {
				if in(f.Available, id) {
					continue
				}
				gone[id] = true
				for _, k := range f.Available {
					if s0.rel(k) < s0.rel(id) {
						w.fail("C09", "trimming removed %s but kept the older %s", id, k)
					}
				}
			}
		}
		w.same("C09", "trim", l1, s0.without(l0, gone), true)
	case "obsolete":
		if !o.flag {
			if err == nil {
				w.fail("C10", "trimming obsoletes without a distribution succeeded")
			}
			w.unchanged("C10", "a refused trim", s0, s1)
			return
		}
		if err != nil {
			w.fail("C10", "trimming obsoletes failed: %v", err)
			return
		}
		ids := map[string]bool{}
		for n, e := range l0 {
			if in(o.obs, n) || in(o.obs, strings.TrimSuffix(n, "-dbginfo")) {
				for _, id := range e.Available {
					ids[id] = true
				}
			}
		}
		w.same("C10", "trimming obsoletes", l1, s0.without(l0, ids), true)
	}
}

func (w *vworld) pick(l []string) string { return l[w.rnd.Intn(len(l))] }

// history runs one random history.
func (w *vworld) history(steps int) {
	var live []string
	fresh := 0
	add := func() string {
		fresh++
		n := fmt.Sprintf("r%d", fresh)
		if w.rnd.Intn(4) == 0 && len(w.names) > 0 {
			n = w.pick(w.names)
		}
		if w.do(&vop{kind: "create", repo: n}) == nil {
			live = append(live, n)
		}
		return n
	}
	add()
	add()
	// a first stock
	for _, f := range w.files {
		if w.rnd.Intn(3) > 0 {
			w.do(&vop{kind: "add", repo: w.pick(live), pkg: f})
		}
	}
	for i := 0; i < steps; i++ {
		if len(live) < 2 {
			add()
			continue
		}
		if w.prop == "C02" || w.prop == "C01" || w.prop == "C03" || w.prop == "C23" {
			if w.rnd.Intn(6) == 0 {
				w.failAt = 1 + w.rnd.Intn(8)
			} else {
				w.failAt = 0
			}
		}
		r := w.pick(live)
		o := &vop{repo: r, pkg: w.files[w.rnd.Intn(len(w.files))]}
		o.other = w.pick(live)
		for o.other == r {
			o.other = w.pick(live)
		}
		o.flag = w.rnd.Intn(2) == 0
		o.skip = w.rnd.Intn(2) == 0
		o.source = []string{"nano", "libfoo", "foo", "none", "Nano", "nan", o.pkg.source, o.pkg.name, ""}[w.rnd.Intn(9)]
		o.rel = []int{-1, 0, o.pkg.rel, 1, 2, 3}[w.rnd.Intn(6)]
		o.max = []int{1, 2, 3, 0, -1, 1, 2}[w.rnd.Intn(7)]
		kinds := []string{"add", "add", "add", "add", "unref", "refpkg", "adddelta", "adddelta", "adddelta", "refdelta", "refdelta", "removesource", "copysource", "clone", "pull", "trim", "obsolete", "delete", "create"}
		bias := map[string][]string{"C04": {"add"}, "C06": {"pull"}, "C07": {"clone"}, "C08": {"removesource", "copysource"}, "C09": {"trim"}, "C10": {"obsolete"}, "C19": {"delete", "create"}}
		o.kind = w.pick(kinds)
		if b := bias[w.prop]; b != nil && w.rnd.Intn(3) == 0 {
			o.kind = w.pick(b)
		}
		s := w.snap()
		o.api = w.rnd.Intn(3) == 0
		if w.rnd.Intn(20) == 0 && w.foreignDelta(s, r, o.other) {
			w.failAt = 0
			continue
		}
		if w.prop == "C04" && o.kind == "add" && w.rnd.Intn(3) == 0 {
			o.kind, o.api = "addmany", true
			for k := 1 + w.rnd.Intn(3); k >= 0; k-- {
				o.pkgs = append(o.pkgs, w.files[w.rnd.Intn(len(w.files))])
			}
		}
		switch o.kind {
		case "create":
			w.failAt = 0
			add()
			continue
		case "delete":
			if w.rnd.Intn(4) == 0 {
				o.repo = "nosuch"
			}
			if w.do(o) == nil {
				var l []string
				for _, n := range live {
					if n != o.repo {
						l = append(l, n)
					}
				}
				live = l
			} else if w.failAt == 0 && o.repo != "nosuch" && !w.snap().known[o.repo] {
				// interrupted halfway: the name is gone
				var l []string
				for _, n := range live {
					if n != o.repo {
						l = append(l, n)
					}
				}
				live = l
			}
			continue
		case "unref", "refpkg":
			// as its callers do: something the repository lists, or the pool has
			var ids []string
			if o.kind == "unref" {
				for _, e := range s.repos[r] {
					ids = append(ids, e.Available...)
				}
			} else {
				for id, p := range s.pool {
					if p.Delta == nil {
						ids = append(ids, id)
					}
				}
			}
			if len(ids) == 0 {
				continue
			}
			sort.Strings(ids)
			id := w.pick(ids)
			o.pkg = &vpkg{id: id, name: s.pool[id].Meta.Name, source: s.pool[id].Meta.Source.Name, rel: s.rel(id)}
		case "adddelta":
			// between two versions of a name
			var es []string
			for n, e := range s.repos[r] {
				if len(e.Available) > 1 {
					es = append(es, n)
				}
			}
			if len(es) == 0 {
				continue
			}
			sort.Strings(es)
			e := s.repos[r][w.pick(es)]
			a, b := w.pick(e.Available), w.pick(e.Available)
			if s.rel(a) > s.rel(b) {
				a, b = b, a
			}
			if s.rel(a) == s.rel(b) {
				continue
			}
			id := fmt.Sprintf("%s-%d-%d-1-x86_64.delta.eopkg", e.Name, s.rel(a), s.rel(b))
			o.pkg = w.mkpkg("d", id, e.Name, s.pool[b].Meta.Source.Name, s.rel(b), "1")
			o.pkg.from, o.pkg.to = a, b
		case "refdelta":
			var ids []string
			for id, p := range s.pool {
				if p.Delta != nil {
					// as the delta job does: only for a name listed there
					if _, ok := s.repos[r][p.Meta.Name]; ok {
						ids = append(ids, id)
					}
				}
			}
			if len(ids) == 0 {
				continue
			}
			sort.Strings(ids)
			o.pkg = &vpkg{id: w.pick(ids)}
		case "clone":
			if o.api {
				if w.rnd.Intn(3) > 0 {
					fresh++
					o.repo = fmt.Sprintf("r%d", fresh)
					w.names = append(w.names, o.repo)
				}
				w.do(o)
				if w.snap().known[o.repo] && !in(live, o.repo) {
					live = append(live, o.repo)
				}
				w.failAt = 0
				continue
			}
			if w.rnd.Intn(4) > 0 {
				// into a new repository, as the manager does
				w.failAt = 0
				n := len(live)
				add()
				if len(live) == n {
					continue
				}
				o.repo = live[len(live)-1]
				if o.repo == o.other {
					continue
				}
			}
		case "obsolete":
			for _, n := range []string{"nano", "nano-dbginfo", "libfoo", "a", "foo", "lib", "devel"} {
				if w.rnd.Intn(4) == 0 {
					o.obs = append(o.obs, n)
				}
			}
		}
		w.do(o)
		w.failAt = 0
	}
}

// foreignDelta puts a delta into a repository that lists the name but not the delta's ends, and removes the name there or the repository.
func (w *vworld) foreignDelta(s *vsnap, from, to string) bool {
	var ids []string
	for _, e := range s.repos[from] {
		for _, d := range e.Deltas {
			for _, id := range e.Available {
				if s.pool[d].Delta.FromID != id && s.pool[d].Delta.ToID != id {
					ids = append(ids, d+" "+id)
				}
			}
		}
	}
	if len(ids) == 0 {
		return false
	}
	sort.Strings(ids)
	f := strings.Fields(w.pick(ids))
	if w.do(&vop{kind: "refpkg", repo: to, pkg: &vpkg{id: f[1]}}) != nil || w.do(&vop{kind: "refdelta", repo: to, pkg: &vpkg{id: f[0]}}) != nil {
		return true
	}
	e := w.snap().repos[to][s.pool[f[1]].Meta.Name]
	for _, id := range e.Available {
		w.do(&vop{kind: "unref", repo: to, pkg: &vpkg{id: id}})
	}
	return true
}

func verifHistories(t *testing.T, prop string) {
	n, steps := 60, 25
	if os.Getenv("VERIF_TIER") == "thorough" {
		n, steps = 600, 40
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tools, err := os.MkdirTemp("", "t")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tools)
	defer vfakeTools(filepath.Join(tools, "bin"), `for a; do case "$a" in *.new) cp "$a" "$a.xz";; esac; done`, `for a; do case "$a" in *.new) cp "$a" "$a.zst";; esac; done`)()
	ops, kinds := 0, map[string]bool{}
	for i := 0; i < n; i++ {
		w := newWorld(t, prop, seed*100000+int64(i), true)
		w.hooks = (prop == "C02" || prop == "C03") && i%3 != 2
		w.history(steps)
		for _, l := range w.log {
			if !strings.HasPrefix(l, "   ") {
				ops++
				kinds[l] = true
			}
		}
		if i == 0 {
			k := len(w.log)
			if k > 6 {
				k = 6
			}
			for _, l := range w.log[:k] {
				fmt.Println("VERIF-SAMPLE", l)
			}
		}
		w.close()
	}
	if prop == "C01" || prop == "C23" {
		k := verifSchedules(t, prop)
		ops += k
		kinds[fmt.Sprint(k, " schedules")] = true
	}
	fmt.Printf("VERIF-EVALS %d %d operations in %d random histories of repository operations (real database and file tree, failing writes in some), each compared with the property; distinct by operation and arguments\n", ops, len(kinds), n)
}

func TestVerifC01(t *testing.T) { verifHistories(t, "C01") }
func TestVerifC02(t *testing.T) { verifHistories(t, "C02") }
func TestVerifC03(t *testing.T) { verifHistories(t, "C03") }
func TestVerifC04(t *testing.T) { verifHistories(t, "C04") }
func TestVerifC06(t *testing.T) { verifHistories(t, "C06") }
func TestVerifC07(t *testing.T) { verifHistories(t, "C07") }
func TestVerifC08(t *testing.T) { verifHistories(t, "C08") }
func TestVerifC09(t *testing.T) { verifHistories(t, "C09") }
func TestVerifC10(t *testing.T) { verifHistories(t, "C10") }
func TestVerifC19(t *testing.T) { verifHistories(t, "C19") }
func TestVerifC23(t *testing.T) { verifHistories(t, "C23") }

var _ = libeopkg.Open

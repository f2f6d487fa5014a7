H='helper_core_test.go'
P='ferryd/core'
R='ferryd/core/repo.go'
X='ferryd/core/repo_index.go'
J='ferryd/jobs/store.go'
L='libdb/leveldb.go'
JT='''package jobs
import (
	"fmt"
	"path/filepath"
	"os"
	"io"
	"sync"
	"testing"
	log "github.com/sirupsen/logrus"
)
var _ = fmt.Sprint
var _ sync.Mutex
func jstore(t *testing.T) *JobStore {
	log.SetOutput(io.Discard)
	d := filepath.Join(t.TempDir(), "base")
	os.MkdirAll(d, 0755)
	s, err := NewStore(d)
	if err != nil { t.Fatal(err) }
	t.Cleanup(s.Close)
	return s
}
'''
SEEDS=[
dict(id='claim-decode-reuse', property='C14', pkg='ferryd/jobs',
 needs='claiming a job while an earlier one is still claimed: the records share one decode target and gob leaves fields that are zero in the record alone',
 what='a waiting job behind a claimed one looks claimed too, so the queue is reported empty',
 edits=[(J,'''		// Attempt to find relevant job, break when we have it + id
		err := bucket.ForEach(func(id, value []byte) error {
			j := &JobEntry{}
''','''		// Attempt to find relevant job, break when we have it + id
		j := &JobEntry{}
		err := bucket.ForEach(func(id, value []byte) error {
''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := jstore(t)
	for _, r := range []string{"a", "b", "c"} {
		if err := s.PushAsyncJob(NewDeltaJob(r, "x")); err != nil { t.Fatal(err) }
	}
	for _, r := range []string{"a", "b", "c"} {
		j, err := s.ClaimAsyncJob()
		if err != nil { t.Fatalf("%s: %v", r, err) }
		if j.Params[0] != r { t.Fatalf("claimed %v, want %s", j.Params, r) }
	}
}
'''),
dict(id='push-one-sequence', property='C14', pkg='ferryd/jobs',
 needs='two jobs submitted to one queue at the same time',
 what='the key of a new job is chosen before the store is locked, so one of two parallel submissions overwrites the other',
 edits=[(J,'''		// Use next natural sequence in the bucket

		j.id = bucket.NextSequence()
''','')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := jstore(t)
	// stop both submissions at the store's lock
	s.modMut.Lock()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if err := s.PushSequentialJob(NewCreateRepoJob(fmt.Sprint(i))); err != nil { t.Error(err) }
		}(i)
	}
	for i := 0; i < 1000; i++ { sleepy() }
	s.modMut.Unlock()
	wg.Wait()
	n := 0
	for {
		if _, err := s.ClaimSequentialJob(); err != nil { break }
		n++
	}
	if n != 8 { t.Fatalf("%d of 8 jobs stored", n) }
}
func sleepy() { s := make(chan int); go func() { for i := 0; i < 20000; i++ { _ = i }; close(s) }(); <-s }
'''),
dict(id='history-keeps-101', property='C15', pkg='ferryd/jobs',
 needs='more than 100 retired jobs',
 what='the completed history wraps one record too late and holds 101 records',
 edits=[(J,'''	if record.Index >= MaxJobsStored {''','''	if record.Index > MaxJobsStored {''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := jstore(t)
	for i := 0; i < 130; i++ {
		if err := s.PushSequentialJob(NewCreateRepoJob("x")); err != nil { t.Fatal(err) }
		j, err := s.ClaimSequentialJob()
		if err != nil { t.Fatal(err) }
		if err := s.RetireSequentialJob(j); err != nil { t.Fatal(err) }
	}
	c, err := s.CompletedJobs()
	if err != nil || len(c) != 100 { t.Fatal(len(c), err) }
}
'''),
dict(id='sequence-little-endian', property='C17', pkg='libdb',
 needs='more than 256 keys handed out for a bucket',
 what='sequence keys no longer sort as they are numbered, so a key already in use is handed out again',
 edits=[(L,'''			retKey = binary.BigEndian.Uint64(newKey) + 1''','''			retKey = binary.LittleEndian.Uint64(newKey) + 1'''),
  (L,'''	binary.BigEndian.PutUint64(byt, retKey)''','''	binary.LittleEndian.PutUint64(byt, retKey)''')],
 test='''package libdb
import ("bytes"; "testing")
func TestSeed(t *testing.T) {
	db, err := Open(t.TempDir())
	if err != nil { t.Fatal(err) }
	defer db.Close()
	b := db.Bucket([]byte("q"))
	var last []byte
	for i := 0; i < 300; i++ {
		k := b.NextSequence()
		if last != nil && bytes.Compare(k, last) <= 0 { t.Fatalf("key %d: %v after %v", i, k, last) }
		last = k
		if err := b.PutObject(k, &i); err != nil { t.Fatal(err) }
	}
}
'''),
dict(id='reserved-exact-only', property='C17', pkg='libdb',
 needs='a key that starts with the bucket notation',
 what='a key that begins with the reserved notation is stored, inside of another bucket',
 edits=[(L,'''	if bytes.HasPrefix(id, bucketPrefix) || bytes.HasPrefix(id, rootBucketPrefix) {
		return fmt.Errorf("key uses reserved bucket notation: %v", string(id))
	}

	tr :=''','''	if bytes.Equal(id, bucketPrefix) || bytes.HasPrefix(id, rootBucketPrefix) {
		return fmt.Errorf("key uses reserved bucket notation: %v", string(id))
	}

	tr :=''')],
 test='''package libdb
import "testing"
func TestSeed(t *testing.T) {
	db, err := Open(t.TempDir())
	if err != nil { t.Fatal(err) }
	defer db.Close()
	v := "x"
	if err := db.PutObject([]byte("|bucket|-a-k"), &v); err == nil { t.Fatal("reserved key accepted") }
}
'''),
dict(id='payload-skip-repeated', property='C05', pkg=P,
 needs='a manifest that lists one path twice, the second time with a different checksum',
 what='only the first entry of a path is verified',
 edits=[('ferryd/core/transit_manifest.go','''func (t *TransitManifest) ValidatePayload() error {
	for i := range t.File {
		f := &t.File[i]
		path := filepath.Join(t.dir, f.Path)
''','''func (t *TransitManifest) ValidatePayload() error {
	known := make(map[string]bool)
	for i := range t.File {
		f := &t.File[i]
		path := filepath.Join(t.dir, f.Path)
		// Hashing big files is slow
		if known[path] {
			continue
		}
		known[path] = true
''')],
 test='''package core
import ("crypto/sha256"; "fmt"; "os"; "path/filepath"; "strings"; "testing")
func TestSeed(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "a.eopkg"), []byte("a"), 0644)
	m := "[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"t\\"\\n"
	for _, s := range []string{fmt.Sprintf("%x", sha256.Sum256([]byte("a"))), strings.Repeat("0", 64)} {
		m += fmt.Sprintf("[[file]]\\npath = \\"a.eopkg\\"\\nsha256 = %q\\n", s)
	}
	os.WriteFile(filepath.Join(d, "x.tram"), []byte(m), 0644)
	tr, err := NewTransitManifest(filepath.Join(d, "x.tram"))
	if err != nil { t.Fatal(err) }
	if tr.ValidatePayload() == nil { t.Fatal("the second checksum was not verified") }
}
'''),
dict(id='index-dbginfo-anywhere', property='C11', helper=H, pkg=P,
 needs='a package whose name has -dbginfo in the middle, and an obsolete package of the name before it',
 what='such a package is left out of the index',
 edits=[(X,'''	if strings.HasSuffix(nom, "-dbginfo") {
		nom = nom[0 : len(nom)-8]
	}''','''	if i := strings.Index(nom, "-dbginfo"); i >= 0 {
		nom = nom[0:i]
	}''')],
 test='''package core
import ("os"; "path/filepath"; "strings"; "testing")
func TestSeed(t *testing.T) {
	s := newSD(t)
	r := s.repo("a")
	s.add("a", "foo-dbginfo", "foo", 1)
	s.add("a", "foo-dbginfo-tools", "foo", 1)
	s.ok(os.WriteFile(filepath.Join(r.assetPath, "distribution.xml"), []byte("<PISI><Obsoletes><Package>foo</Package></Obsoletes></PISI>"), 0644))
	s.ok(r.Index(s.m.db, s.m.pool))
	b, err := os.ReadFile(filepath.Join(r.path, "eopkg-index.xml"))
	s.ok(err)
	if !strings.Contains(string(b), "foo-dbginfo-tools") || strings.Contains(string(b), "foo-dbginfo-1-1") { t.Fatal("wrong index") }
}
'''),
dict(id='trim-dbginfo-anywhere', property='C10', helper=H, pkg=P,
 needs='a package whose name has -dbginfo in the middle, and an obsolete package of the name before it',
 what='trimming obsoletes removes such a package',
 edits=[(R,'''			if strings.HasSuffix(nom, "-dbginfo") {
				nom = nom[0 : len(nom)-8]
			}''','''			if i := strings.Index(nom, "-dbginfo"); i >= 0 {
				nom = nom[0:i]
			}''')],
 test='''package core
import ("os"; "path/filepath"; "testing")
func TestSeed(t *testing.T) {
	s := newSD(t)
	r := s.repo("a")
	s.add("a", "foo-dbginfo", "foo", 1)
	s.add("a", "foo-dbginfo-tools", "foo", 1)
	s.ok(os.WriteFile(filepath.Join(r.assetPath, "distribution.xml"), []byte("<PISI><Obsoletes><Package>foo</Package></Obsoletes></PISI>"), 0644))
	s.ok(r.TrimObsolete(s.m.db, s.m.pool))
	if len(s.entry("a", "foo-dbginfo-tools").Available) != 1 || len(s.entry("a", "foo-dbginfo").Available) != 0 { t.Fatal("wrong packages removed") }
}
'''),
dict(id='xz-digest-failure-leaks', property='C12', helper=H, pkg=P,
 needs='a failure while writing the SHA-256 of the compressed index',
 what='the temporary files of the failed index stay behind',
 edits=[(X,'''	if errAbort = WriteSha256sum(indexPathXz, indexPathXzSha256); errAbort != nil {
		return errAbort
	}''','''	if err := WriteSha256sum(indexPathXz, indexPathXzSha256); err != nil {
		return err
	}''')],
 test='''package core
import ("os"; "path/filepath"; "testing")
func TestSeed(t *testing.T) {
	s := newSD(t)
	r := s.repo("a")
	s.add("a", "nano", "nano", 1)
	s.ok(os.MkdirAll(filepath.Join(r.path, "eopkg-index.xml.xz.sha256sum.new", "d"), 0755))
	if r.Index(s.m.db, s.m.pool) == nil { t.Fatal("no failure reported") }
	if PathExists(filepath.Join(r.path, "eopkg-index.xml.new")) { t.Fatal("temporary index left behind") }
}
'''),
dict(id='escape-counts-output', property='C18', pkg=P,
 needs='text that holds a character to be escaped, and a writer of it that looks at the count',
 what='the number of escaped bytes is reported and not the number of input bytes consumed',
 edits=[('ferryd/core/escape.go','''	if _, err = e.w.Write(escaped); err != nil {''','''	if n, err = e.w.Write(escaped); err != nil {''')],
 test='''package core
import ("bytes"; "testing")
func TestSeed(t *testing.T) {
	var b bytes.Buffer
	in := []byte("a \\u00a9 b")
	if n, err := NewEscapedWriter(&b).Write(in); err != nil || n != len(in) { t.Fatal(n, err, len(in)) }
}
'''),
dict(id='delete-leaves-staging', property='C19', helper=H, pkg=P,
 needs='looking at the staging directory of a deleted repository',
 what='the staging directory of a deleted repository stays, and its stale deltas are found by the next one of that name',
 edits=[(R,'''		repo.deltaPath,
		repo.deltaStagePath,
	}

	// Clean up''','''		repo.deltaPath,
	}

	// Clean up''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	r := s.repo("a")
	s.ok(s.m.DeleteRepo("a"))
	if PathExists(r.deltaStagePath) { t.Fatal("staging directory left") }
}
'''),
dict(id='source-of-dots', property='C20', helper=H, pkg=P,
 needs='a package whose source name consists of dots, dashes or underscores only',
 what='including it crashes the daemon with an out of range slice',
 edits=[('libeopkg/metadata.go','''	letter := nom[0:1]
''','''	// No hidden directories
	letter := strings.TrimLeft(nom, "._-")[0:1]
''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.repo("a").AddPackage(s.m.db, s.m.pool, s.eopkg("x-1-1-1-x86_64.eopkg", "x", "...", 1, "1"), false)
}
'''),
dict(id='link-exists-is-fine', property='C22', pkg=P,
 needs='a destination that already exists with another content',
 what='linking reports success though the destination keeps its old content',
 edits=[('ferryd/core/util.go','''	if os.Link(source, dest) == nil {
		return nil
	}''','''	if err := os.Link(source, dest); err == nil || os.IsExist(err) {
		return nil
	}''')],
 test='''package core
import ("os"; "path/filepath"; "testing")
func TestSeed(t *testing.T) {
	d := t.TempDir()
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	os.WriteFile(a, []byte("new"), 0644)
	os.WriteFile(b, []byte("old"), 0644)
	if err := LinkOrCopyFile(a, b, false); err != nil { t.Fatal(err) }
	if c, _ := os.ReadFile(b); string(c) != "new" { t.Fatalf("%q", c) }
}
'''),
dict(id='ref-reads-before-lock', property='C23', helper=H, pkg=P,
 needs='another inclusion into the repository between the read of the listing and taking the lock',
 what='the listing is read before the lock is held, so the other inclusion is lost when it is written back',
 edits=[(R,'''	r.insertMut.Lock()
	defer r.insertMut.Unlock()

	// Require a pool entry to clone from
	poolEntry, err := pool.GetEntry(db, pkgID)
	if err != nil {
		return err
	}
''','''	// Require a pool entry to clone from
	poolEntry, err := pool.GetEntry(db, pkgID)
	if err != nil {
		return err
	}
'''),(R,'''	// Already included
	if repoEntry == nil {
		return nil
	}

	// Construct root dirs
	if err := os.MkdirAll(targetDir''','''	// Already included
	if repoEntry == nil {
		return nil
	}

	r.insertMut.Lock()
	defer r.insertMut.Unlock()

	// Construct root dirs
	if err := os.MkdirAll(targetDir''')],
 test='''package core
import ("testing"; "time")
func TestSeed(t *testing.T) {
	s := newSD(t)
	one := s.add("a", "nano", "nano", 1)
	two := s.add("a", "nano", "nano", 2)
	b := s.repo("b")
	b.insertMut.Lock()
	done := make(chan error)
	go func() { done <- b.RefPackage(s.m.db, s.m.pool, two) }()
	time.Sleep(500 * time.Millisecond)
	s.ok(s.m.pool.RefEntry(s.m.db, one))
	s.ok(b.putEntry(s.m.db, &RepoEntry{SchemaVersion: RepoSchemaVersion, Name: "nano", Available: []string{one}, Published: one}))
	b.insertMut.Unlock()
	s.ok(<-done)
	if e := s.entry("b", "nano"); len(e.Available) != 2 { t.Fatal(e.Available) }
}
'''),
dict(id='trim-by-file-name', property='C09', helper=H, pkg=P,
 needs='versions whose file names do not sort like their releases, and neither bound is the published one',
 what='trimming keeps the versions whose file names sort last',
 edits=[(R,'''		sort.Sort(sort.Reverse(libeopkg.PackageSet(candidates)))
''','''		// Available is already sorted
		for i, j := 0, len(candidates)-1; i < j; i, j = i+1, j-1 {
			candidates[i], candidates[j] = candidates[j], candidates[i]
		}
''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	for _, r := range []int{8, 9, 10, 11} { s.add("a", "nano", "nano", r) }
	s.ok(s.repo("a").TrimPackages(s.m.db, s.m.pool, 3))
	for _, id := range s.entry("a", "nano").Available {
		if id == "nano-1-8-1-x86_64.eopkg" { t.Fatal("kept the oldest") }
	}
}
'''),
dict(id='clone-onto-existing', property='C07', helper=H, pkg=P,
 needs='a clone to a name that already exists',
 what='cloning to an existing name merges into that repository',
 edits=[('ferryd/core/api.go','''	newRepo, err := m.repo.CreateRepo(m.db, newClone)
	if err != nil {
		return err
	}
''','''	newRepo, err := m.repo.GetRepo(m.db, newClone)
	if err != nil {
		if newRepo, err = m.repo.CreateRepo(m.db, newClone); err != nil {
			return err
		}
	}
''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 1)
	s.add("b", "foo", "foo", 1)
	if s.m.CloneRepo("a", "b", true) == nil { t.Fatal("accepted") }
	if len(s.entry("b", "nano").Available) != 0 { t.Fatal("merged") }
}
'''),
dict(id='tip-by-file-name', property='C03', helper=H, pkg=P,
 needs='release 10 added to a name that lists release 9',
 what='the published version is the one with the greatest file name',
 edits=[(R,'''			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() {
				repoEntry.Published = newID''','''			if newID > repoEntry.Published {
				repoEntry.Published = newID''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 9)
	id := s.add("a", "nano", "nano", 10)
	if e := s.entry("a", "nano"); e.Published != id { t.Fatal(e.Published) }
}
'''),
dict(id='copy-first-match-only', property='C08', helper=H, pkg=P,
 needs='a copy of any release of a source that has several versions of one package',
 what='only the first matching version of each name is copied',
 edits=[(R,'''			copyIDs = append(copyIDs, id)
		}
''','''			copyIDs = append(copyIDs, id)
			break
		}
''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 1)
	s.add("a", "nano", "nano", 2)
	s.ok(s.repo("b").CopySourceFrom(s.m.db, s.m.pool, s.repo("a"), "nano", -1))
	if e := s.entry("b", "nano"); len(e.Available) != 2 { t.Fatal(e.Available) }
}
'''),
dict(id='unlink-failure-keeps-ref', property='C01', helper=H, pkg=P,
 needs='the exported file of a package is missing or cannot be unlinked when the package is removed',
 what='the package is unlisted but its pool reference is kept for ever',
 edits=[(R,'''			"error": err,
		}).Warning("Failed to remove target for package")
	}''','''			"error": err,
		}).Warning("Failed to remove target for package")
		return nil
	}''')],
 test='''package core
import ("os"; "path/filepath"; "testing")
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 1)
	id := s.add("a", "nano", "nano", 2)
	s.ok(os.Remove(filepath.Join(s.repo("a").path, "n", "nano", id)))
	s.ok(s.repo("a").UnrefPackage(s.m.db, s.m.pool, id))
	if s.refs(id) != 0 { t.Fatal(s.refs(id)) }
}
'''),
dict(id='pull-skips-newer-target', property='C06', helper=H, pkg=P,
 needs='a target that publishes a higher release of some name than the source, and another name to pull',
 what='the pull goes ahead with the rest and does not fail',
 edits=[(R,'''			return fmt.Errorf("inconsistent target repository, %v is NEWER in target not SOURCE", localEntry.Name)
''','''			log.WithFields(log.Fields{
				"name": localEntry.Name,
			}).Error("Inconsistent target repository")
''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 1)
	s.add("a", "foo", "foo", 1)
	s.add("b", "nano", "nano", 2)
	if _, err := s.repo("b").PullFrom(s.m.db, s.m.pool, s.repo("a")); err == nil { t.Fatal("no failure") }
	if len(s.entry("b", "foo").Available) != 0 { t.Fatal("pulled") }
}
'''),
]

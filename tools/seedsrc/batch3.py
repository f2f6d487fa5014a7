H='helper_core_test.go'
HJ='helper_jobs_test.go'
P='ferryd/core'
R='ferryd/core/repo.go'
X='ferryd/core/repo_index.go'
POOL='ferryd/core/pool.go'
CT='''package core
import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)
var _ = errors.New
var _ = fmt.Sprint
var _ = os.Remove
var _ = filepath.Join
var _ = sort.Strings
var _ = strings.Join
'''
JT='''package jobs
import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
)
var _ = fmt.Sprint
var _ = os.Remove
var _ = filepath.Join
var _ = libeopkg.ComputeDeltaName
var _ core.DeltaInformation
'''
SEEDS=[
dict(id='mismatch-marked-failed', property='C13', pkg='ferryd/jobs', helper=HJ,
 needs='two builds of one package that are for different distribution releases',
 what='a pair of builds that merely do not match is recorded as a failed delta',
 edits=[('ferryd/jobs/delta.go','''				log.WithFields(fields).Error("Package delta candidates do not match")
				continue
''','''				log.WithFields(fields).Error("Package delta candidates do not match")
				if err := manager.MarkDeltaFailed(deltaID, mapping); err != nil {
					return err
				}
				continue
''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", 1, "1")
	s.add("u", "nano", 2, "2")
	h, err := NewDeltaJobHandler(NewDeltaJob("u", "nano"), false)
	s.ok(err)
	s.ok(h.Execute(nil, s.m))
	ps, err := s.m.GetPackages("u", "nano")
	s.ok(err)
	for _, a := range ps {
		for _, b := range ps {
			if s.m.GetDeltaFailed(libeopkg.ComputeDeltaName(a, b)) { t.Fatalf("%s to %s marked", a.GetID(), b.GetID()) }
		}
	}
}
'''),
dict(id='failed-pair-reused', property='C13', pkg='ferryd/jobs', helper=HJ,
 needs='a delta recorded as failed that another repository included all the same',
 what='a pair recorded as failed is included from the pool, as the record is only looked at before producing',
 edits=[('ferryd/jobs/delta.go','''		// Don't need to report that it failed, we know this from history
		if manager.GetDeltaFailed(deltaID) {
			continue
		}

''',''),('ferryd/jobs/delta.go','''		deltaPath, err := manager.CreateDelta(j.repoID, old, tip)
''','''		// Don't need to report that it failed, we know this from history
		if manager.GetDeltaFailed(deltaID) {
			continue
		}

		deltaPath, err := manager.CreateDelta(j.repoID, old, tip)
''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	for _, r := range []string{"u", "v"} {
		s.add(r, "nano", 1, "1")
		s.add(r, "nano", 2, "1")
	}
	id := "nano-1-2-1-x86_64.delta.eopkg"
	m := &core.DeltaInformation{FromID: "nano-1-1-1-x86_64.eopkg", ToID: "nano-1-2-1-x86_64.eopkg"}
	s.ok(s.m.AddDelta("u", s.eopkg(id, "nano", "nano", 2, "1"), m))
	s.ok(s.m.MarkDeltaFailed(id, m))
	h, err := NewDeltaJobHandler(NewDeltaJob("v", "nano"), false)
	s.ok(err)
	s.ok(h.Execute(nil, s.m))
	if has, _ := s.m.HasDelta("v", "nano", id); has { t.Fatal("the failed pair was included") }
}
'''),
dict(id='delta-to-last-build', property='C13', pkg='ferryd/jobs', helper=HJ,
 needs='releases whose file names do not sort like their numbers (9 and 10)',
 what='deltas lead to the last listed build instead of the highest release',
 edits=[('ferryd/jobs/delta.go','''	sort.Sort(libeopkg.PackageSet(pkgs))
	tip := pkgs[len(pkgs)-1]
''','''	// Available packages are stored sorted
	tip := pkgs[len(pkgs)-1]
'''),('ferryd/jobs/delta.go','''	"sort"

''','''
''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	for _, r := range []string{"u", "v"} {
		s.add(r, "nano", 9, "1")
		s.add(r, "nano", 10, "1")
	}
	id := "nano-9-10-1-x86_64.delta.eopkg"
	s.ok(s.m.AddDelta("u", s.eopkg(id, "nano", "nano", 10, "1"), &core.DeltaInformation{FromID: "nano-1-9-1-x86_64.eopkg", ToID: "nano-1-10-1-x86_64.eopkg"}))
	h, err := NewDeltaJobHandler(NewDeltaJob("v", "nano"), false)
	s.ok(err)
	s.ok(h.Execute(nil, s.m))
	if has, _ := s.m.HasDelta("v", "nano", id); !has { t.Fatal("the delta to the tip was not included") }
}
'''),
dict(id='upload-looks-up-source', property='C04', pkg=P, helper=H,
 needs='an upload whose package name is not its source name (a sub-package)',
 what='the release of an upload is compared with that of the package named like its source',
 edits=[(R,'''	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
	if err != nil {
		return r.AddLocalPackage''','''	localPkg, err := r.GetEntry(db, pkg.Meta.Source.Name)
	if err != nil {
		return r.AddLocalPackage''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano-devel", "nano", 5)
	id := "nano-devel-1-4-1-x86_64.eopkg"
	if err := s.repo("u").AddPackage(s.m.db, s.m.pool, s.eopkg(id, "nano-devel", "nano", 4, "1"), true); err == nil { t.Fatal("an older upload was accepted") }
}
'''),
dict(id='upload-against-oldest', property='C04', pkg=P, helper=H,
 needs='an upload between the oldest and the published release, of a name with several versions',
 what='an upload is compared with the first available version, not with the published one',
 edits=[(R,'''	published, err := pool.GetEntry(db, localPkg.Published)
''','''	published, err := pool.GetEntry(db, localPkg.Available[0])
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 3)
	s.add("u", "nano", "nano", 5)
	id := "nano-1-4-1-x86_64.eopkg"
	if err := s.repo("u").AddPackage(s.m.db, s.m.pool, s.eopkg(id, "nano", "nano", 4, "1"), true); err == nil { t.Fatal("an older upload was accepted") }
}
'''),
dict(id='abbreviated-checksum', property='C05', pkg=P, helper=H,
 needs='a manifest with a truncated checksum',
 what='a checksum that is merely the start of the file\'s SHA-256 is accepted',
 edits=[('ferryd/core/transit_manifest.go','''		if sha != f.Sha256 {''','''		if !strings.HasPrefix(sha, f.Sha256) {''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "a.eopkg")
	os.WriteFile(f, []byte("x"), 0644)
	sum, err := FileSha256sum(f)
	if err != nil { t.Fatal(err) }
	for n := 1; n < len(sum); n++ {
		os.WriteFile(filepath.Join(d, "a.tram"), []byte(fmt.Sprintf("[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"u\\"\\n[[file]]\\npath = \\"a.eopkg\\"\\nsha256 = %q\\n", sum[:n])), 0644)
		m, err := NewTransitManifest(filepath.Join(d, "a.tram"))
		if err == nil { err = m.ValidatePayload() }
		if err == nil { t.Fatalf("%q accepted", sum[:n]) }
	}
}
'''),
dict(id='index-published-early', property='C12', pkg=P, helper=H,
 needs='compressing the index fails',
 what='the plain index is published before its compressed forms are produced',
 edits=[(X,'''	// Write our XZ index out
''','''	// The plain index is complete now
	for _, k := range []string{indexPath, indexPathSha, indexPathSha256} {
		if errAbort = CopyFile(k, mapping[k]); errAbort != nil {
			return errAbort
		}
	}

	// Write our XZ index out
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 1)
	s.ok(s.m.Index("u"))
	f := filepath.Join(s.repo("u").path, "eopkg-index.xml")
	a, err := os.ReadFile(f)
	s.ok(err)
	s.add("u", "nano", "nano", 2)
	t.Setenv("PATH", t.TempDir())
	if err := s.m.Index("u"); err == nil { t.Skip("indexed without a compressor") }
	b, err := os.ReadFile(f)
	s.ok(err)
	if string(a) != string(b) { t.Fatal("the published index changed") }
}
'''),
dict(id='no-metadata-file', property='C20', pkg=P, helper=H,
 needs='an archive without a metadata.xml',
 what='the daemon crashes on an archive that has no metadata.xml',
 edits=[('libeopkg/package.go','''	metaFile := p.FindFile("metadata.xml")
	if metaFile == nil {
		return ErrEopkgCorrupted
	}
''','''	metaFile := p.FindFile("metadata.xml")
''')],
 test='''package core
import (
	"archive/zip"
	"os"
	"path/filepath"
	"testing"
)
func TestSeed(t *testing.T) {
	s := newSD(t)
	f := filepath.Join(s.dir, "a.eopkg")
	o, err := os.Create(f)
	s.ok(err)
	z := zip.NewWriter(o)
	_, err = z.Create("files.xml")
	s.ok(err)
	s.ok(z.Close())
	s.ok(o.Close())
	if s.repo("u").AddPackage(s.m.db, s.m.pool, f, true) == nil { t.Fatal("included") }
}
'''),
dict(id='available-unsorted', property='C03', pkg=P, helper=H,
 needs='a package whose file name sorts before those already listed',
 what='the available versions are left in order of arrival',
 edits=[(R,'''	repoEntry.Available = append(repoEntry.Available, newID)
	sort.Strings(repoEntry.Available)
''','''	repoEntry.Available = append(repoEntry.Available, newID)
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	for _, r := range []int{1, 3, 2} { s.add("u", "nano", "nano", r) }
	if a := s.entry("u", "nano").Available; !sort.StringsAreSorted(a) { t.Fatal(a) }
}
'''),
dict(id='tip-follows-upload', property='C03', pkg=P, helper=H,
 needs='a rebuild with the same release as the published version, then one between',
 what='the tip compares with the release of the most recently listed version, so an older build may become the tip',
 edits=[(R,'''		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
''','''		pkgAvail, err := pool.GetEntry(db, repoEntry.Available[len(repoEntry.Available)-1])
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 10)
	s.add("u", "nano", "nano", 8)
	s.add("u", "nano", "nano", 9)
	if p := s.entry("u", "nano").Published; p != "nano-1-10-1-x86_64.eopkg" { t.Fatal(p) }
}
'''),
dict(id='index-delta-past-tip', property='C11', pkg=P, helper=H,
 needs='a listed delta to a release higher than the published one',
 what='the index offers deltas that lead past the published release',
 edits=[(X,'''		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {''','''		if poolEnt.Delta.ToRelease < entry.Meta.GetRelease() {''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 1)
	s.add("u", "nano", "nano", 2)
	s.add("v", "nano", "nano", 1)
	s.delta("u", "nano", "nano", 1, 2)
	s.ok(s.repo("v").RefDelta(s.m.db, s.m.pool, "nano-1-2-1-x86_64.delta.eopkg"))
	s.ok(s.m.Index("v"))
	b, err := os.ReadFile(filepath.Join(s.repo("v").path, "eopkg-index.xml"))
	s.ok(err)
	if strings.Contains(string(b), "<Delta ") { t.Fatal(string(b)) }
}
'''),
dict(id='index-in-name-order', property='C11', pkg=P, helper=H,
 needs='names of which one is the other followed by a plus sign (gtk and gtk+)',
 what='the index lists packages in order of name, not of package ID',
 edits=[(X,'''	// Ensure we'll emit in a sane order
	sort.Strings(pkgIds)

''','''	// Packages are stored by name, so this already is a sane order

'''),(X,'''	"sort"
''','')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "gtk", "gtk", 1)
	s.add("u", "gtk+", "gtk", 1)
	s.ok(s.m.Index("u"))
	b, err := os.ReadFile(filepath.Join(s.repo("u").path, "eopkg-index.xml"))
	s.ok(err)
	i, j := strings.Index(string(b), "/gtk-1-1-1"), strings.Index(string(b), "/gtk+-1-1-1")
	if i < 0 || j < 0 { t.Fatal(string(b)) }
	if j > i { t.Fatal("not in order of ID") }
}
'''),
dict(id='deleted-repo-cached', property='C19', pkg=P, helper=H,
 needs='a second deletion of a repository, or its use after the deletion',
 what='a deleted repository stays known until the daemon restarts',
 edits=[(R,'''	delete(r.repos, id)

	repo.insertMut''','''	repo.insertMut''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 1)
	s.ok(s.m.DeleteRepo("u"))
	if err := s.m.DeleteRepo("u"); err == nil { t.Fatal("an unknown repository was deleted") }
}
'''),
dict(id='add-delta-leaks-lock', property='C23', pkg=P, helper=H,
 needs='creating the directory of a delta fails',
 what='the insertion lock stays taken when the directory of a delta cannot be created',
 edits=[(R,'''func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.Package, mapping *DeltaInformation) error {
	r.insertMut.Lock()
	defer r.insertMut.Unlock()
''','''func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.Package, mapping *DeltaInformation) error {
	r.insertMut.Lock()
'''),(R,'''	entry, err := r.GetEntry(db, pkg.Meta.Package.Name)
	if err != nil {
		return err
	}

	pkgDir''','''	entry, err := r.GetEntry(db, pkg.Meta.Package.Name)
	if err != nil {
		r.insertMut.Unlock()
		return err
	}

	pkgDir'''),(R,'''		if id == pkg.ID {
			log''','''		if id == pkg.ID {
			r.insertMut.Unlock()
			log'''),(R,'''	if err := os.MkdirAll(pkgDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package
	if _, err = pool''','''	if err := os.MkdirAll(pkgDir, 00755); err != nil {
		return err
	}
	defer r.insertMut.Unlock()

	// Grab the pool reference for this package
	if _, err = pool''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 1)
	s.add("u", "nano", "nano", 2)
	r := s.repo("u")
	s.ok(os.RemoveAll(filepath.Join(r.path, "n")))
	s.ok(os.WriteFile(filepath.Join(r.path, "n"), nil, 0644))
	id := "nano-1-2-1-x86_64.delta.eopkg"
	if err := r.AddDelta(s.m.db, s.m.pool, s.eopkg(id, "nano", "nano", 2, "1"), &DeltaInformation{FromID: "nano-1-1-1-x86_64.eopkg", ToID: "nano-1-2-1-x86_64.eopkg"}); err == nil { t.Fatal("included") }
	if !r.insertMut.TryLock() { t.Fatal("the lock is still taken") }
}
'''),
dict(id='unlock-keeps-ownership', property='C21', pkg='ferryd',
 needs='cleaning up after the lock was given up and another process took it',
 what='a process that unlocked the file still counts as its owner, so it removes the next owner\'s lock file',
 edits=[('ferryd/lockfile.go','''	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN); err != nil {
		return err
	}
	l.owner = false
	return nil
''','''	return syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN)
''')],
 test='''package main
import (
	"os"
	"path/filepath"
	"testing"
)
func TestSeed(t *testing.T) {
	f := filepath.Join(t.TempDir(), "lock")
	a, err := NewLockFile(f)
	if err != nil { t.Fatal(err) }
	if err := a.Lock(); err != nil { t.Fatal(err) }
	if err := a.Unlock(); err != nil { t.Fatal(err) }
	b, err := NewLockFile(f)
	if err != nil { t.Fatal(err) }
	if err := b.Lock(); err != nil { t.Fatal(err) }
	a.Clean()
	if _, err := os.Stat(f); err != nil { t.Fatal("the lock file of another owner was removed") }
}
'''),
dict(id='bulk-import-verified', property='C16', pkg='ferryd/jobs', helper=HJ,
 needs='a bulk import of an older release',
 what='a bulk import follows the rules for uploads and refuses older releases',
 edits=[('ferryd/jobs/bulk_add.go','manager.AddPackages(j.repoID, j.packagePaths, false)','manager.AddPackages(j.repoID, j.packagePaths, len(j.packagePaths) == 1)')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", 2, "1")
	h, err := NewBulkAddJobHandler(NewBulkAddJob("u", []string{s.eopkg("nano-1-1-1-x86_64.eopkg", "nano", "nano", 1, "1")}))
	s.ok(err)
	s.ok(h.Execute(nil, s.m))
}
'''),
dict(id='retired-not-failed', property='C16', pkg='ferryd/jobs', helper=HJ,
 needs='a job that cannot be handled at all',
 what='a job whose stored parameters are malformed is recorded as completed',
 edits=[('ferryd/jobs/worker.go','''		fields["error"] = err
		job.failure = err
		log.WithFields(fields).Error("No known job handler, cannot continue with job")
''','''		fields["error"] = err
		log.WithFields(fields).Error("No known job handler, cannot continue with job")
''')],
 test=JT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	st, err := NewStore(filepath.Join(s.dir, "base"))
	s.ok(err)
	defer st.Close()
	p := NewProcessor(s.m, st, 2)
	s.ok(p.PushJob(&JobEntry{sequential: true, Type: CloneRepo, Params: []string{"a"}}))
	j, err := st.ClaimSequentialJob()
	s.ok(err)
	NewWorkerSequential(p).processJob(j)
	s.ok(st.RetireSequentialJob(j))
	f, err := st.FailedJobs()
	s.ok(err)
	if len(f) != 1 { t.Fatalf("%d failed jobs", len(f)) }
}
'''),
dict(id='tidy-removes-strays', property='C22', pkg=P, helper=H,
 needs='a directory of a removed package that holds something else than packages',
 what='removing a package deletes its directory although other files are left in it',
 edits=[('ferryd/core/util.go','''		if len(contents) != 0 {
			continue
		}
		if err = os.Remove(p); err != nil {
''','''		keep := false
		for _, c := range contents {
			keep = keep || c.IsDir() || filepath.Ext(c.Name()) == ".eopkg"
		}
		if keep {
			continue
		}
		if err = os.RemoveAll(p); err != nil {
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	d := filepath.Join(t.TempDir(), "n", "nano")
	if err := os.MkdirAll(d, 0755); err != nil { t.Fatal(err) }
	os.WriteFile(filepath.Join(d, "notes.txt"), []byte("x"), 0644)
	RemovePackageParents(filepath.Join(d, "nano.eopkg"))
	if _, err := os.Stat(filepath.Join(d, "notes.txt")); err != nil { t.Fatal(err) }
}
'''),
dict(id='pull-skips-assets-order', property='C06', pkg=P, helper=H,
 needs='a name the target lists with no higher release, after a name that it lacks, and a failing comparison later',
 what='missing names are pulled at once, so a pull that then fails has already changed the target',
 edits=[(R,'''		if localEntry == nil {
			copyIDs = append(copyIDs, entry.Published)
			changedNames = append(changedNames, entry.Name)
			return nil
		}
''','''		if localEntry == nil {
			changedNames = append(changedNames, entry.Name)
			return r.RefPackage(db, pool, entry.Published)
		}
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("src", "a", "a", 1)
	s.add("src", "b", "b", 1)
	s.add("dst", "b", "b", 2)
	if _, err := s.m.PullRepo("src", "dst"); err == nil { t.Fatal("pulled") }
	if a := s.entry("dst", "a").Available; len(a) != 0 { t.Fatal("the failed pull added", a) }
}
'''),
dict(id='clone-tip-with-deltas', property='C07', pkg=P, helper=H,
 needs='a tip clone of a source with a delta to its published version',
 what='a tip clone takes the deltas along',
 edits=[(R,'''			copyIDs = append(copyIDs, entry.Available...)
			deltaIDs = append(deltaIDs, entry.Deltas...)
		} else {
			copyIDs = append(copyIDs, entry.Published)
		}
''','''			copyIDs = append(copyIDs, entry.Available...)
		} else {
			copyIDs = append(copyIDs, entry.Published)
		}
		deltaIDs = append(deltaIDs, entry.Deltas...)
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("u", "nano", "nano", 1)
	s.add("u", "nano", "nano", 2)
	s.delta("u", "nano", "nano", 1, 2)
	s.ok(s.m.CloneRepo("u", "v", false))
	if e := s.entry("v", "nano"); len(e.Deltas) != 0 { t.Fatal(e) }
}
'''),
dict(id='trim-limit-off', property='C09', pkg=P, helper=H,
 needs='a name with exactly one version more than the limit',
 what='a name with exactly one version more than the limit is not trimmed',
 edits=[(R,'''		if len(entry.Available) < maxKeep {
			return nil
		}
''','''		if len(entry.Available) <= maxKeep+1 {
			return nil
		}
''')],
 test=CT+'''
func TestSeed(t *testing.T) {
	s := newSD(t)
	for i := 1; i < 4; i++ { s.add("u", "nano", "nano", i) }
	s.ok(s.m.TrimPackages("u", 2))
	if a := s.entry("u", "nano").Available; len(a) != 2 { t.Fatal(a) }
}
'''),
]

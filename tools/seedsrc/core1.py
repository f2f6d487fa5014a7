H='helper_core_test.go'
P='ferryd/core'
R='ferryd/core/repo.go'
SEEDS=[
dict(id='pull-last-available', property='C06', helper=H, pkg=P,
 needs='a source with several versions whose file names do not sort like their releases (9 before 10), and a target lacking the name',
 what='a pull of a name the target lacks takes the last available file name and not the published version',
 edits=[(R,'''		if localEntry == nil {
			copyIDs = append(copyIDs, entry.Published)''','''		if localEntry == nil {
			copyIDs = append(copyIDs, entry.Available[len(entry.Available)-1])''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 9)
	id := s.add("a", "nano", "nano", 10)
	_, err := s.repo("b").PullFrom(s.m.db, s.m.pool, s.repo("a"))
	s.ok(err)
	if e := s.entry("b", "nano"); len(e.Available) != 1 || e.Available[0] != id {
		t.Fatalf("pulled %v, want %s", e.Available, id)
	}
}
'''),
dict(id='remove-source-zero', property='C08', helper=H, pkg=P,
 needs='a removal by source with release 0, which means any release',
 what='release 0 only matches packages whose release is 0, so nothing or too little is removed',
 edits=[(R,'''			// if release is -1 we remove all matching source
			if release > 0 &&''','''			// if release is -1 we remove all matching source
			if release >= 0 &&''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 1)
	s.add("a", "nano", "nano", 2)
	s.add("a", "foo", "foo", 2)
	s.ok(s.repo("a").RemoveSource(s.m.db, s.m.pool, "nano", 0))
	if len(s.entry("a", "nano").Available) != 0 || len(s.entry("a", "foo").Available) != 1 {
		t.Fatal("wrong packages removed")
	}
}
'''),
dict(id='upload-same-release', property='C04', helper=H, pkg=P,
 needs='an upload with the published release and version under another file name (another architecture or rebuild)',
 what='an upload that does not increase the release is included',
 edits=[(R,'''		return fmt.Errorf("attempted to re-include an existing package through upload: %v", pkg.ID)
	}''','''		if localPkg.Published == pkg.ID {
			return fmt.Errorf("attempted to re-include an existing package through upload: %v", pkg.ID)
		}
	}''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	s.add("a", "nano", "nano", 5)
	f := s.eopkg("nano-1-5-1-i686.eopkg", "nano", "nano", 5, "1")
	if err := s.repo("a").AddPackage(s.m.db, s.m.pool, f, true); err == nil {
		t.Fatal("the same release was accepted")
	}
	if e := s.entry("a", "nano"); len(e.Available) != 1 {
		t.Fatal(e.Available)
	}
}
'''),
dict(id='ref-before-check', property='C01', helper=H, pkg=P,
 needs='a pull, copy or clone that hits a package the target already lists, for instance copying the same source twice',
 what='the pool reference is taken before it is known whether the package is already listed, so the count exceeds the listings',
 edits=[(R,'''	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
	// Already included''','''	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry(db, pkgID); err != nil {
		return err
	}

	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
	// Already included'''),(R,'''	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry(db, pkgID); err != nil {
		return err
	}

	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	return r.putEntry(db, repoEntry)''','''	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	return r.putEntry(db, repoEntry)''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	s := newSD(t)
	id := s.add("a", "nano", "nano", 5)
	for i := 0; i < 2; i++ {
		s.ok(s.repo("b").CopySourceFrom(s.m.db, s.m.pool, s.repo("a"), "nano", -1))
	}
	if n := s.refs(id); n != 2 {
		t.Fatalf("listed twice, counted %d times", n)
	}
}
'''),
dict(id='list-before-ref', property='C02', helper=H, pkg=P,
 needs='the process dying, or a write failing, between two database writes of a clone, pull or copy',
 what='the repository lists the package before its reference is counted, so after an interruption the pool file can be freed under it',
 edits=[(R,'''	// Grab the pool reference for this package (Always copy)
	if err = pool.RefEntry(db, pkgID); err != nil {
		return err
	}

	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	return r.putEntry(db, repoEntry)''','''	// Ensure the eopkg file is linked inside our own tree
	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
		return err
	}

	if err = r.putEntry(db, repoEntry); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
	return pool.RefEntry(db, pkgID)''')],
 test='''package core
import "testing"
func TestSeed(t *testing.T) {
	for n := 1; n <= 2; n++ {
		s := newSD(t)
		id := s.add("a", "nano", "nano", 5)
		b := s.repo("b")
		b.RefPackage(failing(s.m.db, n), s.m.pool, id)
		k := 1
		if len(s.entry("b", "nano").Available) > 0 {
			k++
		}
		if s.refs(id) < k {
			t.Fatalf("interrupted at write %d: listed by %d, counted %d times", n, k, s.refs(id))
		}
	}
}
'''),
]

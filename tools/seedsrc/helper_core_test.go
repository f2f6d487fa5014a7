package core

import (
	"archive/zip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/libdb"
)

type sd struct {
	t   *testing.T
	dir string
	m   *Manager
}

func newSD(t *testing.T) *sd {
	log.SetOutput(io.Discard)
	dir := t.TempDir()
	b := filepath.Join(dir, "base")
	os.MkdirAll(b, 0755)
	m, err := NewManager(b)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(m.Close)
	return &sd{t, dir, m}
}

func (s *sd) ok(err error) {
	s.t.Helper()
	if err != nil {
		s.t.Fatal(err)
	}
}

func (s *sd) repo(n string) *Repository {
	r, err := s.m.repo.GetRepo(s.m.db, n)
	if err != nil {
		r, err = s.m.repo.CreateRepo(s.m.db, n)
		s.ok(err)
	}
	return r
}

func (s *sd) eopkg(id, name, source string, rel int, version string) string {
	f := filepath.Join(s.dir, id)
	o, err := os.Create(f)
	s.ok(err)
	defer o.Close()
	z := zip.NewWriter(o)
	w, err := z.Create("metadata.xml")
	s.ok(err)
	fmt.Fprintf(w, `<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>%s</Version></Update></History>
<DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`, source, name, rel, version, source)
	s.ok(z.Close())
	return f
}

func (s *sd) add(repo, name, source string, rel int) string {
	s.t.Helper()
	id := fmt.Sprintf("%s-1-%d-1-x86_64.eopkg", name, rel)
	s.ok(s.repo(repo).AddPackage(s.m.db, s.m.pool, s.eopkg(id, name, source, rel, "1"), false))
	return id
}

func (s *sd) delta(repo, name, source string, from, to int) string {
	s.t.Helper()
	id := fmt.Sprintf("%s-%d-%d-1-x86_64.delta.eopkg", name, from, to)
	s.ok(s.repo(repo).AddDelta(s.m.db, s.m.pool, s.eopkg(id, name, source, to, "1"),
		&DeltaInformation{FromID: fmt.Sprintf("%s-1-%d-1-x86_64.eopkg", name, from), ToID: fmt.Sprintf("%s-1-%d-1-x86_64.eopkg", name, to)}))
	return id
}

func (s *sd) entry(repo, name string) *RepoEntry {
	e, err := s.repo(repo).GetEntry(s.m.db, name)
	if err != nil {
		return &RepoEntry{}
	}
	return e
}

func (s *sd) refs(id string) int {
	e, err := s.m.pool.GetEntry(s.m.db, id)
	if err != nil {
		return 0
	}
	return int(e.RefCount)
}

// failDB fails its n-th write, once
type failDB struct {
	libdb.Database
	n *int
}

func failing(db libdb.Database, n int) libdb.Database { return &failDB{db, &n} }

func (d *failDB) bad() bool { *d.n--; return *d.n == 0 }

func (d *failDB) Bucket(id []byte) libdb.Database { return &failDB{d.Database.Bucket(id), d.n} }

func (d *failDB) PutObject(id []byte, o interface{}) error {
	if d.bad() {
		return errors.New("injected")
	}
	return d.Database.PutObject(id, o)
}

func (d *failDB) DeleteObject(id []byte) error {
	if d.bad() {
		return errors.New("injected")
	}
	return d.Database.DeleteObject(id)
}

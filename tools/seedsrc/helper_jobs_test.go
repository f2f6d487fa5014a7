package jobs

import (
	"archive/zip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

type sd struct {
	t   *testing.T
	dir string
	m   *core.Manager
}

func newSD(t *testing.T) *sd {
	log.SetOutput(io.Discard)
	dir := t.TempDir()
	b := filepath.Join(dir, "base")
	os.MkdirAll(b, 0755)
	m, err := core.NewManager(b)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(m.Close)
	return &sd{t, dir, m}
}

func (s *sd) ok(err error) {
	s.t.Helper()
	if err != nil {
		s.t.Fatal(err)
	}
}

// add includes a build of a package, of the given distribution release
func (s *sd) add(repo, name string, rel int, distro string) string {
	s.t.Helper()
	id := fmt.Sprintf("%s-1-%d-%s-x86_64.eopkg", name, rel, distro)
	if _, err := s.m.GetRepo(repo); err != nil {
		s.ok(s.m.CreateRepo(repo))
	}
	s.ok(s.m.AddPackages(repo, []string{s.eopkg(id, name, name, rel, distro)}, false))
	return id
}

func (s *sd) eopkg(id, name, source string, rel int, distro string) string {
	f := filepath.Join(s.dir, id)
	o, err := os.Create(f)
	s.ok(err)
	defer o.Close()
	z := zip.NewWriter(o)
	w, err := z.Create("metadata.xml")
	s.ok(err)
	fmt.Fprintf(w, `<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>1</Version></Update></History>
<DistributionRelease>%s</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`, source, name, rel, distro, source)
	s.ok(z.Close())
	return f
}



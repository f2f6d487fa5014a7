package core

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/libeopkg"
)

// Indexes of random repositories, parsed and compared with what the database lists (C11), and with
// every producing step made to fail over random existing files (C12).

type vindex struct {
	XMLName      xml.Name                `xml:"PISI"`
	Distribution []libeopkg.Distribution `xml:"Distribution"`
	Package      []libeopkg.MetaPackage  `xml:"Package"`
	Component    []libeopkg.Component    `xml:"Component"`
	Group        []libeopkg.Group        `xml:"Group"`
}

func (w *vworld) asset(repo, name, text string) {
	d := w.repo(repo).assetPath
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, name), []byte(text), 0644)
}

func vobsolete(obs []string, name string) bool {
	return in(obs, name) || strings.HasSuffix(name, "-dbginfo") && in(obs, strings.TrimSuffix(name, "-dbginfo"))
}

// canon gives what reading the encoding of a record gives.
func canon(m libeopkg.MetaPackage) libeopkg.MetaPackage {
	b, err := xml.Marshal(&m)
	var o libeopkg.MetaPackage
	if err == nil {
		err = xml.Unmarshal(b, &o)
	}
	if err != nil {
		panic(err)
	}
	return o
}

func (w *vworld) checkIndex(repo string, obs []string, s *vsnap) {
	f := filepath.Join(w.repo(repo).path, "eopkg-index.xml")
	b, err := os.ReadFile(f)
	if err != nil {
		w.fail("C11", "no index: %v", err)
		return
	}
	var ix vindex
	if err := xml.Unmarshal(b, &ix); err != nil {
		w.fail("C11", "the index of %s does not parse: %v", repo, err)
		return
	}
	want := map[string]libeopkg.MetaPackage{}
	for n, e := range s.repos[repo] {
		if vobsolete(obs, n) {
			continue
		}
		m := *s.pool[e.Published].Meta
		m.DeltaPackages = nil
		var ds []libeopkg.Delta
		for _, d := range e.Deltas {
			p := s.pool[d]
			if p.Delta != nil && p.Delta.ToRelease == m.History[0].Release {
				ds = append(ds, libeopkg.Delta{ReleaseFrom: p.Delta.FromRelease, PackageURI: p.Meta.PackageURI, PackageSize: p.Meta.PackageSize, PackageHash: p.Meta.PackageHash})
			}
		}
		if len(ds) > 0 {
			m.DeltaPackages = &ds
		}
		want[e.Published] = canon(m)
	}
	var ids []string
	seen := map[string]bool{}
	for i := range ix.Package {
		g := ix.Package[i]
		id := g.GetID()
		ids = append(ids, id)
		if seen[id] {
			w.fail("C11", "%s is in the index of %s twice", id, repo)
		}
		seen[id] = true
		x, ok := want[id]
		if !ok {
			w.fail("C11", "the index of %s has %s, which is obsolete or not published; listing %+v, obsolete %v", repo, id, s.repos[repo][g.Name], obs)
			continue
		}
		sortD := func(m *libeopkg.MetaPackage) (o []string) {
			if m.DeltaPackages != nil {
				for _, d := range *m.DeltaPackages {
					o = append(o, fmt.Sprintf("%+v", d))
				}
			}
			sort.Strings(o)
			return
		}
		gd, xd := sortD(&g), sortD(&x)
		if !reflect.DeepEqual(gd, xd) {
			w.fail("C11", "%s in the index of %s offers the deltas %v, the repository has %v", id, repo, gd, xd)
		}
		g.DeltaPackages, x.DeltaPackages = nil, nil
		if !reflect.DeepEqual(g, x) {
			w.fail("C11", "the record of %s in the index of %s is\n    %+v, want\n    %+v", id, repo, g, x)
		}
	}
	for id := range want {
		if !seen[id] {
			w.fail("C11", "%s is published by %s and not obsolete (%v) but is not in the index", id, repo, obs)
		}
	}
	if !sort.StringsAreSorted(ids) {
		w.fail("C11", "the index of %s is not in order: %v", repo, ids)
	}
}

func vfakeTools(dir string, xz, zstd string) func() {
	old := os.Getenv("PATH")
	os.MkdirAll(dir, 0755)
	for n, s := range map[string]string{"xz": xz, "zstd": zstd} {
		if s != "" {
			os.WriteFile(filepath.Join(dir, n), []byte("#!/bin/sh\n"+s+"\n"), 0755)
		}
	}
	os.Setenv("PATH", dir+":"+old)
	return func() { os.Setenv("PATH", old) }
}

func vdist(obs []string) string {
	d := "<PISI><SourceName>solus</SourceName><Version>1</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes>"
	for _, o := range obs {
		d += "<Package>" + o + "</Package>"
	}
	return d + "</Obsoletes></PISI>"
}

const vcomp = `<PISI><Components><Component><Name>system.base</Name><LocalName xml:lang="en">base</LocalName></Component><Component><Name>a.b</Name></Component></Components></PISI>`
const vgroups = `<PISI><Groups><Group><Name>x</Name><LocalName xml:lang="en">X</LocalName></Group></Groups></PISI>`

func TestVerifC11(t *testing.T) {
	n := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 800
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	evals, kinds := 0, map[string]bool{}
	for i := 0; i < n; i++ {
		w := newWorld(t, "C11", seed*100000+int64(i), true)
		// compression is not what this is about
		undo := vfakeTools(filepath.Join(w.dir, "bin"), `for a; do case "$a" in *.new) cp "$a" "$a.xz";; esac; done`, `for a; do case "$a" in *.new) cp "$a" "$a.zst";; esac; done`)
		w.history(6 + w.rnd.Intn(12))
		// some more deltas
		for j := 0; j < 6; j++ {
			s := w.snap()
			var rs []string
			for r := range s.repos {
				rs = append(rs, r)
			}
			sort.Strings(rs)
			if len(rs) == 0 {
				break
			}
			r := w.pick(rs)
			var es []string
			far := w.rnd.Intn(3) == 0
			for n, e := range s.repos[r] {
				if far || len(e.Available) > 1 {
					es = append(es, n)
				}
			}
			if len(es) == 0 {
				continue
			}
			sort.Strings(es)
			e := s.repos[r][w.pick(es)]
			a, b := w.pick(e.Available), e.Published
			if far {
				// to a release that another repository may have
				var bs []string
				for id, p := range s.pool {
					if p.Delta == nil && p.Meta.Name == e.Name && s.rel(id) > s.rel(b) {
						bs = append(bs, id)
					}
				}
				sort.Strings(bs)
				if len(bs) > 0 {
					b = w.pick(bs)
				}
			} else if w.rnd.Intn(3) == 0 {
				b = w.pick(e.Available)
			}
			if s.rel(a) >= s.rel(b) {
				continue
			}
			id := fmt.Sprintf("%s-%d-%d-1-x86_64.delta.eopkg", e.Name, s.rel(a), s.rel(b))
			o := &vop{kind: "adddelta", repo: r, pkg: w.mkpkg("d", id, e.Name, s.pool[b].Meta.Source.Name, s.rel(b), "1")}
			o.pkg.from, o.pkg.to = a, b
			w.do(o)
		}
		s := w.snap()
		for r := range s.repos {
			obs := []string{}
			for _, n := range []string{"nano", "nano-dbginfo", "libfoo", "a", "foo", "dbginfo", "foo-dbginfo", "libfo", "nan"} {
				if w.rnd.Intn(5) == 0 {
					obs = append(obs, n)
				}
			}
			d := filepath.Join(w.repo(r).assetPath, "distribution.xml")
			if w.rnd.Intn(4) == 0 {
				obs = nil
				os.Remove(d)
			} else {
				w.asset(r, "distribution.xml", vdist(obs))
			}
			if w.rnd.Intn(2) == 0 {
				w.asset(r, "components.xml", vcomp)
				w.asset(r, "groups.xml", vgroups)
			}
			w.note("index %s with obsolete %v", r, obs)
			if err := w.m.Index(r); err != nil {
				w.fail("C11", "indexing %s fails: %v", r, err)
			}
			w.checkIndex(r, obs, s)
			evals++
			kinds[fmt.Sprintf("%d names, obsolete %v", len(s.repos[r]), obs)] = true
			if evals < 4 {
				fmt.Printf("VERIF-SAMPLE index of %d names with obsolete %v\n", len(s.repos[r]), obs)
			}
		}
		undo()
		w.close()
	}
	fmt.Printf("VERIF-EVALS %d %d indexes of random repositories, parsed and compared with the database\n", evals, len(kinds))
}

var vpublic = []string{"eopkg-index.xml", "eopkg-index.xml.sha1sum", "eopkg-index.xml.sha256sum",
	"eopkg-index.xml.xz", "eopkg-index.xml.xz.sha1sum", "eopkg-index.xml.xz.sha256sum",
	"eopkg-index.xml.zst", "eopkg-index.xml.zst.sha1sum", "eopkg-index.xml.zst.sha256sum"}
var vtemp = []string{"eopkg-index.xml.new", "eopkg-index.xml.sha1sum.new", "eopkg-index.xml.sha256sum.new",
	"eopkg-index.xml.new.xz", "eopkg-index.xml.xz.sha1sum.new", "eopkg-index.xml.xz.sha256sum.new",
	"eopkg-index.xml.new.zst", "eopkg-index.xml.zst.sha1sum.new", "eopkg-index.xml.zst.sha256sum.new"}

func vread(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Type()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(filepath.Join(dir, e.Name()))
			m[e.Name()] = "link to " + t
		} else if !e.IsDir() {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			m[e.Name()] = string(b)
		}
	}
	return m
}

func vunpack(tool, file string) string {
	var o bytes.Buffer
	c := exec.Command(tool, "-dc", file)
	c.Stdout = &o
	if err := c.Run(); err != nil {
		return "cannot decompress: " + err.Error()
	}
	return o.String()
}

// published: all nine files belong together
func (w *vworld) published(dir, must, why string) {
	m := vread(dir)
	for _, p := range vpublic {
		if _, ok := m[p]; !ok {
			w.fail("C12", "%s: %s does not exist", why, p)
		}
	}
	for _, p := range []string{vpublic[0], vpublic[3], vpublic[6]} {
		s1, s2 := sha1.Sum([]byte(m[p])), sha256.Sum256([]byte(m[p]))
		if strings.TrimSpace(m[p+".sha1sum"]) != hex.EncodeToString(s1[:]) {
			w.fail("C12", "%s: %s.sha1sum holds %q, the SHA-1 of %s is %x", why, p, m[p+".sha1sum"], p, s1)
		}
		if strings.TrimSpace(m[p+".sha256sum"]) != hex.EncodeToString(s2[:]) {
			w.fail("C12", "%s: %s.sha256sum holds %q, the SHA-256 of %s is %x", why, p, m[p+".sha256sum"], p, s2)
		}
	}
	if !strings.Contains(m[vpublic[0]], must) {
		w.fail("C12", "%s: the published index is not the new one", why)
	}
	if x := vunpack("xz", filepath.Join(dir, vpublic[3])); x != m[vpublic[0]] {
		w.fail("C12", "%s: eopkg-index.xml.xz is not the compressed index (%.60s)", why, x)
	}
	if x := vunpack("zstd", filepath.Join(dir, vpublic[6])); x != m[vpublic[0]] {
		w.fail("C12", "%s: eopkg-index.xml.zst is not the compressed index (%.60s)", why, x)
	}
	for n := range m {
		if strings.Contains(n, ".new") {
			w.fail("C12", "%s: %s is left behind", why, n)
		}
	}
}

func TestVerifC12(t *testing.T) {
	n := 120
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 1500
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		k := vindexCase(t, seed*100000+int64(i), i)
		kinds[k] = true
		if i < 4 {
			fmt.Println("VERIF-SAMPLE", k)
		}
	}
	fmt.Printf("VERIF-EVALS %d %d index runs with every producing step made to fail over random existing files, and runs in parallel\n", n, len(kinds))
}

func vindexCase(t *testing.T, seed int64, i int) string {
	w := newWorld(t, "C12", seed, false)
	defer w.close()
	undo := func() {}
	defer func() { undo() }()
	w.names = append(w.names, "r")
	if err := w.m.CreateRepo("r"); err != nil {
		t.Fatal(err)
	}
	r := w.repo("r")
	dir := r.path
	w.asset("r", "distribution.xml", vdist([]string{"gone"}))
	w.asset("r", "components.xml", vcomp)
	w.asset("r", "groups.xml", vgroups)
	add := func(name string, rel int) string {
		id := fmt.Sprintf("%s-1-%d-1-x86_64.eopkg", name, rel)
		p := w.mkpkg("p", id, name, name, rel, "1")
		if err := r.AddPackage(w.m.db, w.m.pool, p.file, false); err != nil {
			t.Fatal(err)
		}
		return id
	}
	add("nano", 1)
	pre := "no index yet"
	if w.rnd.Intn(4) > 0 {
		pre = "an index"
		if err := w.m.Index("r"); err != nil {
			w.fail("C12", "indexing fails: %v", err)
		}
		w.published(dir, "nano-1-1-1-x86_64.eopkg", "after a first index")
		// some of it is gone or was changed
		for _, p := range vpublic {
			switch w.rnd.Intn(12) {
			case 0:
				os.Remove(filepath.Join(dir, p))
				pre += ", no " + p
			case 1:
				os.WriteFile(filepath.Join(dir, p), []byte("old "+p), 0644)
				pre += ", other " + p
			}
		}
	}
	must := add("vim", 2)
	pub0 := vread(dir)
	kind, tempKeep, late := "no fault", "", false
	faults := 9 + 15
	switch k := i % faults; {
	case k < 9:
		// a step cannot write its file
		kind = "cannot write " + vtemp[k]
		tempKeep = filepath.Join(dir, vtemp[k])
		os.MkdirAll(filepath.Join(tempKeep, "d"), 0755)
	case k == 9:
		kind = "bad distribution.xml"
		w.asset("r", "distribution.xml", []string{"<PISI><Source", "", "<PISI><Obsoletes><Package>x</PISI>"}[w.rnd.Intn(3)])
	case k == 10:
		kind = "bad components.xml"
		w.asset("r", "components.xml", []string{"<PISI><Comp", "", "<PISI></x>"}[w.rnd.Intn(3)])
	case k == 11:
		kind = "bad groups.xml"
		w.asset("r", "groups.xml", []string{"<PISI><Gr", "", "<PISI></x>"}[w.rnd.Intn(3)])
	case k == 12:
		kind = "a published package has no pool record"
		w.db.Bucket([]byte(DatabaseBucketPool)).DeleteObject([]byte(must))
	case k == 13:
		kind = "xz fails"
		undo = vfakeTools(filepath.Join(w.dir, "bin"), `for a; do case "$a" in *.new) echo part > "$a.xz";; esac; done; exit 1`, "")
	case k == 14:
		kind = "zstd fails"
		undo = vfakeTools(filepath.Join(w.dir, "bin"), "", `for a; do case "$a" in *.new) echo part > "$a.zst";; esac; done; exit 1`)
	case k == 15:
		kind = "xz is killed"
		undo = vfakeTools(filepath.Join(w.dir, "bin"), `for a; do case "$a" in *.new) echo part > "$a.xz";; esac; done; kill -9 $$`, "")
	case k == 16:
		kind = "zstd is killed"
		undo = vfakeTools(filepath.Join(w.dir, "bin"), "", `for a; do case "$a" in *.new) echo part > "$a.zst";; esac; done; kill -9 $$`)
	case k == 17:
		kind = "a public name cannot be replaced"
		late = true
		p := filepath.Join(dir, vpublic[w.rnd.Intn(9)])
		os.Remove(p)
		os.MkdirAll(filepath.Join(p, "d"), 0755)
	case k == 18:
		kind = "two at once"
	case k == 19:
		kind = "xz cannot be run"
		undo = vfakeTools(filepath.Join(w.dir, "bin"), "", "")
		os.Setenv("PATH", filepath.Join(w.dir, "bin"))
	case k == 20 || k == 21:
		// the disk fills up: creating a file works, writing it does not
		tmp := vtemp[0]
		if k == 21 {
			tmp = []string{vtemp[1], vtemp[2], vtemp[4], vtemp[5], vtemp[7], vtemp[8]}[w.rnd.Intn(6)]
		}
		kind = "no space for " + tmp
		if err := os.Symlink("/dev/full", filepath.Join(dir, tmp)); err != nil {
			t.Fatal(err)
		}
	case k == 22:
		// the disk fills up within the last bytes of the index, or before
		if err := w.m.Index("r"); err != nil {
			w.fail("C12", "indexing fails: %v", err)
		}
		pub0 = vread(dir)
		n := uint64(len(pub0[vpublic[0]]) - 1)
		if w.rnd.Intn(2) == 0 {
			n -= uint64(w.rnd.Intn(20))
		}
		kind = fmt.Sprintf("files cannot grow past %d bytes", n)
		undo = vlimit(t, n)
	}
	w.note("%s; %s", pre, kind)
	why := pre + "; " + kind
	var errs []error
	if kind == "two at once" {
		errs = make([]error, 3)
		var wg sync.WaitGroup
		for j := range errs {
			wg.Add(1)
			go func(j int) { defer wg.Done(); errs[j] = w.m.Index("r") }(j)
		}
		wg.Wait()
	} else {
		errs = []error{w.m.Index("r")}
	}
	undo()
	undo = func() {}
	if kind == "no fault" || kind == "two at once" {
		for _, err := range errs {
			if err != nil {
				w.fail("C12", "%s: indexing fails: %v", why, err)
			}
		}
		w.published(dir, must, why)
		return why
	}
	if errs[0] == nil {
		w.fail("C12", "%s: no error is reported", why)
	}
	if late {
		return kind
	}
	pub1 := vread(dir)
	for _, p := range vpublic {
		a, oka := pub0[p]
		b, okb := pub1[p]
		if oka != okb || a != b {
			w.fail("C12", "%s: indexing failed (%v) but %s was changed or removed", why, errs[0], p)
		}
	}
	for p := range pub1 {
		if strings.Contains(p, ".new") && filepath.Join(dir, p) != tempKeep {
			w.fail("C12", "%s: indexing failed (%v) and %s is left behind", why, errs[0], p)
		}
	}
	return kind
}

// vlimit makes every write past n bytes of a file fail, until undone.
func vlimit(t *testing.T, n uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	now := old
	now.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now); err != nil {
		t.Fatal(err)
	}
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

package jobs

import (
	"archive/zip"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

// Uploads with random manifests and payloads, good and bad in every position, against a manager on
// a scratch directory.

type tfile struct {
	disk    string // file name on disk, "" if absent
	name    string // package name
	rel     int
	path    string // what the manifest says
	sha     string
	pathOK  bool
	shaSet  bool
	good    bool // readable with exactly the listed digest
	comment string
}

func tzip(file, meta string) error {
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer f.Close()
	z := zip.NewWriter(f)
	for _, p := range [][2]string{{"metadata.xml", meta}, {"files.xml", "<Files></Files>"}} {
		o, err := z.Create(p[0])
		if err != nil {
			return err
		}
		if _, err = io.WriteString(o, p[1]); err != nil {
			return err
		}
	}
	return z.Close()
}

func tpkg(file, name string, rel int) error {
	return tzip(file, fmt.Sprintf(`<PISI><Source><Name>%s</Name><Packager><Name>x</Name><Email>x</Email></Packager></Source>
<Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>1.%d</Version><Comment>c</Comment><Name>n</Name><Email>e</Email></Update></History>
<DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`,
		name, name, rel, rel, name))
}

func tsha(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

func tsnap(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			m[p] = tsha(p)
		}
		return nil
	})
	return m
}

// listing gives the releases listed for every name.
func tlist(m *core.Manager, repo string) string {
	ns, err := m.GetPackageNames(repo)
	if err != nil {
		return "error: " + err.Error()
	}
	sort.Strings(ns)
	var o []string
	for _, n := range ns {
		ps, err := m.GetPackages(repo, n)
		if err != nil {
			return "error: " + err.Error()
		}
		var ids []string
		for _, p := range ps {
			ids = append(ids, p.GetID())
		}
		sort.Strings(ids)
		o = append(o, n+"="+strings.Join(ids, ","))
	}
	return strings.Join(o, " ")
}

func TestVerifC05(t *testing.T) {
	log.SetOutput(io.Discard)
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	n, execs := 400, 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		n, execs = 6000, 600
	}
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		k := tcase(t, seed*1000003+int64(i), i%(n/execs) == 0)
		kinds[k] = true
		if i < 4 {
			fmt.Printf("VERIF-SAMPLE upload %s\n", k)
		}
	}
	fmt.Printf("VERIF-EVALS %d %d random manifests and payloads (every %dth also executed against a manager)\n", n, len(kinds), n/execs)
}

func tcase(t *testing.T, seed int64, execute bool) string {
	rnd := rand.New(rand.NewSource(seed))
	dir, err := os.MkdirTemp("", "tr")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	up := filepath.Join(dir, "in coming")
	os.MkdirAll(up, 0755)
	var lg []string
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL property C05: %s\n", fmt.Sprintf(f, a...))
		fmt.Println("    seed", seed)
		for _, l := range lg {
			fmt.Println("   ", l)
		}
		os.RemoveAll(dir)
		t.FailNow()
	}
	pick := func(good string, bad ...string) (string, bool) {
		if rnd.Intn(6) != 0 {
			return good, true
		}
		return bad[rnd.Intn(len(bad))], false
	}
	version, vok := pick("1.0", "", "1", "1.00", "1.0.0", "2.0", "v1.0", "01.0", "1.1", "0.1", "1,0", "1.0-rc1")
	target, tok := pick("unstable", "", " ", "\\t \\n")
	if rnd.Intn(8) == 0 && vok {
		version = " 1.0\\t"
	}
	if rnd.Intn(8) == 0 && tok {
		target = " unstable\\n"
	}
	nf := rnd.Intn(5)
	if rnd.Intn(8) != 0 && nf == 0 {
		nf = 1
	}
	pbad := []int{0, 0, 20, 5}[rnd.Intn(4)] // how often an entry is bad
	bad := func() bool { return pbad > 0 && rnd.Intn(pbad) < 3 }
	if nf > 0 && rnd.Intn(2) == 0 {
		// exactly one bad entry, anywhere
		k, at := -1, rnd.Intn(nf)
		bad = func() bool { k++; return k == at }
	}
	var fs []*tfile
	for i := 0; i < nf; i++ {
		f := &tfile{name: []string{"nano", "vim", "zlib", "a-b"}[i], rel: 1 + rnd.Intn(6), pathOK: true, shaSet: true, good: true, comment: "good"}
		f.disk = fmt.Sprintf("%s-1.%d-%d-1-x86_64.eopkg", f.name, f.rel, f.rel)
		if rnd.Intn(8) == 0 {
			f.disk = fmt.Sprintf("%s-0-%d-1-x86_64.delta.eopkg", f.name, f.rel)
		}
		f.path = f.disk
		if err := tpkg(filepath.Join(up, f.disk), f.name, f.rel); err != nil {
			t.Fatal(err)
		}
		f.sha = tsha(filepath.Join(up, f.disk))
		full := filepath.Join(up, f.disk)
		if bad() {
			f.good = false
			k := rnd.Intn(16)
			f.comment = fmt.Sprintf("bad kind %d", k)
			switch k {
			case 0:
				f.path, f.pathOK = "", false
			case 1:
				f.path, f.pathOK = " \\t", false
			case 2:
				f.sha, f.shaSet = "", false
			case 3:
				f.sha, f.shaSet = " \\n ", false
			case 4, 5, 6:
				x := []string{f.disk + ".txt", strings.TrimSuffix(f.disk, ".eopkg") + ".eopkgx", strings.TrimSuffix(f.disk, ".eopkg") + ".tar", f.name + "eopkg", f.disk + "/x"}[rnd.Intn(5)]
				os.Rename(full, filepath.Join(up, filepath.Base(x)))
				f.disk, f.path, f.pathOK = filepath.Base(x), x, false
			case 7:
				os.Remove(full)
				f.disk = ""
			case 8:
				os.Remove(full)
				os.Mkdir(full, 0755)
				f.disk = ""
			case 9:
				h, _ := os.OpenFile(full, os.O_APPEND|os.O_WRONLY, 0644)
				h.Write([]byte{0})
				h.Close()
			case 10:
				b, _ := os.ReadFile(full)
				b[len(b)-1-rnd.Intn(20)] ^= 1
				os.WriteFile(full, b, 0644)
			case 11:
				os.Truncate(full, 0)
			case 12:
				f.sha = f.sha[:len(f.sha)-1]
			case 13:
				f.sha = f.sha + "0"
			case 14:
				s := sha256.Sum256([]byte(f.disk))
				f.sha = hex.EncodeToString(s[:])
			case 15:
				b := []byte(strings.TrimSpace(f.sha))
				j := rnd.Intn(64)
				if b[j] == '0' {
					b[j] = '1'
				} else {
					b[j] = '0'
				}
				f.sha = string(b)
			}
		}
		if f.good && rnd.Intn(10) == 0 {
			f.path, f.sha = " "+f.path+"\\t", "\\n "+f.sha+" "
		}
		fs = append(fs, f)
	}
	// a path listed again, with another digest
	if len(fs) >= 1 && rnd.Intn(10) == 0 {
		f := fs[rnd.Intn(len(fs))]
		if f.good && f.path == f.disk {
			g := *f
			x := sha256.Sum256([]byte("other"))
			g.sha, g.good, g.comment = hex.EncodeToString(x[:]), false, "listed again with another digest"
			if k := rnd.Intn(len(fs) + 1); rnd.Intn(2) == 0 {
				fs = append(fs[:k:k], append([]*tfile{&g}, fs[k:]...)...)
			} else {
				fs = append(fs, &g)
			}
		}
	}
	// two entries with each other's digests
	if len(fs) >= 2 && rnd.Intn(8) == 0 {
		i, j := rnd.Intn(len(fs)), rnd.Intn(len(fs))
		if i != j && fs[i].good && fs[j].good {
			fs[i].sha, fs[j].sha = fs[j].sha, fs[i].sha
			fs[i].good, fs[j].good = false, false
			fs[i].comment, fs[j].comment = "digest of another file", "digest of another file"
		}
	}
	var b strings.Builder
	if rnd.Intn(20) != 0 || !vok || !tok {
		fmt.Fprintf(&b, "[manifest]\nversion = \"%s\"\ntarget = \"%s\"\n\n", version, target)
	} else {
		vok = false
		b.WriteString("# no header\n")
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n\n", f.path, f.sha)
	}
	tram := filepath.Join(up, "x.tram")
	os.WriteFile(tram, []byte(b.String()), 0644)
	kind := fmt.Sprintf("version %q target %q:", version, target)
	accept, valid := vok && tok && len(fs) >= 1, true
	for _, f := range fs {
		kind += " " + f.comment
		if !f.pathOK || !f.shaSet {
			accept = false
		}
		valid = valid && f.good
	}
	lg = append(lg, kind, b.String())
	m, err := core.NewTransitManifest(tram)
	if (err == nil) != accept {
		fail("the manifest is accepted: %v (%v), want %v", err == nil, err, accept)
	}
	if accept {
		if err := m.ValidatePayload(); (err == nil) != valid {
			fail("the payload is found valid: %v (%v), want %v", err == nil, err, valid)
		}
	}
	if !execute && !(accept && !valid && rnd.Intn(12) == 0) {
		return kind
	}
	base := filepath.Join(dir, "base")
	os.MkdirAll(base, 0755)
	mg, err := core.NewManager(base)
	if err != nil {
		t.Fatal(err)
	}
	defer mg.Close()
	exists := rnd.Intn(8) != 0
	listed := map[string]int{}
	for _, r := range []string{"unstable", "other"} {
		if r == "unstable" && !exists {
			continue
		}
		if err := mg.CreateRepo(r); err != nil {
			t.Fatal(err)
		}
		if rnd.Intn(2) == 0 {
			rel := 1 + rnd.Intn(4)
			name := []string{"nano", "vim", "zlib"}[rnd.Intn(3)]
			p := filepath.Join(dir, fmt.Sprintf("%s-1.%d-%d-1-x86_64.eopkg", name, rel, rel))
			if err := tpkg(p, name, rel); err != nil {
				t.Fatal(err)
			}
			if err := mg.AddPackages(r, []string{p}, false); err != nil {
				t.Fatal(err)
			}
			if r == "unstable" {
				listed[name] = rel
			}
			lg = append(lg, fmt.Sprintf("%s lists %s release %d", r, name, rel))
		}
	}
	lg = append(lg, fmt.Sprintf("unstable exists: %v", exists))
	include := exists
	for _, f := range fs {
		if r, ok := listed[f.name]; ok && f.rel <= r {
			include = false
		}
	}
	l0, o0, s0 := tlist(mg, "unstable"), tlist(mg, "other"), tsnap(up)
	pool0 := tsnap(filepath.Join(base, "pool"))
	h, err := NewTransitJobHandler(NewTransitJob(tram))
	if err != nil {
		t.Fatal(err)
	}
	err = h.Execute(nil, mg)
	l1, o1, s1 := tlist(mg, "unstable"), tlist(mg, "other"), tsnap(up)
	if (err == nil) != (accept && valid && include) {
		fail("processing the upload gave %v; manifest good: %v, payload good: %v, inclusion possible: %v", err, accept, valid, include)
	}
	if o0 != o1 {
		fail("another repository changed from %q to %q", o0, o1)
	}
	if !(accept && valid) {
		if l0 != l1 {
			fail("a bad upload changed the repository from %q to %q", l0, l1)
		}
		if p := tsnap(filepath.Join(base, "pool")); fmt.Sprint(p) != fmt.Sprint(pool0) {
			fail("a bad upload changed the pool")
		}
	}
	if err != nil {
		if fmt.Sprint(s0) != fmt.Sprint(s1) {
			fail("the upload failed (%v) and its files changed from %v to %v", err, s0, s1)
		}
		return kind
	}
	for _, f := range fs {
		found := false
		ps, _ := mg.GetPackages("unstable", f.name)
		for _, p := range ps {
			found = found || p.GetID() == f.disk
		}
		if !found {
			fail("%s was uploaded but is not listed: %q", f.disk, l1)
		}
		if _, there := s1[filepath.Join(up, f.disk)]; there {
			fail("%s was included but stays in the incoming directory", f.disk)
		}
	}
	for p, c := range s0 {
		mine := p == tram
		for _, f := range fs {
			mine = mine || p == filepath.Join(up, f.disk)
		}
		if !mine && s1[p] != c {
			fail("%s is not part of the upload but was changed or deleted", p)
		}
	}
	return kind
}

package jobs

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libeopkg"
)

// Delta jobs over random sets of versions, skip records and existing deltas, with packages that can really
// be compared and compressed, against a manager on a scratch directory.

type dver struct {
	name, dist, arch string
	rel              int
	files            map[string]string // path to content, "" for a directory
	id, path         string
}

// dmake writes a package with files that can be extracted.
func dmake(dir string, v *dver) error {
	v.id = fmt.Sprintf("%s-1.%d-%d-%s-%s.eopkg", v.name, v.rel, v.rel, v.dist, v.arch)
	v.path = filepath.Join(dir, v.id)
	var ps []string
	for p := range v.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	fx := "<Files>"
	for _, p := range ps {
		c := v.files[p]
		if c == "" {
			tw.WriteHeader(&tar.Header{Name: p + "/", Typeflag: tar.TypeDir, Mode: 0755})
			fx += fmt.Sprintf("<File><Path>%s</Path><Type>data</Type><Mode>0755</Mode></File>", p)
			continue
		}
		h := sha1.Sum([]byte(c))
		tw.WriteHeader(&tar.Header{Name: p, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(c))})
		io.WriteString(tw, c)
		fx += fmt.Sprintf("<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Mode>0644</Mode><Hash>%s</Hash></File>", p, len(c), hex.EncodeToString(h[:]))
	}
	fx += "</Files>"
	tw.Close()
	cmd := exec.Command("xz", "-0", "-c")
	cmd.Stdin = &tb
	ball, err := cmd.Output()
	if err != nil {
		return err
	}
	meta := fmt.Sprintf(`<PISI><Source><Name>%s</Name><Packager><Name>x</Name><Email>x</Email></Packager></Source>
<Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>1.%d</Version><Comment>c</Comment><Name>n</Name><Email>e</Email></Update></History>
<DistributionRelease>%s</DistributionRelease><Architecture>%s</Architecture><Source><Name>%s</Name></Source></Package></PISI>`,
		v.name, v.name, v.rel, v.rel, v.dist, v.arch, v.name)
	f, err := os.Create(v.path)
	if err != nil {
		return err
	}
	defer f.Close()
	z := zip.NewWriter(f)
	for _, p := range [][2]string{{"metadata.xml", meta}, {"files.xml", fx}, {"install.tar.xz", string(ball)}} {
		o, err := z.Create(p[0])
		if err != nil {
			return err
		}
		io.WriteString(o, p[1])
	}
	return z.Close()
}

func dname(a, b *dver) string {
	return fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", b.name, a.rel, b.rel, b.dist, b.arch)
}

// shares: some file of b has the content of one of a, so a delta is smaller than b.
func shares(a, b *dver) bool {
	have := map[string]bool{}
	for _, c := range a.files {
		have[c] = true
	}
	for _, c := range b.files {
		if c != "" && have[c] {
			return true
		}
	}
	return false
}

func TestVerifC13(t *testing.T) {
	log.SetOutput(io.Discard)
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	n := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 800
	}
	dpure(t, seed)
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		k := dcase(t, seed*1000003+int64(i))
		kinds[k] = true
		if i < 4 {
			fmt.Printf("VERIF-SAMPLE %s\n", k)
		}
	}
	fmt.Printf("VERIF-EVALS %d %d random version sets, skip records and existing deltas, the job run twice on one repository and once on another, with real archives\n", n, len(kinds))
}

// dpure tries the compatibility and the names on every combination of small values.
func dpure(t *testing.T, seed int64) {
	mk := func(n string, r int, d, a string) *libeopkg.MetaPackage {
		return &libeopkg.MetaPackage{Name: n, DistributionRelease: d, Architecture: a, History: []libeopkg.Update{{Release: r}, {Release: 1}}}
	}
	var all []*libeopkg.MetaPackage
	for _, n := range []string{"a", "a-1", "b"} {
		for _, r := range []int{1, 2, 9, 10, 12} {
			for _, d := range []string{"1", "2", "01", ""} {
				for _, a := range []string{"x86_64", "i686", "any", "noarch", "X86_64", ""} {
					all = append(all, mk(n, r, d, a))
				}
			}
		}
	}
	names := map[string]string{}
	for _, o := range all {
		for _, w := range all {
			want := o.Name == w.Name && o.DistributionRelease == w.DistributionRelease && o.Architecture == w.Architecture && o.GetRelease() < w.GetRelease()
			if got := libeopkg.IsDeltaPossible(o, w); got != want {
				fmt.Printf("VERIF-FAIL property C13: a delta from %s release %d (%s, %s) to %s release %d (%s, %s) is possible: %v\n", o.Name, o.GetRelease(), o.DistributionRelease, o.Architecture,
					w.Name, w.GetRelease(), w.DistributionRelease, w.Architecture, got)
				t.FailNow()
			}
			id := libeopkg.ComputeDeltaName(o, w)
			key := fmt.Sprint(w.Name, " from ", o.GetRelease(), " to ", w.GetRelease(), " in ", w.DistributionRelease, " ", w.Architecture)
			if k, ok := names[id]; ok && k != key {
				fmt.Printf("VERIF-FAIL property C13: %s names a delta of %s and one of %s\n", id, k, key)
				t.FailNow()
			}
			names[id] = key
		}
	}
}

type drepo struct {
	name string
	vers []*dver
}

func dcase(t *testing.T, seed int64) string {
	rnd := rand.New(rand.NewSource(seed))
	dir, err := os.MkdirTemp("", "dl")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in")
	base := filepath.Join(dir, "base")
	os.MkdirAll(in, 0755)
	os.MkdirAll(base, 0755)
	var lg []string
	note := func(f string, a ...interface{}) { lg = append(lg, fmt.Sprintf(f, a...)) }
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL property C13: %s\n", fmt.Sprintf(f, a...))
		fmt.Println("    seed", seed)
		for _, l := range lg {
			fmt.Println("   ", l)
		}
		os.RemoveAll(dir)
		t.FailNow()
	}
	// versions of one name, oldest first, with few contents so that some pairs share nothing
	var vers []*dver
	mixed := rnd.Intn(3) == 0
	rel := 0
	for i, k := 0, rnd.Intn(5)+1; i < k; i++ {
		rel += 1 + rnd.Intn(5)
		v := &dver{name: "nano", dist: "1", arch: "x86_64", rel: rel, files: map[string]string{}}
		if mixed && rnd.Intn(3) == 0 {
			if rnd.Intn(2) == 0 {
				v.dist = []string{"2", "01", "any"}[rnd.Intn(3)]
			} else {
				v.arch = []string{"i686", "any", "noarch", "X86_64"}[rnd.Intn(4)]
			}
		}
		for j, m := 0, 1+rnd.Intn(3); j < m; j++ {
			v.files[fmt.Sprintf("usr/f%d", j)] = fmt.Sprintf("content %d", rnd.Intn(5))
		}
		if rnd.Intn(4) == 0 {
			v.files["usr/dir"] = ""
		}
		if err := dmake(in, v); err != nil {
			t.Fatal(err)
		}
		vers = append(vers, v)
		note("version %s release %d (%s, %s): %v", v.id, v.rel, v.dist, v.arch, v.files)
	}
	other := &dver{name: "vim", dist: "1", arch: "x86_64", rel: 3, files: map[string]string{"x": "1"}}
	if err := dmake(in, other); err != nil {
		t.Fatal(err)
	}
	mg, err := core.NewManager(base)
	if err != nil {
		t.Fatal(err)
	}
	closed := false
	defer func() {
		if !closed {
			mg.Close()
		}
	}()
	repos := []*drepo{{name: "alpha"}, {name: "beta"}}
	for i, r := range repos {
		if err := mg.CreateRepo(r.name); err != nil {
			t.Fatal(err)
		}
		for _, v := range append(append([]*dver{}, vers...), other) {
			if v != other && (i == 1 && rnd.Intn(3) == 0) {
				continue
			}
			if err := mg.AddPackages(r.name, []string{v.path}, false); err != nil {
				t.Fatal(err)
			}
			if v != other {
				r.vers = append(r.vers, v)
			}
		}
		note("%s lists %d versions", r.name, len(r.vers))
	}
	skip := map[string]core.DeltaInformation{}
	listed := map[string]map[string]core.DeltaInformation{"alpha": {}, "beta": {}}
	info := func(a, b *dver) core.DeltaInformation {
		return core.DeltaInformation{FromID: a.id, ToID: b.id, FromRelease: a.rel, ToRelease: b.rel}
	}
	for i, a := range vers {
		for _, b := range vers[i+1:] {
			if rnd.Intn(6) == 0 {
				m := info(a, b)
				if err := mg.MarkDeltaFailed(dname(a, b), &m); err != nil {
					t.Fatal(err)
				}
				skip[dname(a, b)] = m
				note("recorded as failed: %s", dname(a, b))
			}
		}
	}
	run := func(r *drepo) {
		j := NewDeltaJob(r.name, "nano")
		index := rnd.Intn(8) == 0
		if index {
			j = NewDeltaIndexJob(r.name, "nano")
		}
		h, err := NewDeltaJobHandler(j, index)
		if err != nil {
			t.Fatal(err)
		}
		note("delta job for nano in %s", r.name)
		err = h.Execute(nil, mg)
		want := len(r.vers) > 0
		if (err == nil) != want {
			fail("the job gives %v", err)
		}
		if len(r.vers) < 2 {
			return
		}
		tip := r.vers[len(r.vers)-1]
		for _, v := range r.vers[:len(r.vers)-1] {
			id := dname(v, tip)
			if _, ok := skip[id]; ok || v.dist != tip.dist || v.arch != tip.arch {
				continue
			}
			if _, ok := listed[r.name][id]; ok {
				continue
			}
			if !shares(v, tip) {
				skip[id] = info(v, tip)
				continue
			}
			listed[r.name][id] = info(v, tip)
		}
	}
	// what is listed and recorded, read back through the manager
	check := func(when string) {
		for _, r := range repos {
			for i, a := range vers {
				for k, b := range vers {
					if i == k {
						continue
					}
					id := dname(a, b)
					_, want := listed[r.name][id]
					if len(r.vers) > 0 {
						got, err := mg.HasDelta(r.name, "nano", id)
						if err != nil || got != want {
							fail("%s: %s lists %s: %v (%v), want %v", when, r.name, id, got, err, want)
						}
					}
					if _, want := skip[id]; mg.GetDeltaFailed(id) != want {
						fail("%s: %s is recorded as failed: %v, want %v (shared files: %v)", when, id, !want, want, shares(a, b))
					}
				}
			}
		}
	}
	for i, r := range []*drepo{repos[0], repos[0], repos[1]} {
		if i == 2 && rnd.Intn(2) == 0 {
			// recorded as failed although another repository lists it
			var ids []string
			for id := range listed["alpha"] {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				if m := listed["alpha"][id]; rnd.Intn(2) == 0 {
					if err := mg.MarkDeltaFailed(id, &m); err != nil {
						t.Fatal(err)
					}
					skip[id] = m
					note("recorded as failed: %s", id)
				}
			}
		}
		run(r)
		check("after the job on " + r.name)
	}
	mg.Close()
	closed = true
	db, err := libdb.Open(filepath.Join(base, core.DatabasePathComponent))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	pool := db.Bucket([]byte(core.DatabaseBucketPool))
	for _, r := range repos {
		refs := map[string]int{}
		b := db.Bucket([]byte(core.DatabaseBucketRepo)).Bucket([]byte(r.name)).Bucket([]byte(core.DatabaseBucketPackage))
		b.ForEach(func(k, v []byte) error {
			e := core.RepoEntry{}
			if err := b.Decode(v, &e); err != nil {
				return err
			}
			if e.Name != "nano" {
				if len(e.Deltas) != 0 {
					fail("%s lists deltas %v for %s", r.name, e.Deltas, e.Name)
				}
				return nil
			}
			for _, id := range e.Deltas {
				refs[id]++
				want, ok := listed[r.name][id]
				if !ok {
					fail("%s lists the delta %s", r.name, id)
				}
				p := core.PoolEntry{}
				if err := pool.GetObject([]byte(id), &p); err != nil {
					fail("%s lists %s, which is not in the pool: %v", r.name, id, err)
				}
				if p.Delta == nil || *p.Delta != want {
					fail("the delta %s is recorded to lead %+v, want %+v", id, p.Delta, want)
				}
			}
			return nil
		})
		for id := range listed[r.name] {
			if refs[id] != 1 {
				fail("%s lists %s %d times", r.name, id, refs[id])
			}
		}
	}
	got := map[string]bool{}
	sb := db.Bucket([]byte(core.DatabaseBucketDeltaSkip))
	if err := sb.ForEach(func(k, v []byte) error {
		e := core.DeltaSkipEntry{}
		if err := sb.Decode(v, &e); err != nil {
			return err
		}
		got[e.Name] = true
		if w, ok := skip[e.Name]; !ok || w != e.Delta {
			fail("%s is recorded as failed, leading %+v, want %v %+v", e.Name, e.Delta, ok, w)
		}
		return nil
	}); err != nil {
		t.Fatal(err)
	}
	for id := range skip {
		if !got[id] {
			fail("%s is not recorded as failed", id)
		}
	}
	return fmt.Sprintf("%d versions, mixed %v, %d listed, %d recorded as failed: %s", len(vers), mixed, len(listed["alpha"])+len(listed["beta"]), len(skip), strings.Join(lg, "; "))
}

package main

import (
	"archive/zip"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
)

// Requests sent by the real client through the real router of a daemon in a scratch directory. The
// stored job is reloaded and executed; a twin manager performs the requested operation directly and
// both worlds have to end up the same.

type rworld struct {
	t     *testing.T
	prop  string
	dir   string
	s     *Server
	c     *libferry.Client
	twin  *core.Manager
	rnd   *rand.Rand
	log   []string
	files []string
	kinds map[string]bool
	ops   int
}

func (w *rworld) note(f string, a ...interface{}) {
	x := strings.ReplaceAll(fmt.Sprintf(f, a...), w.dir, "")
	w.log = append(w.log, x)
}

func (w *rworld) fail(f string, a ...interface{}) {
	fmt.Printf("VERIF-FAIL property %s: %s\n", w.prop, fmt.Sprintf(f, a...))
	l := w.log
	if len(l) > 60 {
		l = append([]string{l[0]}, l[len(l)-60:]...)
	}
	for _, x := range l {
		fmt.Println("   ", x)
	}
	w.t.FailNow()
}

func rzip(file string, parts map[string]string) error {
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer f.Close()
	z := zip.NewWriter(f)
	var ks []string
	for k := range parts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o, err := z.Create(k)
		if err != nil {
			return err
		}
		if _, err = io.WriteString(o, parts[k]); err != nil {
			return err
		}
	}
	return z.Close()
}

func (w *rworld) pkg(name, source string, rel int) string {
	meta := fmt.Sprintf(`<PISI><Source><Name>%s</Name><Packager><Name>x</Name><Email>x</Email></Packager></Source>
<Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description>
<History><Update release="%d"><Date>2020-01-01</Date><Version>1.%d</Version><Comment>c</Comment><Name>n</Name><Email>e</Email></Update></History>
<DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`,
		source, name, rel, rel, source)
	d := filepath.Join(w.dir, "in")
	os.MkdirAll(d, 0755)
	f := filepath.Join(d, fmt.Sprintf("%s-1.%d-%d-1-x86_64.eopkg", name, rel, rel))
	if err := rzip(f, map[string]string{"metadata.xml": meta, "files.xml": "<Files></Files>"}); err != nil {
		w.t.Fatal(err)
	}
	return f
}

func newRequests(t *testing.T, prop string, seed int64) *rworld {
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "r")
	if err != nil {
		t.Fatal(err)
	}
	w := &rworld{t: t, prop: prop, dir: dir, rnd: rand.New(rand.NewSource(seed)), kinds: map[string]bool{}}
	w.note("seed %d", seed)
	baseDir = filepath.Join(dir, "a")
	os.MkdirAll(baseDir, 0755)
	os.MkdirAll(filepath.Join(dir, "b"), 0755)
	systemdEnabled = false
	backgroundJobCount = 2
	socketPath = filepath.Join(dir, "s")
	if len(socketPath) > 100 {
		d2, err := os.MkdirTemp("/tmp", "vs")
		if err != nil {
			t.Fatal(err)
		}
		os.Chmod(d2, 0700)
		socketPath = filepath.Join(d2, "s")
	}
	if w.s, err = NewServer(); err != nil {
		t.Fatal(err)
	}
	if err = w.s.Bind(); err != nil {
		t.Fatal(err)
	}
	w.s.srv.ErrorLog = stdlog.New(io.Discard, "", 0)
	go w.s.srv.Serve(w.s.socket)
	w.c = libferry.NewClient(socketPath)
	if w.twin, err = core.NewManager(filepath.Join(dir, "b")); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"nano", "nano-dbginfo", "a", "libfoo"} {
		src := strings.TrimSuffix(n, "-dbginfo")
		if n == "a" {
			src = "nano"
		}
		for k := 1 + w.rnd.Intn(4); k > 0; k-- {
			w.files = append(w.files, w.pkg(n, src, 1+w.rnd.Intn(6)))
		}
	}
	return w
}

func (w *rworld) close() {
	w.c.Close()
	w.s.srv.Close()
	w.s.watcher.Close()
	func() {
		defer func() { recover() }()
		w.s.store.Close()
	}()
	w.s.manager.Close()
	w.twin.Close()
	w.s.lockFile.Unlock()
	w.s.lockFile.Clean()
	if d := filepath.Dir(socketPath); d != w.dir {
		os.RemoveAll(d)
	}
	os.RemoveAll(w.dir)
}

// tree is what a manager publishes: the files of its repositories and pool, its counts and names.
func tree(base string, m *core.Manager) map[string]string {
	r := map[string]string{}
	for _, sub := range []string{"repo", "pool", "assets", "incoming"} {
		filepath.Walk(filepath.Join(base, sub), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(base, p)
			if fi.IsDir() {
				r[rel] = "directory"
				return nil
			}
			b, _ := os.ReadFile(p)
			r[rel] = fmt.Sprintf("%x", sha256.Sum256(b))
			return nil
		})
	}
	items, err := m.GetPoolItems()
	if err != nil {
		r["pool items"] = err.Error()
	}
	for _, i := range items {
		r["pool:"+i.Name] = fmt.Sprint(i.RefCount)
	}
	repos, err := m.GetRepos()
	if err != nil {
		r["repositories"] = err.Error()
	}
	for _, x := range repos {
		r["repo:"+x.ID] = "yes"
		names, err := m.GetPackageNames(x.ID)
		r["names:"+x.ID] = fmt.Sprint(len(names), err)
		for _, n := range names {
			ps, err := m.GetPackages(x.ID, n)
			var ids []string
			for _, p := range ps {
				ids = append(ids, p.GetID())
			}
			sort.Strings(ids)
			r["lists:"+x.ID+"/"+n] = fmt.Sprint(ids, err)
		}
	}
	return r
}

func diff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, fmt.Sprintf("%s: %q after the request, %q after the operation", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s: nothing after the request, %q after the operation", k, v))
		}
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = out[:5]
	}
	return strings.Join(out, "; ")
}

// restart closes and reopens the job store, as a daemon that is restarted.
func (w *rworld) restart() {
	w.s.store.Close()
	st, err := jobs.NewStore(baseDir)
	if err != nil {
		w.t.Fatal(err)
	}
	w.s.store = st
	w.s.jproc = jobs.NewProcessor(w.s.manager, st, 2)
}

func (w *rworld) empty(what string, claim func() (*jobs.JobEntry, error)) {
	j, err := claim()
	if err != jobs.ErrEmptyQueue {
		w.fail("%s: the other queue is not empty: %v %v", what, j, err)
	}
}

// drain takes the asynchronous jobs out of the store.
func (w *rworld) drain(what string) (r [][]string) {
	for {
		j, err := w.s.store.ClaimAsyncJob()
		if err == jobs.ErrEmptyQueue {
			sort.Slice(r, func(i, k int) bool { return strings.Join(r[i], "\x00") < strings.Join(r[k], "\x00") })
			return
		}
		if err != nil {
			w.fail("%s: claiming a delta job: %v", what, err)
		}
		if _, err := jobs.NewJobHandler(j); err != nil {
			w.fail("%s: the daemon created a job nothing handles: %s %q: %v", what, j.Type, j.Params, err)
		}
		r = append(r, append([]string{string(j.Type)}, j.Params...))
		if err := w.s.store.RetireAsyncJob(j); err != nil {
			w.fail("%s: retiring a delta job: %v", what, err)
		}
	}
}

func errText(err error, dir string) string {
	if err == nil {
		return "success"
	}
	return strings.ReplaceAll(err.Error(), dir, "")
}

// request sends one request, executes the job and compares with the operation itself.
func (w *rworld) request(what string, send func() error, direct func() error, async func() [][]string) {
	w.ops++
	w.kinds[what] = true
	w.note("%s", what)
	if err := send(); err != nil {
		w.fail("%s: the request was refused: %v", what, err)
	}
	if w.rnd.Intn(3) > 0 {
		w.note("  the daemon restarts")
		w.restart()
	}
	w.empty(what, w.s.store.ClaimAsyncJob)
	j, err := w.s.store.ClaimSequentialJob()
	if err != nil {
		w.fail("%s: the request was accepted and no job stored: %v", what, err)
	}
	if w.rnd.Intn(4) == 0 {
		w.note("  the daemon restarts with the job claimed")
		w.restart()
		if j, err = w.s.store.ClaimSequentialJob(); err != nil {
			w.fail("%s: the claimed job is lost after a restart: %v", what, err)
		}
	}
	w.note("  job %s %q", j.Type, j.Params)
	h, err := jobs.NewJobHandler(j)
	if err != nil {
		w.fail("%s: the job %s %q was rejected: %v", what, j.Type, j.Params, err)
	}
	h.Describe()
	got := h.Execute(w.s.jproc, w.s.manager)
	want := direct()
	w.note("  -> %v", got)
	if errText(got, filepath.Join(w.dir, "a")) != errText(want, filepath.Join(w.dir, "b")) {
		w.fail("%s: the job ends with %v, the operation with %v", what, got, want)
	}
	h.Describe()
	if d := diff(tree(filepath.Join(w.dir, "a"), w.s.manager), tree(filepath.Join(w.dir, "b"), w.twin)); d != "" {
		w.fail("%s: the job did not do what the operation does: %s", what, d)
	}
	if err := w.s.store.RetireSequentialJob(j); err != nil {
		w.fail("%s: retiring: %v", what, err)
	}
	w.empty(what, w.s.store.ClaimSequentialJob)
	as := w.drain(what)
	if async != nil && got == nil {
		if exp := async(); !(len(as) == 0 && (len(exp) == 0 || exp[0][0] == "Delta+Index")) && !reflect.DeepEqual(as, exp) {
			w.fail("%s: created the jobs %q, expected %q", what, as, exp)
		}
	} else if async == nil && len(as) > 0 {
		w.fail("%s: created the jobs %q", what, as)
	}
}

func (w *rworld) pick(l ...string) string { return l[w.rnd.Intn(len(l))] }

func (w *rworld) history(steps int) {
	repos := []string{"unstable", "shannon", "x-1"}
	src := func() string { return w.pick("nano", "libfoo", "nano", "none", "ünï \"q\" <&>") }
	rel := func() int { return []int{-1, 0, 1, 2, 3, 4, 5, 6, -7, 1 << 40}[w.rnd.Intn(10)] }
	for _, r := range repos[:2] {
		r := r
		w.request("create "+r, func() error { return w.c.CreateRepo(r) }, func() error { return w.twin.CreateRepo(r) }, nil)
	}
	for i := 0; i < steps; i++ {
		r, o := w.pick(repos...), w.pick(append(repos, "missing")...)
		switch w.rnd.Intn(20) {
		case 0:
			w.request("create "+r, func() error { return w.c.CreateRepo(r) }, func() error { return w.twin.CreateRepo(r) }, nil)
		case 1:
			if w.rnd.Intn(2) == 0 {
				w.request("delete "+r, func() error { return w.c.DeleteRepo(r) }, func() error { return w.twin.DeleteRepo(r) }, nil)
			}
		case 2, 3, 4, 17, 18, 19:
			var fs []string
			for k := []int{1, 1, 1, 2, 3, 4}[w.rnd.Intn(6)]; k > 0; k-- {
				fs = append(fs, w.pick(w.files...))
			}
			if w.rnd.Intn(8) == 0 {
				fs = append(fs, filepath.Join(w.dir, "in", "no such, file-1-1-1-x86_64.eopkg"), w.pick(w.files...))
			}
			w.request(fmt.Sprintf("import %s %q", r, fs), func() error { return w.c.ImportPackages(r, fs) },
				func() error { return w.twin.AddPackages(r, fs, false) }, nil)
		case 5, 6:
			n, full := w.pick("clone", "new one", "x-1", "ü", "shannon"), w.rnd.Intn(2) == 0
			w.request(fmt.Sprintf("clone %s %q full=%v", r, n, full), func() error { return w.c.CloneRepo(r, n, full) },
				func() error { return w.twin.CloneRepo(r, n, full) }, nil)
			if w.rnd.Intn(2) == 0 {
				w.request("delete "+n, func() error { return w.c.DeleteRepo(n) }, func() error { return w.twin.DeleteRepo(n) }, nil)
			}
		case 7, 8:
			s, rl, sk := src(), rel(), w.rnd.Intn(2) == 0
			w.request(fmt.Sprintf("copy source from %s to %s %q release %d skip=%v", r, o, s, rl, sk),
				func() error { return w.c.CopySource(r, o, s, rl, sk) },
				func() error { return w.twin.CopySource(r, o, s, rl, sk) }, nil)
		case 9, 10:
			var ch []string
			w.request(fmt.Sprintf("pull from %s into %s", o, r), func() error { return w.c.PullRepo(o, r) },
				func() (err error) { ch, err = w.twin.PullRepo(o, r); return }, func() (x [][]string) {
					sort.Strings(ch)
					for _, n := range ch {
						x = append(x, []string{"Delta+Index", r, n})
					}
					return
				})
		case 11, 12:
			s, rl := src(), rel()
			w.request(fmt.Sprintf("remove source from %s %q release %d", r, s, rl), func() error { return w.c.RemoveSource(r, s, rl) },
				func() error { return w.twin.RemoveSource(r, s, rl) }, nil)
		case 13:
			n := []int{-1, 0, 1, 1, 2, 3, 100}[w.rnd.Intn(7)]
			w.request(fmt.Sprintf("trim %s to %d", r, n), func() error { return w.c.TrimPackages(r, n) },
				func() error { return w.twin.TrimPackages(r, n) }, nil)
		case 14:
			if w.rnd.Intn(2) == 0 {
				for _, b := range []string{"a", "b"} {
					d := filepath.Join(w.dir, b, "assets", r)
					if _, err := os.Stat(d); err == nil {
						os.WriteFile(filepath.Join(d, "distribution.xml"), []byte("<PISI><SourceName>s</SourceName><Obsoletes><Package>"+w.files[0][strings.LastIndex(w.files[0], "/")+1:strings.Index(w.files[0], "-1.")]+"</Package></Obsoletes></PISI>"), 0644)
					}
				}
				w.note("distribution metadata of %s makes a package obsolete", r)
			}
			w.request("trim obsoletes "+r, func() error { return w.c.TrimObsolete(r) }, func() error { return w.twin.TrimObsolete(r) }, nil)
		case 15:
			w.request("index "+r, func() error { return w.c.IndexRepo(r) }, func() error { return w.twin.Index(r) }, nil)
		case 16:
			w.request("delta "+r, func() error { return w.c.DeltaRepo(r) }, func() error { _, err := w.twin.GetPackageNames(r); return err },
				func() (x [][]string) {
					ns, _ := w.twin.GetPackageNames(r)
					sort.Strings(ns)
					for _, n := range ns {
						x = append(x, []string{"Delta", r, n})
					}
					return
				})
		}
	}
}

// refusals: what was not stored must not be reported as accepted.
func (w *rworld) refusals() {
	hc := &http.Client{Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", socketPath) }}, Timeout: 20 * time.Second}
	for _, p := range []string{"import/unstable", "clone/unstable", "copy/source/unstable", "pull/unstable", "remove/source/unstable", "trim/packages/unstable"} {
		for _, body := range []string{"", "{", "[1]", `{"path": 3, "maxKeep": "x", "source": 1, "cloneName": 4}`} {
			w.ops++
			w.kinds[p+body] = true
			w.note("POST %s %q", p, body)
			resp, err := hc.Post("http://localhost/api/v1/"+p, "application/json", strings.NewReader(body))
			if err != nil {
				w.fail("no answer: %v", err)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			j, jerr := w.s.store.ClaimSequentialJob()
			if jerr == nil {
				w.s.store.RetireSequentialJob(j)
			}
			// null-ish documents may be read as empty requests; then a job is stored
			if resp.StatusCode >= 400 && jerr == nil {
				w.fail("the request was refused (%d) and a job stored: %s %q", resp.StatusCode, j.Type, j.Params)
			}
			if resp.StatusCode < 400 && jerr != nil {
				w.fail("the request was accepted (%d) and no job stored: %v", resp.StatusCode, jerr)
			}
		}
	}
	// an upload
	up := filepath.Join(w.s.manager.IncomingPath, "up load.tram")
	os.WriteFile(up, []byte("x"), 0644)
	w.note("manifest %s", up)
	w.s.processTransitManifest("up load.tram")
	w.restart()
	w.empty("upload", w.s.store.ClaimAsyncJob)
	j, err := w.s.store.ClaimSequentialJob()
	if err != nil {
		w.fail("upload: no job stored: %v", err)
	}
	if j.Type != jobs.TransitProcess || !reflect.DeepEqual(j.Params, []string{up}) {
		w.fail("upload: the job is %s %q", j.Type, j.Params)
	}
	if _, err = jobs.NewJobHandler(j); err != nil {
		w.fail("upload: no handler: %v", err)
	}
	w.s.store.RetireSequentialJob(j)
	// a store that cannot be written
	w.s.store.Close()
	c := w.c
	for n, f := range map[string]func() error{
		"create": func() error { return c.CreateRepo("q") }, "delete": func() error { return c.DeleteRepo("unstable") },
		"delta": func() error { return c.DeltaRepo("unstable") }, "index": func() error { return c.IndexRepo("unstable") },
		"import": func() error { return c.ImportPackages("unstable", w.files) }, "clone": func() error { return c.CloneRepo("unstable", "q", true) },
		"copy": func() error { return c.CopySource("unstable", "shannon", "nano", -1, false) }, "pull": func() error { return c.PullRepo("unstable", "shannon") },
		"remove": func() error { return c.RemoveSource("unstable", "nano", -1) }, "trim": func() error { return c.TrimPackages("unstable", 1) },
		"obsoletes": func() error { return c.TrimObsolete("unstable") },
	} {
		w.ops++
		w.note("%s with a closed job store", n)
		if err := f(); err == nil {
			w.fail("%s: the job could not be stored and the request was accepted", n)
		}
	}
}

// malformed stored jobs are rejected, those the daemon creates are not.
func verifMalformed(t *testing.T, n int, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	word := func() string {
		return []string{"unstable", "", "full", "tip", "Full", "true", "false", "TRUE?", "1", "-3", "x1", "1x", " 1", "1.5", "99999999999999999999", "maybe", "nano", "/tmp/x.eopkg", "0x10"}[rnd.Intn(19)]
	}
	num := func(s string) bool { _, err := strconv.ParseInt(s, 10, 64); return err == nil }
	boo := func(s string) bool { _, err := strconv.ParseBool(s); return err == nil }
	types := []jobs.JobType{jobs.BulkAdd, jobs.CopySource, jobs.CloneRepo, jobs.CreateRepo, jobs.DeleteRepo, jobs.Delta, jobs.DeltaIndex, jobs.DeltaRepo,
		jobs.IndexRepo, jobs.PullRepo, jobs.RemoveSource, jobs.TransitProcess, jobs.TrimObsolete, jobs.TrimPackages, "", "Nonsense", "bulkadd"}
	bad := 0
	for i := 0; i < n; i++ {
		j := &jobs.JobEntry{Type: types[i%len(types)]}
		for k := rnd.Intn(7); k > 0; k-- {
			j.Params = append(j.Params, word())
		}
		p := j.Params
		mal := true
		switch j.Type {
		case jobs.BulkAdd:
			mal = len(p) < 2
		case jobs.CopySource:
			mal = len(p) != 5 || !num(p[3]) || !boo(p[4])
		case jobs.CloneRepo:
			mal = len(p) != 3 || (p[2] != "full" && p[2] != "tip")
		case jobs.CreateRepo, jobs.DeleteRepo, jobs.DeltaRepo, jobs.IndexRepo, jobs.TransitProcess, jobs.TrimObsolete:
			mal = len(p) != 1
		case jobs.Delta, jobs.DeltaIndex, jobs.PullRepo:
			mal = len(p) != 2
		case jobs.RemoveSource:
			mal = len(p) != 3 || !num(p[2])
		case jobs.TrimPackages:
			mal = len(p) != 2 || !num(p[1])
		}
		var err error
		var h jobs.JobHandler
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
					fmt.Printf("VERIF-FAIL property C16: a stored job %q with parameters %q panics: %v\n", j.Type, p, r)
					t.FailNow()
				}
			}()
			h, err = jobs.NewJobHandler(j)
		}()
		if mal {
			bad++
			if err == nil {
				fmt.Printf("VERIF-FAIL property C16: the malformed job %q with parameters %q is not rejected (%s)\n", j.Type, p, h.Describe())
				t.FailNow()
			}
		}
	}
	fmt.Printf("VERIF-EVALS %d %d stored jobs with random parameters, the malformed ones of which were rejected\n", n, bad)
}

func TestVerifC16(t *testing.T) {
	n, steps := 40, 17
	if os.Getenv("VERIF_TIER") == "thorough" {
		n, steps = 80, 30
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	verifMalformed(t, 1000*n, seed)
	ops, kinds := 0, map[string]bool{}
	for i := 0; i < n; i++ {
		w := newRequests(t, "C16", seed*100000+int64(i))
		w.history(steps)
		if i%4 == 0 {
			w.refusals()
		}
		ops += w.ops
		for k := range w.kinds {
			kinds[k] = true
		}
		if i == 0 {
			for _, l := range w.log[:6] {
				fmt.Println("VERIF-SAMPLE", l)
			}
		}
		w.close()
	}
	fmt.Printf("VERIF-EVALS %d %d requests of the real client to a daemon in a scratch directory in %d histories, each job reloaded and executed and the outcome compared with the operation itself on a twin; distinct by request and arguments\n", ops, len(kinds), n)
}

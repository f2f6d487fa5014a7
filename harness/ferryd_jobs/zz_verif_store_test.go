package jobs

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libferry"
)

// Random histories of the job store over a real database in a scratch directory, compared with a
// plain list model of the queues and the histories.

type sstate struct {
	q    map[string]map[string]JobEntry     // queue -> key -> job
	hist map[string]map[string]libferry.Job // history -> key -> record
	pos  map[string]int                     // history -> last index written, -1 none
}

type mjob struct {
	typ     JobType
	params  []string
	claimed bool
	handle  *JobEntry
}

type sworld struct {
	t    *testing.T
	prop string
	dir  string
	s    *JobStore
	raw  libdb.Database
	rnd  *rand.Rand
	log  []string

	q    map[string][]*mjob
	hist map[string][]libferry.Job // oldest first
	n    int

	failAt int
	inj    bool
	snaps  []sstate
	hooks  bool
	every  int // compare only each so many steps
	nstep  int
}

var errInjected = errors.New("injected failure")

func (w *sworld) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *sworld) fail(prop, f string, a ...interface{}) {
	if prop != w.prop {
		return
	}
	fmt.Printf("VERIF-FAIL property %s: %s\n", prop, fmt.Sprintf(f, a...))
	l := w.log
	if len(l) > 80 {
		fmt.Println("    ... (", len(l)-80, "earlier operations; same seed)")
		l = append([]string{w.log[0]}, l[len(l)-80:]...)
	}
	for _, x := range l {
		fmt.Println("   ", x)
	}
	w.t.FailNow()
}

type sdb struct {
	libdb.Database
	w     *sworld
	batch bool
}

func (d *sdb) Bucket(id []byte) libdb.Database {
	return &sdb{Database: d.Database.Bucket(id), w: d.w, batch: d.batch}
}

func (d *sdb) before() bool {
	w := d.w
	if w.failAt > 0 {
		w.failAt--
		if w.failAt == 0 {
			w.inj = true
			return false
		}
	}
	return true
}

func (d *sdb) after() {
	if d.w.hooks {
		d.w.snaps = append(d.w.snaps, d.w.state())
	}
}

func (d *sdb) PutObject(id []byte, o interface{}) error {
	if d.batch {
		return d.Database.PutObject(id, o)
	}
	if !d.before() {
		return errInjected
	}
	err := d.Database.PutObject(id, o)
	d.after()
	return err
}

func (d *sdb) DeleteObject(id []byte) error {
	if d.batch {
		return d.Database.DeleteObject(id)
	}
	if !d.before() {
		return errInjected
	}
	err := d.Database.DeleteObject(id)
	d.after()
	return err
}

func (d *sdb) Update(f libdb.WriterFunc) error {
	ok := d.before()
	err := d.Database.Update(func(db libdb.Database) error {
		if err := f(&sdb{Database: db, w: d.w, batch: true}); err != nil {
			return err
		}
		if !ok {
			return errInjected
		}
		return nil
	})
	d.after()
	return err
}

var vqueues = map[string][]byte{"async": []byte("Async"), "sync": []byte("Sync")}
var vhists = map[string][]byte{"done": []byte("CompletedSuccess"), "failed": []byte("CompletedFailure")}

func (w *sworld) state() sstate {
	st := sstate{q: map[string]map[string]JobEntry{}, hist: map[string]map[string]libferry.Job{}, pos: map[string]int{}}
	for n, b := range vqueues {
		m := map[string]JobEntry{}
		bk := w.raw.Bucket(b)
		if err := bk.ForEach(func(k, v []byte) error {
			j := JobEntry{}
			if err := bk.Decode(v, &j); err != nil {
				return err
			}
			m[string(k)] = j
			return nil
		}); err != nil {
			w.t.Fatal(err)
		}
		st.q[n] = m
	}
	for n, b := range vhists {
		m := map[string]libferry.Job{}
		bk := w.raw.Bucket(b)
		if err := bk.ForEach(func(k, v []byte) error {
			j := libferry.Job{}
			if err := bk.Decode(v, &j); err != nil {
				return err
			}
			m[string(k)] = j
			return nil
		}); err != nil {
			w.t.Fatal(err)
		}
		st.hist[n] = m
		r := IndexRecord{}
		st.pos[n] = -1
		if err := bk.Bucket(BucketRecord).GetObject(IndexRecordKey, &r); err == nil {
			st.pos[n] = int(r.Index)
		}
	}
	return st
}

func (w *sworld) open() {
	s, err := NewStore(w.dir)
	if err != nil {
		w.fail(w.prop, "the job store does not open: %v", err)
		w.t.Fatal(err)
	}
	w.s, w.raw = s, s.db
	s.db = &sdb{Database: s.db, w: w}
}

func newStoreWorld(t *testing.T, prop string, seed int64) *sworld {
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "s")
	if err != nil {
		t.Fatal(err)
	}
	w := &sworld{t: t, prop: prop, dir: filepath.Join(dir, "base"), rnd: rand.New(rand.NewSource(seed)),
		q: map[string][]*mjob{}, hist: map[string][]libferry.Job{}}
	w.note("seed %d", seed)
	os.MkdirAll(w.dir, 0755)
	w.open()
	return w
}

func (w *sworld) close() {
	w.s.Close()
	os.RemoveAll(filepath.Dir(w.dir))
}

func (w *sworld) newJob(seq bool) *JobEntry {
	w.n++
	r := fmt.Sprintf("repo%d", w.n)
	if w.rnd.Intn(4) == 0 {
		// the same job may well be asked for again
		r = fmt.Sprintf("repo%d", 1+w.rnd.Intn(3))
	}
	if !seq {
		p := []string{"nano", "", r}[w.rnd.Intn(3)]
		if w.rnd.Intn(2) == 0 {
			return NewDeltaIndexJob(r, p)
		}
		return NewDeltaJob(r, p)
	}
	switch w.rnd.Intn(7) {
	case 0:
		return NewCreateRepoJob(r)
	case 1:
		return NewBulkAddJob(r, []string{"a", "", "b c", "a", r})
	case 2:
		return NewTrimPackagesJob(r, w.rnd.Intn(2000)-1000)
	case 3:
		return NewCloneRepoJob(r, "x\x00y", w.rnd.Intn(2) == 0)
	case 4:
		return NewCopySourceJob(r, "t", "nano", w.rnd.Intn(9)-4, w.rnd.Intn(2) == 0)
	case 5:
		return NewRemoveSourceJob(r, "", -1)
	}
	return NewTransitJob(r)
}

func (w *sworld) compare(what string) {
	st := w.state()
	for n, l := range w.q {
		m := st.q[n]
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) != len(l) {
			w.fail("C14", "%s: queue %s holds %d jobs, %d are submitted and not retired", what, n, len(ks), len(l))
			return
		}
		for i, k := range ks {
			j, x := m[k], l[i]
			if j.Type != x.typ || !reflect.DeepEqual(j.Params, x.params) {
				w.fail("C14", "%s: queue %s position %d is %s %q, should be %s %q", what, n, i, j.Type, j.Params, x.typ, x.params)
			}
			if j.Claimed != x.claimed {
				w.fail("C14", "%s: queue %s position %d (%q): claimed is %v, should be %v", what, n, i, j.Params, j.Claimed, x.claimed)
			}
			if x.handle != nil && string(x.handle.id) != k {
				w.fail("C14", "%s: queue %s position %d: the claimed job holds id %x, is stored at %x", what, n, i, x.handle.id, k)
			}
		}
	}
	for n, l := range w.hist {
		var got, want []string
		for _, j := range st.hist[n] {
			got = append(got, vrec(j))
		}
		for _, j := range l {
			want = append(want, vrec(j))
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			w.fail("C15", "%s: history %s holds %d records %.2000s\nshould hold %d: %.2000s", what, n, len(got), strings.Join(got, " | "), len(want), strings.Join(want, " | "))
		}
		// what the public listing says
		var pub []*libferry.Job
		var err error
		if n == "done" {
			pub, err = w.s.CompletedJobs()
		} else {
			pub, err = w.s.FailedJobs()
		}
		got = nil
		for _, j := range pub {
			got = append(got, vrec(*j))
		}
		sort.Strings(got)
		if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			w.fail("C15", "%s: listing of %s has %d records (%v), should have %d", what, n, len(pub), err, len(l))
		}
	}
}

func vrec(j libferry.Job) string {
	return fmt.Sprintf("%q failed=%v %q queued=%v begin=%v end=%v", j.Description, j.Failed, j.Error, j.Timing.Queued.UnixNano(), j.Timing.Begin.UnixNano(), j.Timing.End.UnixNano())
}

// step performs one random operation on the store and on the model.
func (w *sworld) step() {
	n := "sync"
	if w.rnd.Intn(2) == 0 {
		n = "async"
	}
	seq := n == "sync"
	w.failAt, w.inj = 0, false
	if w.rnd.Intn(6) == 0 {
		w.failAt = 1 + w.rnd.Intn(2)
	}
	w.snaps = nil
	w.nstep++
	full := w.every == 0 || w.nstep%w.every == 0
	var pre sstate
	k := w.rnd.Intn(20)
	if full || k >= 18 {
		pre = w.state()
	}
	restart := false
	what := ""
	switch {
	case k < 6:
		j := w.newJob(seq)
		if !seq && w.rnd.Intn(4) == 0 {
			j.Claimed = true // whatever the caller left there
		}
		typ, params := j.Type, append([]string{}, j.Params...)
		var err error
		if w.rnd.Intn(2) == 0 {
			p := &Processor{store: w.s}
			err = p.PushJob(j)
		} else if seq {
			err = w.s.PushSequentialJob(j)
		} else {
			err = w.s.PushAsyncJob(j)
		}
		what = fmt.Sprintf("push %s %s %q: %v", n, typ, params, err)
		w.note("%s", what)
		if err == nil {
			w.q[n] = append(w.q[n], &mjob{typ: typ, params: params})
			if w.inj {
				w.fail("C14", "%s: reported stored, but a write failed", what)
			}
		} else if !w.inj {
			w.fail("C14", "%s: refused for no reason", what)
		}
	case k < 11:
		var j *JobEntry
		var err error
		if seq {
			j, err = w.s.ClaimSequentialJob()
		} else {
			j, err = w.s.ClaimAsyncJob()
		}
		what = fmt.Sprintf("claim %s: %v", n, err)
		var first *mjob
		for _, x := range w.q[n] {
			if !x.claimed {
				first = x
				break
			}
		}
		w.note("%s", what)
		switch {
		case err == nil && first == nil:
			w.fail("C14", "%s: handed out %q though nothing waits", what, j.Params)
		case err == nil:
			if w.inj {
				w.fail("C14", "%s: claimed, but a write failed", what)
			}
			if j.Type != first.typ || !reflect.DeepEqual(j.Params, first.params) {
				w.fail("C14", "%s: handed out %s %q, the earliest waiting is %s %q", what, j.Type, j.Params, first.typ, first.params)
			}
			first.claimed = true
			first.handle = j
		case err == ErrEmptyQueue && first != nil && !w.inj:
			w.fail("C14", "%s: reported empty, but %q waits", what, first.params)
		case err != ErrEmptyQueue && first == nil && !w.inj:
			w.fail("C14", "%s: the queue is empty", what)
		case err == ErrEmptyQueue && first != nil:
			w.fail("C14", "%s: reported empty, but %q waits and a write failed", what, first.params)
		case err != ErrEmptyQueue && !w.inj:
			w.fail("C14", "%s: failed for no reason", what)
		}
	case k < 17:
		var cl []int
		for i, x := range w.q[n] {
			if x.claimed && x.handle != nil {
				cl = append(cl, i)
			}
		}
		if len(cl) == 0 {
			return
		}
		i := cl[w.rnd.Intn(len(cl))]
		x := w.q[n][i]
		j := x.handle
		j.Timing.End = time.Now().UTC()
		j.description = fmt.Sprintf("job %q of %s", j.Params, n)
		j.failure = nil
		h := "done"
		rec := libferry.Job{Description: j.description, Timing: j.Timing}
		switch w.rnd.Intn(4) {
		case 0:
			j.failure = fmt.Errorf("failure %d", w.n)
		case 1:
			if w.rnd.Intn(3) == 0 {
				j.failure = errors.New("") // an error all the same
			}
		}
		if j.failure != nil {
			h = "failed"
			rec.Failed, rec.Error = true, j.failure.Error()
		}
		var err error
		if seq {
			err = w.s.RetireSequentialJob(j)
		} else {
			err = w.s.RetireAsyncJob(j)
		}
		what = fmt.Sprintf("retire %s %q as %s: %v", n, j.Params, h, err)
		w.note("%s", what)
		if err == nil {
			if w.inj {
				w.fail("C15", "%s: reported retired, but a write failed", what)
				w.fail("C14", "%s: reported retired, but a write failed", what)
			}
			w.q[n] = append(append([]*mjob{}, w.q[n][:i]...), w.q[n][i+1:]...)
			w.hist[h] = append(w.hist[h], rec)
			if len(w.hist[h]) > 100 {
				w.hist[h] = w.hist[h][1:]
			}
		} else if !w.inj {
			w.fail("C14", "%s: failed for no reason", what)
			w.fail("C15", "%s: failed for no reason", what)
		}
	case k < 18:
		if w.rnd.Intn(4) > 0 {
			return
		}
		h := "done"
		var err error
		if w.rnd.Intn(2) == 0 {
			err = w.s.ResetCompleted()
		} else {
			h = "failed"
			err = w.s.ResetFailed()
		}
		what = fmt.Sprintf("reset %s: %v", h, err)
		w.note("%s", what)
		if err == nil {
			if w.inj {
				w.fail("C15", "%s: reported done, but a write failed", what)
			}
			w.hist[h] = nil
			if p := w.state().pos[h]; p != -1 {
				w.fail("C15", "%s: numbering continues at %d", what, p)
			}
		} else if !w.inj {
			w.fail("C15", "%s: failed for no reason", what)
		}
	default:
		if w.rnd.Intn(3) > 0 {
			return
		}
		restart = true
		w.failAt = 0
		w.s.Close()
		if w.rnd.Intn(3) == 0 {
			w.open() // twice in a row
			w.s.Close()
		}
		w.open()
		what = "restart"
		w.note("%s", what)
		for _, l := range w.q {
			for _, x := range l {
				x.claimed = false
				x.handle = nil
			}
		}
		// nothing but the claims and the start and end times changes
		now := w.state()
		for n, m := range pre.q {
			for k, j := range m {
				o, ok := now.q[n][k]
				if !ok || !o.Timing.Queued.Equal(j.Timing.Queued) {
					w.fail("C14", "restart: queue %s job %q (%x) is not stored under its key with its time of submission", n, j.Params, k)
				}
			}
		}
		if !reflect.DeepEqual(pre.hist, now.hist) || !reflect.DeepEqual(pre.pos, now.pos) {
			w.fail("C15", "restart changed the histories")
		}
	}
	w.failAt = 0
	if !full {
		return
	}
	if !restart {
		post := w.state()
		for _, s := range w.snaps {
			if !reflect.DeepEqual(s, pre) && !reflect.DeepEqual(s, post) {
				w.fail("C14", "%s: a crash between two writes leaves the store neither as before nor as after", what)
				w.fail("C15", "%s: a crash between two writes leaves the store neither as before nor as after", what)
			}
		}
		if w.inj && !reflect.DeepEqual(pre, post) && !strings.HasPrefix(what, "reset") {
			w.fail("C14", "%s: failed, but changed the store", what)
			w.fail("C15", "%s: failed, but changed the store", what)
		}
	}
	w.compare(what)
}

func verifStore(t *testing.T, prop string) {
	n := 20
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 300
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ops, kinds := 0, map[string]bool{}
	for i := 0; i < n; i++ {
		w := newStoreWorld(t, prop, seed*100000+int64(i))
		long := i%10 == 9 || i%10 == 3
		w.hooks = i%2 == 0
		steps := 60
		if i%10 == 9 {
			steps = 900 // past a full history
		}
		if long {
			w.hooks = false
			w.every = 20
			// a long queue: keys past one byte
			for k := 0; k < 560; k++ {
				j := w.newJob(k%2 == 0)
				q := "async"
				var err error
				if k%2 == 0 {
					q = "sync"
					err = w.s.PushSequentialJob(j)
				} else {
					err = w.s.PushAsyncJob(j)
				}
				if err != nil {
					w.fail("C14", "push: %v", err)
				}
				w.q[q] = append(w.q[q], &mjob{typ: j.Type, params: append([]string{}, j.Params...)})
			}
			w.note("many jobs pushed to both queues")
			w.compare("many jobs")
		}
		for k := 0; k < steps; k++ {
			w.step()
		}
		for _, l := range w.log {
			ops++
			kinds[l] = true
		}
		if i == 0 {
			for k := 0; k < 5 && k < len(w.log); k++ {
				fmt.Println("VERIF-SAMPLE", w.log[k])
			}
		}
		w.close()
	}
	fmt.Printf("VERIF-EVALS %d %d operations in %d random histories of the job store (real database, failing writes, restarts), each compared with a list model; distinct by operation and arguments\n", ops, len(kinds), n)
}

// many goroutines push, claim and retire at once.
func verifStoreConcurrent(t *testing.T, prop string) {
	w := newStoreWorld(t, prop, 1)
	defer w.close()
	const N, G = 60, 6
	var mu sync.Mutex
	claimed := map[string]int{}
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < N; i++ {
				if err := w.s.PushAsyncJob(NewDeltaJob(fmt.Sprintf("r%d-%d", g, i), "x")); err != nil {
					t.Error(err)
				}
			}
		}(g)
	}
	stop := time.Now().Add(60 * time.Second)
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) {
				mu.Lock()
				n := 0
				for _, c := range claimed {
					n += c
				}
				mu.Unlock()
				if n >= N*G {
					return
				}
				j, err := w.s.ClaimAsyncJob()
				if err == ErrEmptyQueue {
					time.Sleep(time.Millisecond)
					mu.Lock()
					n++
					mu.Unlock()
					continue
				}
				if err != nil {
					t.Error(err)
					return
				}
				mu.Lock()
				claimed[j.Params[0]]++
				mu.Unlock()
				if err := w.s.RetireAsyncJob(j); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
	w.note("%d goroutines pushing %d jobs each, %d claiming and retiring", G, N, G)
	for k, c := range claimed {
		if c != 1 {
			w.fail("C14", "job %s was claimed %d times", k, c)
		}
	}
	if len(claimed) != N*G {
		w.fail("C14", "%d jobs pushed at once, %d ever claimed", N*G, len(claimed))
	}
	if st := w.state(); len(st.hist["done"]) != 100 || len(st.q["async"]) != 0 {
		w.fail("C14", "after all jobs were retired %d are queued", len(st.q["async"]))
		w.fail("C15", "after %d retired jobs the history has %d records", N*G, len(st.hist["done"]))
	}
	fmt.Printf("VERIF-EVALS %d %d jobs pushed, claimed and retired by concurrent goroutines\n", N*G, N*G)
}

// the real worker: what it claims is executed, timed and recorded.
func verifWorker(t *testing.T, prop string) {
	w := newStoreWorld(t, prop, 1)
	defer w.close()
	m, err := core.NewManager(w.dir)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	good, bad := NewCreateRepoJob("one"), NewDeltaJob("missing", "x")
	unknown := &JobEntry{sequential: true, Type: "Nonsense", Params: []string{"x"}}
	p := NewProcessor(m, w.s, 2)
	for _, j := range []*JobEntry{good, unknown, bad} {
		if err := p.PushJob(j); err != nil {
			t.Fatal(err)
		}
	}
	p.Begin()
	stop := time.Now().Add(20 * time.Second)
	for time.Now().Before(stop) {
		st := w.state()
		if len(st.hist["done"])+len(st.hist["failed"]) == 3 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	p.Close()
	st := w.state()
	w.note("the daemon's workers given one good job, one of unknown type and one that fails")
	if len(st.hist["done"]) != 1 || len(st.hist["failed"]) != 2 || len(st.q["sync"])+len(st.q["async"]) != 0 {
		w.fail("C14", "%d completed, %d failed, %d still queued", len(st.hist["done"]), len(st.hist["failed"]), len(st.q["sync"])+len(st.q["async"]))
		w.fail("C16", "%d completed, %d failed, %d still queued", len(st.hist["done"]), len(st.hist["failed"]), len(st.q["sync"])+len(st.q["async"]))
		w.fail("C15", "%d completed, %d failed, %d still queued", len(st.hist["done"]), len(st.hist["failed"]), len(st.q["sync"])+len(st.q["async"]))
	}
	all := []libferry.Job{}
	for _, h := range st.hist {
		for _, j := range h {
			all = append(all, j)
		}
	}
	for _, j := range all {
		if j.Timing.Queued.IsZero() || j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) {
			w.fail("C15", "record %q has times queued %v, begin %v, end %v", j.Description, j.Timing.Queued, j.Timing.Begin, j.Timing.End)
		}
		if j.Failed && j.Error == "" {
			w.fail("C15", "record %q failed without error text", j.Description)
		}
	}
	fmt.Printf("VERIF-EVALS 3 3 jobs run by the daemon's real workers\n")
}

func TestVerifC14(t *testing.T) {
	verifStore(t, "C14")
	verifStoreConcurrent(t, "C14")
	verifWorker(t, "C14")
}

func TestVerifC15(t *testing.T) {
	verifStore(t, "C15")
	verifStoreConcurrent(t, "C15")
	verifWorker(t, "C15")
}

func TestVerifC16(t *testing.T) { verifWorker(t, "C16") }

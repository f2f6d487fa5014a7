package core

// Two operations on the daemon's workers at once: one runs, and at its k-th
// access to the database the other one is let in (until it is done, or blocked).
// Every k is tried.

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libdb"
)

type sdb struct {
	libdb.Database
	hit func()
}

func (d *sdb) Bucket(id []byte) libdb.Database { return &sdb{d.Database.Bucket(id), d.hit} }
func (d *sdb) GetObject(id []byte, o interface{}) error {
	d.hit()
	err := d.Database.GetObject(id, o)
	return err
}
func (d *sdb) HasObject(id []byte) (bool, error) { d.hit(); return d.Database.HasObject(id) }
func (d *sdb) PutObject(id []byte, o interface{}) error {
	d.hit()
	return d.Database.PutObject(id, o)
}
func (d *sdb) DeleteObject(id []byte) error { d.hit(); return d.Database.DeleteObject(id) }
func (d *sdb) ForEach(f libdb.DbForeachFunc) error {
	d.hit()
	return d.Database.ForEach(f)
}
func (d *sdb) Update(f libdb.WriterFunc) error { d.hit(); return d.Database.Update(f) }

type sop struct {
	name string
	run  func(w *vworld, db libdb.Database) error
	// what it adds to or removes from a repository
	repo          string
	adds, removes []string
}

func sdelta(repo, id string, from, to int) *sop {
	return &sop{name: "delta " + id + " into " + repo, repo: repo, adds: []string{id}, run: func(w *vworld, db libdb.Database) error {
		r, err := w.m.repo.GetRepo(db, repo)
		if err != nil {
			return err
		}
		// every job has its own archive
		p := w.mkpkg("d"+repo+fmt.Sprint(w.rnd.Int()), id, "nano", "nano", to, "1")
		return r.AddDelta(db, w.m.pool, p.file, &DeltaInformation{FromID: sname(from), ToID: sname(to)})
	}}
}

func sname(rel int) string { return fmt.Sprintf("nano-1-%d-1-x86_64.eopkg", rel) }

func sadd(repo string, rel int) *sop {
	return &sop{name: fmt.Sprintf("release %d into %s", rel, repo), repo: repo, adds: []string{sname(rel)}, run: func(w *vworld, db libdb.Database) error {
		r, err := w.m.repo.GetRepo(db, repo)
		if err != nil {
			return err
		}
		p := w.mkpkg("p", sname(rel), "nano", "nano", rel, "1")
		return r.AddPackage(db, w.m.pool, p.file, false)
	}}
}

func (w *vworld) sched(a, b *sop, k int) bool {
	n := 0
	done := make(chan error, 1)
	started := false
	hit := func() {
		n++
		if n != k {
			return
		}
		started = true
		go func() { done <- b.run(w, w.db) }()
		select {
		case err := <-done:
			done <- err
		case <-time.After(8 * time.Millisecond):
		}
	}
	errA := make(chan error, 1)
	go func() { errA <- a.run(w, &sdb{w.db, hit}) }()
	var ea, eb error
	select {
	case ea = <-errA:
	case <-time.After(20 * time.Second):
		w.fail(w.prop, "%s does not return beside %s", a.name, b.name)
		w.t.Fatal("stuck")
	}
	if !started {
		return false
	}
	select {
	case eb = <-done:
	case <-time.After(20 * time.Second):
		w.fail(w.prop, "%s does not return beside %s", b.name, a.name)
		w.t.Fatal("stuck")
	}
	w.note("%s; at its access %d: %s -> %v, %v", a.name, k, b.name, ea, eb)
	s := w.snap()
	for _, o := range []*sop{a, b} {
		e := ea
		if o == b {
			e = eb
		}
		if e != nil {
			w.fail(w.prop, "%s fails beside the other operation: %v", o.name, e)
		}
		for _, id := range o.adds {
			if !s.lists(o.repo, id) {
				w.fail("C23", "%s succeeded, but %s is not listed in the end", o.name, id)
			}
		}
		for _, id := range o.removes {
			if s.lists(o.repo, id) {
				w.fail("C23", "%s succeeded, but %s is still listed in the end", o.name, id)
			}
		}
	}
	for id := range s.listed() {
		if p, ok := s.pool[id]; !ok || int(p.RefCount) != s.count(id) {
			w.fail("C01", "%s has %d references, and %d repositories list it", id, p.RefCount, s.count(id))
		}
	}
	for id, p := range s.pool {
		if s.count(id) == 0 {
			w.fail("C01", "%s has %d references, and no repository lists it", id, p.RefCount)
		}
	}
	w.wellFormed(s, "in the end")
	return true
}

func verifSchedules(t *testing.T, prop string) int {
	one := &sop{name: "removal of release 1 from A", repo: "A", removes: []string{sname(1), "nano-1-3.delta.eopkg"}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("A").UnrefPackage(db, w.m.pool, sname(1))
	}}
	src := &sop{name: "removal of the source at release 2 from A", repo: "A", removes: []string{sname(2)}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("A").RemoveSource(db, w.m.pool, "nano", 2)
	}}
	trim := &sop{name: "trim of A to one", repo: "A", removes: []string{sname(1), sname(2)}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("A").TrimPackages(db, w.m.pool, 1)
	}}
	pull := &sop{name: "pull from A into B", repo: "B", adds: []string{sname(3)}, run: func(w *vworld, db libdb.Database) error {
		_, err := w.repo("B").PullFrom(db, w.m.pool, w.repo("A"))
		return err
	}}
	cpy := &sop{name: "copy of release 3 from A to B", repo: "B", adds: []string{sname(3)}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("B").CopySourceFrom(db, w.m.pool, w.repo("A"), "nano", 3)
	}}
	ref := &sop{name: "known delta into B", repo: "B", adds: []string{"nano-1-2.delta.eopkg"}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("B").RefDelta(db, w.m.pool, "nano-1-2.delta.eopkg")
	}}
	clone := &sop{name: "clone of A into C", repo: "C", adds: []string{sname(1), sname(2), sname(3)}, run: func(w *vworld, db libdb.Database) error {
		return w.repo("C").CloneFrom(db, w.m.pool, w.repo("A"), true)
	}}
	// the second operation is one of the parallel workers' each time
	d23 := sdelta("A", "nano-2-3.delta.eopkg", 2, 3)
	b23 := sdelta("B", "nano-2-3.delta.eopkg", 2, 3)
	a12 := sdelta("B", "nano-1-2.delta.eopkg", 1, 2)
	pairs := [][2]*sop{
		{sdelta("A", "nano-1-3.delta.eopkg", 1, 3), d23}, {d23, b23}, {sadd("A", 4), d23}, {sadd("B", 3), b23},
		{src, sdelta("A", "nano-1-3.delta.eopkg", 1, 3)}, {one, d23}, {pull, b23}, {cpy, b23}, {ref, a12}, {ref, b23}, {clone, d23}, {clone, b23}, {pull, ref}, {trim, b23}, {sadd("A", 9), ref}, {cpy, ref},
	}
	runs := 0
	for _, p := range pairs {
		for swap := 0; swap < 2; swap++ {
			a, b := p[0], p[1]
			if swap == 1 {
				a, b = b, a
			}
			for k := 1; k < 60; k++ {
				w := newWorld(t, prop, 1, false)
				w.m.db = w.db
				w.names = []string{"A", "B", "C"}
				for _, n := range w.names {
					if _, err := w.m.repo.CreateRepo(w.db, n); err != nil {
						t.Fatal(err)
					}
				}
				for rel := 1; rel <= 3; rel++ {
					if err := sadd("A", rel).run(w, w.db); err != nil {
						t.Fatal(err)
					}
					if rel < 3 {
						if err := sadd("B", rel).run(w, w.db); err != nil {
							t.Fatal(err)
						}
					}
				}
				if err := sdelta("A", "nano-1-2.delta.eopkg", 1, 2).run(w, w.db); err != nil {
					t.Fatal(err)
				}
				more := w.sched(a, b, k)
				w.close()
				if !more {
					break
				}
				runs++
			}
		}
	}
	runs += schedCache(t, prop)
	fmt.Println("VERIF-SAMPLE", pairs[0][0].name, "beside", pairs[0][1].name)
	return runs
}

// schedCache: two workers ask for a repository nobody has asked for yet.
func schedCache(t *testing.T, prop string) int {
	runs := 0
	for k := 1; k < 20; k++ {
		w := newWorld(t, prop, 1, false)
		w.m.db = w.db
		w.names = []string{"A"}
		if _, err := w.m.repo.CreateRepo(w.db, "A"); err != nil {
			t.Fatal(err)
		}
		base := filepath.Join(w.dir, "base")
		w.m.Close()
		m, err := NewManager(base)
		if err != nil {
			t.Fatal(err)
		}
		w.m, w.db = m, m.db
		var ra, rb *Repository
		n := 0
		done := make(chan bool, 1)
		hit := func() {
			n++
			if n == k {
				go func() { rb, _ = m.repo.GetRepo(w.db, "A"); done <- true }()
				select {
				case <-done:
					done <- true
				case <-time.After(8 * time.Millisecond):
				}
			}
		}
		ra, _ = m.repo.GetRepo(&sdb{w.db, hit}, "A")
		if n < k {
			w.close()
			break
		}
		<-done
		if ra == nil || rb == nil || ra.insertMut != rb.insertMut {
			w.fail("C23", "two workers hold different locks for repository A")
		}
		runs++
		w.close()
	}
	return runs
}

var _ = os.Getenv

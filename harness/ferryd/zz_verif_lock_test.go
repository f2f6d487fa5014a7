package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Bounded replay for C21: every earlier content of the lock file, random
// sequences of several would-be owners, and owners racing each other. Every
// LockFile has an open file of its own, which to the kernel is another owner.

func TestVerifC21(t *testing.T) {
	if os.Getenv("VERIF_LOCK_CHILD") != "" {
		// as another user: may not signal the owner
		l, err := NewLockFile(os.Getenv("VERIF_LOCK_CHILD"))
		if err == nil {
			err = l.Lock()
		}
		fmt.Println("CHILD", err == nil)
		return
	}
	dir, err := os.MkdirTemp("", "lock")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	var trace []string
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL property C21: %s\n", fmt.Sprintf(f, a...))
		for _, x := range trace {
			fmt.Println("   ", x)
		}
		t.FailNow()
	}
	// live processes of our own
	var live []int
	var kids []*exec.Cmd
	defer func() {
		for _, k := range kids {
			k.Process.Kill()
			k.Wait()
		}
	}()
	for i := 0; i < 3; i++ {
		c := exec.Command("sleep", "600")
		if err := c.Start(); err != nil {
			t.Fatal(err)
		}
		kids = append(kids, c)
		live = append(live, c.Process.Pid)
	}
	// and a dead one
	c := exec.Command("true")
	if err := c.Run(); err != nil {
		t.Fatal(err)
	}
	dead := c.Process.Pid
	self := os.Getpid()
	me := strconv.Itoa(self)
	evals, distinct := 0, map[string]bool{}
	n := 0
	// held says whether somebody holds the kernel's lock on what is at path
	held := func(p string) bool {
		f, err := os.Open(p)
		if err != nil {
			return false
		}
		defer f.Close()
		return syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil
	}
	// what is in the file before
	type before struct {
		what, text string
		owned      int // live process recorded
		free       bool
	}
	var bs []before
	for _, x := range []string{"", "\n", "garbage", "-1", "-77", "0", strings.Repeat("9", 40), "pid " + strconv.Itoa(live[0]), "\x00\x00", " ", "+", strconv.Itoa(dead), strconv.Itoa(dead) + "\n", strconv.Itoa(dead) + strings.Repeat(" ", 30), strconv.Itoa(dead) + "\nmore\nlines\n", me, me + "\n", me + " and a tail", strings.Repeat("x", 5000)} {
		bs = append(bs, before{what: fmt.Sprintf("%.20q", x), text: x, free: true})
	}
	for _, p := range live {
		for _, x := range []string{"", "\n", " tail", "\n123\n"} {
			bs = append(bs, before{what: "live" + fmt.Sprintf("%q", x), text: strconv.Itoa(p) + x, owned: p})
		}
	}
	for _, b := range bs {
		for _, flocked := range []bool{false, true} {
			for _, sub := range []string{"", "a/b"} {
				n++
				p := filepath.Join(dir, strconv.Itoa(n), sub, "l")
				if b.text != "" || flocked {
					os.MkdirAll(filepath.Dir(p), 0755)
					if err := os.WriteFile(p, []byte(b.text), 0644); err != nil {
						t.Fatal(err)
					}
				} else if sub == "" {
					os.MkdirAll(filepath.Dir(p), 0755)
				}
				var other *os.File
				if flocked {
					other, err = os.Open(p)
					if err != nil {
						t.Fatal(err)
					}
					if err := syscall.Flock(int(other.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
						t.Fatal(err)
					}
				}
				trace = []string{fmt.Sprintf("lock file holding %q (process %d is us, %v run, %d does not), locked by somebody: %v", b.text, self, live, dead, flocked)}
				evals++
				distinct[fmt.Sprint(b.what, flocked, sub)] = true
				l, err := NewLockFile(p)
				if err != nil {
					fail("the lock file could not be opened: %v", err)
				}
				if got, _ := os.ReadFile(p); string(got) != b.text {
					fail("opening the lock file changed it to %q", got)
				}
				err = l.Lock()
				got, e := os.ReadFile(p)
				want := b.free && !flocked
				switch {
				case err == nil && !want:
					fail("the lock was granted")
				case err != nil && want:
					fail("the lock was refused: %v", err)
				case err == nil && (e != nil || string(got) != me):
					fail("after locking, the file holds %q and not our process %s", got, me)
				case err == nil && !held(p):
					fail("after locking, nothing keeps others out")
				case err != nil && string(got) != b.text:
					fail("a refused lock changed the recorded owner to %q", got)
				}
				if err != nil {
					if l.Unlock() == nil {
						fail("somebody who does not own the lock could unlock it")
					}
					l.Clean()
					if got, e := os.ReadFile(p); e != nil || string(got) != b.text {
						fail("cleaning up without owning the lock removed or changed the file: %q %v", got, e)
					}
					if flocked && !held(p) {
						fail("somebody else's lock was released")
					}
				} else {
					// the next one is refused while we are there, and welcome after
					l2, err := NewLockFile(p)
					if err != nil {
						fail("the lock file could not be opened again: %v", err)
					}
					if l2.Lock() == nil {
						fail("the lock was granted twice")
					}
					if got, _ := os.ReadFile(p); string(got) != me {
						fail("a refused lock changed the recorded owner to %q", got)
					}
					l2.Clean()
					if n%2 == 0 {
						if err := l.Unlock(); err != nil {
							fail("unlocking failed: %v", err)
						}
						if l3, err := NewLockFile(p); err != nil || l3.Lock() != nil {
							fail("not to be locked after unlocking")
						} else {
							l.Clean()
							if got, e := os.ReadFile(p); e != nil || string(got) != me || !held(p) {
								fail("the previous owner removed the new owner's lock file")
							}
							l3.Clean()
						}
					} else if err := l.Clean(); err != nil {
						fail("cleaning up failed: %v", err)
					} else if _, e := os.Stat(p); e == nil {
						fail("the lock file is still there after cleaning up")
					}
				}
				if other != nil {
					other.Close()
				}
			}
		}
	}
	// another user's process is alive too
	if os.Getuid() == 0 {
		p := filepath.Join(dir, "u")
		os.Chmod(dir, 0777)
		if d := filepath.Dir(dir); d != "/" {
			os.Chmod(d, 0755)
		}
		os.WriteFile(p, []byte(me), 0666)
		os.Chmod(p, 0666)
		exe := filepath.Join(dir, "exe")
		if b, err := os.ReadFile("/proc/self/exe"); err == nil && os.WriteFile(exe, b, 0755) == nil {
			k := exec.Command(exe, "-test.run", "TestVerifC21$", "-test.v")
			k.Env = append(os.Environ(), "VERIF_LOCK_CHILD="+p, "TMPDIR="+dir)
			k.Dir = dir
			k.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
			out, err := k.CombinedOutput()
			if err == nil && strings.Contains(string(out), "CHILD ") {
				evals++
				distinct["other user"] = true
				trace = []string{"an unprivileged process takes a lock file that names our live process, which runs as root"}
				if strings.Contains(string(out), "CHILD true") {
					fail("the lock was granted")
				}
				if got, _ := os.ReadFile(p); string(got) != me {
					fail("a refused lock changed the recorded owner to %q", got)
				}
			}
		}
	}
	// random sequences of several processes
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rounds := 300
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 3000
	}
	for r := 0; r < rounds; r++ {
		rnd := rand.New(rand.NewSource(seed*1000 + int64(r)))
		p := filepath.Join(dir, fmt.Sprintf("s%d", r))
		trace = nil
		pids := append([]int{self}, live...)
		type proc struct {
			l      *LockFile
			pid    int
			holds  bool
			closed bool
		}
		procs := make([]*proc, 4)
		holder := -1
		read := func() string { b, _ := os.ReadFile(p); return string(b) }
		for i := 0; i < 14; i++ {
			k := rnd.Intn(4)
			q := procs[k]
			if q == nil || q.closed && rnd.Intn(2) == 0 {
				l, err := NewLockFile(p)
				if err != nil {
					t.Fatal(err)
				}
				l.ourPID = pids[k]
				if q != nil && q.holds {
					continue
				}
				procs[k] = &proc{l: l, pid: pids[k]}
				trace = append(trace, fmt.Sprintf("process %d opens the lock file", k))
				continue
			}
			was, there := read(), held(p)
			_, e0 := os.Stat(p)
			evals++
			switch op := []string{"lock", "lock", "unlock", "clean"}[rnd.Intn(4)]; op {
			case "lock":
				if q.closed {
					continue
				}
				err := q.l.Lock()
				trace = append(trace, fmt.Sprintf("process %d locks: %v", k, err))
				if err == nil {
					if holder >= 0 && holder != k {
						fail("granted to %d while %d has it", k, holder)
					}
					if read() != strconv.Itoa(q.pid) || !held(p) {
						fail("the file holds %q, not the new owner's %d, or nothing keeps others out", read(), q.pid)
					}
					// a live process recorded in it
					for _, x := range pids {
						if was == strconv.Itoa(x) && x != q.pid {
							fail("granted although the live process %d was recorded", x)
						}
					}
					holder, q.holds = k, true
				} else {
					if q.holds && e0 == nil && k == holder {
						fail("the owner cannot lock again")
					}
					if read() != was {
						fail("a refused lock changed the file from %q to %q", was, read())
					}
					if held(p) != there {
						fail("a refused lock changed who holds it")
					}
				}
			case "unlock":
				if q.closed {
					continue
				}
				err := q.l.Unlock()
				trace = append(trace, fmt.Sprintf("process %d unlocks: %v", k, err))
				if k == holder {
					if err != nil {
						fail("the owner could not unlock: %v", err)
					}
					if held(p) {
						fail("still locked")
					}
					holder, q.holds = -1, false
				} else {
					if err == nil {
						fail("%d unlocked without owning", k)
					}
					if held(p) != there {
						fail("the owner's lock went")
					}
				}
				if read() != was {
					fail("unlocking changed the recorded owner")
				}
			case "clean":
				err := q.l.Clean()
				trace = append(trace, fmt.Sprintf("process %d cleans up: %v", k, err))
				_, e1 := os.Stat(p)
				if k == holder {
					if e1 == nil {
						fail("the owner's lock file is still there")
					}
					holder, q.holds, q.closed = -1, false, true
				} else {
					if (e0 == nil) != (e1 == nil) || read() != was || held(p) != there {
						fail("%d removed or changed the lock file without owning it", k)
					}
				}
			}
			distinct[strings.Join(trace, ";")] = true
		}
		for _, q := range procs {
			if q != nil && !q.closed {
				q.l.fd.Close()
			}
		}
		if r == 0 {
			for _, x := range trace[:3] {
				fmt.Println("VERIF-SAMPLE", x)
			}
		}
		os.Remove(p)
	}
	// owners racing each other
	p := filepath.Join(dir, "race")
	trace = []string{"eight owners racing for one lock file, unlocking or cleaning up when done"}
	var in int32
	var bad atomic.Value
	var wg sync.WaitGroup
	var wins int32
	stop := time.Now().Add(2 * time.Second)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; time.Now().Before(stop); i++ {
				l, err := NewLockFile(p)
				if err != nil {
					continue
				}
				if l.Lock() != nil {
					l.fd.Close()
					continue
				}
				atomic.AddInt32(&wins, 1)
				if atomic.AddInt32(&in, 1) != 1 {
					bad.Store("two owners at once")
				}
				if b, _ := os.ReadFile(p); string(b) != me {
					bad.Store(fmt.Sprintf("the owner's file holds %q", b))
				}
				atomic.AddInt32(&in, -1)
				if (i+g)%3 == 0 {
					l.Unlock()
					l.fd.Close()
				} else {
					l.Clean()
				}
			}
		}(g)
	}
	wg.Wait()
	evals += int(wins)
	if x := bad.Load(); x != nil {
		fail("%v", x)
	}
	fmt.Printf("VERIF-EVALS %d %d lock attempts over earlier contents, sequences of four processes and racing owners, each compared with the property; distinct by content or by sequence\n", evals, len(distinct))
}

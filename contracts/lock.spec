// The daemon's lock file (src/ferryd/lockfile.go).

ghost flocked: map[Int]Bool   // the inodes we hold the kernel's exclusive lock on

func alive(Int) Bool          // a process with that number runs
func scansnum(Str) Bool       // the text starts with a decimal number
func scannum(Str) Int

// the process a lock file names
def names(d: Str, n: Int) = scansnum(d) && scannum(d) == n && n > 0
def holds_(l: Int) = l.owner ==> flocked[fileino(l.fd)]

// the daemon starts only with the lock
contract "ferryd.NewServer"()(res, err) {
  modifies fino, fdata, fdir, flocked
  ensures lock: ok(err) ==> res.lockFile.owner && flocked[fileino(res.lockFile.fd)] && content(res.lockFile.path) == itoa(getpid)
}
contract "ferryd.NewLockFile"(path)(res, err) {
  modifies fino[path], fdata, fdir
  ensures opened: ok(err) ==> fino[path] == Some(fileino(res.fd)) && res.path == path && !res.owner && res.ourPID == getpid
  ensures kept: some(old(fino[path])) ==> fino[path] == old(fino[path]) && fdata == old(fdata)
}
contract "ferryd.(*LockFile).Lock"(l)(err) {
  requires holds_(l)
  modifies l, fdata, flocked
  ensures locked: ok(err) ==> l.owner && flocked[fileino(l.fd)] && fino[l.path] == Some(fileino(l.fd))
  ensures free: ok(err) ==> (forall n: Int {alive(n)} :: names(old(content(l.path)), n) && alive(n) ==> n == l.ourPID)
  ensures ours: ok(err) ==> content(l.path) == itoa(l.ourPID)
  ensures kept: !ok(err) && !flocked[fileino(l.fd)] ==> fdata == old(fdata)
  ensures own: holds_(l)
  ensures same: l.path == old(l.path) && l.ourPID == old(l.ourPID) && fileino(l.fd) == old(fileino(l.fd))
  always held: fdata != old(fdata) ==> flocked[fileino(l.fd)]
}
contract "ferryd.(*LockFile).Unlock"(l)(err) {
  requires holds_(l)
  modifies l, flocked
  ensures owner: ok(err) ==> old(l.owner)
  ensures done: ok(err) ==> !l.owner && !flocked[fileino(l.fd)]
  ensures kept: !ok(err) ==> flocked == old(flocked)
  ensures own: holds_(l)
}
contract "ferryd.(*LockFile).Clean"(l)(err) {
  requires holds_(l)
  modifies l, flocked, fino, fdir
  ensures owner: !old(l.owner) ==> fino == old(fino) && fdir == old(fdir) && flocked == old(flocked)
  ensures other: forall q: Str {fino[q]} {fdir[q]} :: q != l.path ==> fino[q] == old(fino[q]) && fdir[q] == old(fdir[q])
  ensures own: holds_(l)
  ensures last: !l.owner
  always held: fino != old(fino) ==> flocked[fileino(l.fd)]
}

// Requests of the administrative interface (src/ferryd/handlers.go), through the job store, to the
// operations of the manager. The lemma functions of contracts/lemmas compose the real functions.

func urlparam(Str) Str
func isnum(Str) Bool
func atoi(Str) Int
func isbool(Str) Bool
func atob(Str) Bool
axiom num_itoa: forall n: Int {itoa(n)} :: isnum(itoa(n)) && atoi(itoa(n)) == n
axiom bool_true: isbool("true") && atob("true")
axiom bool_false: isbool("false") && !atob("false")

contract "core.(*Manager).Index"(m, repoID)(err) {
  only [C16]
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires mgr(m)
  modifies fino, fdata, fdir, m.repo.repos
}
contract "core.(*Manager).GetPackageNames"(m, repoID)(names, err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires mgr(m)
  requires INV
  modifies fdir, m.repo.repos
  candidate forall x: Str {x in $S} {x in pre($L, $I)} :: (x in $S) == (x in pre($L, $I))
  ensures all: ok(err) ==> (forall n: Str {pkgs[repoID][n]} {n in names} :: (n in names) == some(pkgs[repoID][n]))
}

// the queue holds nothing but what the request puts there
def IDLE = wfQueue(async) && wfQueue(sync) && noneWaiting(sync) && noneWaiting(async)
def READY(m: Int) = INV && COVER && mgr(m)
// the job was not stored, and the client is told so
def refused = calls() == 1 && (called(0, "http.Error", _) || called(0, "http.WriteHeader", _))
// the worker could not fetch the job: it stays stored
def unfetched = calls() == 0
def performed(err: Err) = calls() == 1 && (ok(err) == ok(callerr(0))) && err == callerr(0)

contract "ferryd.(*Server).verifCreateRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, repos, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).CreateRepo", _, urlparam("id")) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifDeleteRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, repos, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).DeleteRepo", _, urlparam("id")) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifIndexRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).Index", _, urlparam("id")) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifTrimObsolete"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).TrimObsolete", _, urlparam("id")) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifImportPackages"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  requires len(jsonreq(libferry.ImportRequest).Path) >= 1
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).AddPackages", _, urlparam("id"), jsonreq(libferry.ImportRequest).Path, false) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifCloneRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, repos, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).CloneRepo", _, urlparam("id"), jsonreq(libferry.CloneRepoRequest).CloneName, jsonreq(libferry.CloneRepoRequest).CopyAll) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifPullRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).PullRepo", _, jsonreq(libferry.PullRepoRequest).Source, urlparam("id")) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifRemoveSource"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).RemoveSource", _, urlparam("id"), jsonreq(libferry.RemoveSourceRequest).Source, jsonreq(libferry.RemoveSourceRequest).Release) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifCopySource"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).CopySource", _, urlparam("id"), jsonreq(libferry.CopySourceRequest).Target, jsonreq(libferry.CopySourceRequest).Source, jsonreq(libferry.CopySourceRequest).Release, jsonreq(libferry.CopySourceRequest).SkipIndex) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
contract "ferryd.(*Server).verifTrimPackages"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, fino, fdata, fdir, pool, pkgs, s.jproc.manager.repo.repos
  ensures does: refused || unfetched || (called(0, "core.(*Manager).TrimPackages", _, urlparam("id"), jsonreq(libferry.TrimPackagesRequest).MaxKeep) && performed(err))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}
def deltaJob(x: opt jobs.JobEntry, r: Str, n: Str) = waiting(x) && x.Type == "Delta" && x.Params == seq(r, n)
contract "ferryd.(*Server).verifDeltaRepo"(s, w, r, p)(err) {
  decide
  alloc jobs.Processor, jobs.JobStore, core.Manager, core.RepositoryManager, core.Pool
  requires IDLE && READY(s.jproc.manager)
  modifies sync, async, fdir, s.jproc.manager.repo.repos
  candidate wfQueue(async)
  candidate forall x: Str {x in pre($L, $I)} :: x in pre($L, $I) ==> (exists k: Str :: deltaJob(async[k], urlparam("id"), x))
  candidate forall k: Str {async[k]} :: some(async[k]) ==> async[k] == old(async[k]) || (waiting(async[k]) && async[k].Type == "Delta" && (exists x: Str :: some(pkgs[urlparam("id")][x]) && async[k].Params == seq(urlparam("id"), x)))
  ensures does: refused || unfetched || (calls() == 1 && called(0, "core.(*Manager).GetPackageNames", _, urlparam("id")) && (!ok(callerr(0)) ==> !ok(err)))
  ensures every: ok(err) ==> (forall n: Str {pkgs[urlparam("id")][n]} :: some(pkgs[urlparam("id")][n]) ==> (exists k: Str :: deltaJob(async[k], urlparam("id"), n)))
  ensures only: forall k: Str {async[k]} :: some(async[k]) ==> async[k] == old(async[k]) || (exists x: Str :: some(pkgs[urlparam("id")][x]) && deltaJob(async[k], urlparam("id"), x))
  ensures told: unfetched ==> !ok(err) && err != gerr("jobs.ErrEmptyQueue")
}

// ---- malformed jobs ---------------------------------------------------------------------
def oneParam(t: Str) = t == "CreateRepo" || t == "DeleteRepo" || t == "DeltaRepo" || t == "IndexRepo" || t == "TransitProcess" || t == "TrimObsolete"
def twoParams(t: Str) = t == "Delta" || t == "Delta+Index" || t == "PullRepo" || t == "TrimPackages"
def malformed(t: Str, p: []Str) =
  if oneParam(t) then len(p) != 1
  else if twoParams(t) then len(p) != 2 || (t == "TrimPackages" && !isnum(p[1]))
  else if t == "BulkAdd" then len(p) < 2
  else if t == "CloneRepo" then len(p) != 3 || (p[2] != "full" && p[2] != "tip")
  else if t == "RemoveSource" then len(p) != 3 || !isnum(p[2])
  else if t == "CopySource" then len(p) != 5 || !isnum(p[3]) || !isbool(p[4])
  else true
contract "jobs.(*Worker).VerifProcess"(w, job)(err) {
  decide
  alloc core.Manager, core.RepositoryManager, core.Pool, jobs.Processor, jobs.JobStore
  requires malformed(job.Type, job.Params)
  requires len(job.id) == 8
  modifies job.failure, job.description
  ensures rejected: !ok(err) && calls() == 0
}

// Delta jobs (src/ferryd/jobs/delta.go, src/libeopkg/util.go).

// names of deltas for which the producer has said that producing them is pointless
ghost [C13] pointless: map[Str]opt Int

def deltaName(n: Str, a: Int, b: Int, d: Str, h: Str) = n + "-" + itoa(a) + "-" + itoa(b) + "-" + d + "-" + h + ".delta.eopkg"
contract "libeopkg.ComputeDeltaName"(old, new)(res) {
  only [C13]
  noerr
  requires len(old.History) >= 1 && len(new.History) >= 1
  ensures named: res == deltaName(new.Name, old.History[0].Release, new.History[0].Release, new.DistributionRelease, new.Architecture)
}
contract "libeopkg.IsDeltaPossible"(old, new)(res) {
  only [C13]
  noerr
  requires len(old.History) >= 1 && len(new.History) >= 1
  ensures exactly: res == (old.Name == new.Name && old.DistributionRelease == new.DistributionRelease && old.Architecture == new.Architecture && old.History[0].Release < new.History[0].Release)
}
// the delta that leads from the package a to the package b
def dname(a: Str, b: Str) = deltaName(nm(pool[b]), rel(pool[a]), rel(pool[b]), pool[b].Meta.DistributionRelease, pool[b].Meta.Architecture)
// a and b are different available versions of one name, and b is one with the highest release
def candidates(P: map[Str]opt core.RepoEntry, n: Str, a: Str, b: Str) = av(P, n, a) && av(P, n, b) && a != b
  && (forall y: Str {y in P[n].Available} :: y in P[n].Available ==> rel(pool[y]) <= rel(pool[b]))
def wanted(P: map[Str]opt core.RepoEntry, a: Str, b: Str) = candidates(P, nm(pool[b]), a, b) && !some(deltaSkip[dname(a, b)]) && !(dname(a, b) in P[nm(pool[b])].Deltas)

contract "core.(*Repository).GetPackages"(r, db, pl, name)(res, err) {
  only [C13]
  requires INV
  candidate dist($S)
  candidate forall m: opt libeopkg.MetaPackage {m in $S} :: m in $S ==> some(m) && pathbase(m.PackageURI) in pre($L, $I) && m == pool[pathbase(m.PackageURI)].Meta
  candidate forall x: Str {x in pre($L, $I)} :: x in pre($L, $I) ==> pool[x].Meta in $S
  ensures dist: ok(err) ==> dist(res)
  ensures from: ok(err) ==> (forall m: opt libeopkg.MetaPackage {m in res} :: m in res ==> some(m) && av(pkgs[r.ID], name, pathbase(m.PackageURI)) && m == pool[pathbase(m.PackageURI)].Meta)
  ensures all: ok(err) ==> (forall x: Str {x in pkgs[r.ID][name].Available} :: x in pkgs[r.ID][name].Available ==> pool[x].Meta in res)
}
contract "core.(*Repository).HasDelta"(r, db, name, id)(res, err) {
  only [C13]
  requires INV
  candidate !(id in pre($L, $I))
  ensures exactly: ok(err) ==> res == (some(pkgs[r.ID][name]) && id in pkgs[r.ID][name].Deltas)
}

// ---- making one --------------------------------------------------------------------
func pair(Str, Str) Str
axiom [C13] base_join2: forall a: Str, b: Str {pathjoin(a, b)} :: clean(pathbase(b)) ==> pathbase(pathjoin(a, b)) == pathbase(b)
contract "libeopkg.(*Package).ReadAll"(p)(err) {
  only [C13,C20]
  verifiedin [C20]
  alloc libeopkg.Metadata, libeopkg.Files, libeopkg.File
  requires [C20] archive(p)
  unset [C20] p.Meta, p.Files
  modifies p.Meta, p.Files
  ensures ok(err) ==> p.Meta != nil && p.Files != nil && len(p.Meta.Package.History) >= 1
  ensures [C20] accepted: ok(err) ==> accepted(p.Meta)
  ensures err != gerr("libeopkg.ErrDeltaPointless")
}
contract "libeopkg.NewDeltaProducer"(base, oldPath, newPath)(d, err) {
  only [C13]
  alloc libeopkg.DeltaProducer, libeopkg.Package, libeopkg.Metadata, libeopkg.Files
  modifies fdir, fino
  ensures of: ok(err) ==> d.old != nil && d.new != nil && d.old.Path == oldPath && d.new.Path == newPath && d.old.Meta != nil && d.new.Meta != nil
  ensures possible: ok(err) ==> d.old.Meta.Package.Name == d.new.Meta.Package.Name && d.old.Meta.Package.DistributionRelease == d.new.Meta.Package.DistributionRelease && d.old.Meta.Package.Architecture == d.new.Meta.Package.Architecture
    && d.old.Meta.Package.History[0].Release < d.new.Meta.Package.History[0].Release
  ensures err != gerr("libeopkg.ErrDeltaPointless")
}
contract "libeopkg.(*DeltaProducer).Commit"(d)(path, err) {
  only [C13]
  trusted "writes the delta archive (tar, zip and xz); says when there is no point in it"
  modifies pointless, fino, fdata
  ensures said: err == gerr("libeopkg.ErrDeltaPointless") ==> some(pointless[pair(pathbase(d.old.Path), pathbase(d.new.Path))])
}
// the name of a delta is one path component: package names, releases of the distribution and architectures are
axiom [C13] clean_delta: forall n: Str, a: Int, b: Int, d: Str, h: Str {deltaName(n, a, b, d, h)} :: clean(deltaName(n, a, b, d, h))
contract "core.(*Manager).CreateDelta"(m, repoID, old, new)(path, err) {
  only [C13]
  alloc core.RepositoryManager, core.Repository, libeopkg.DeltaProducer, libeopkg.Package, libeopkg.Metadata, libeopkg.Files
  requires INV && mgr(m)
  // only ever from an available version to one with the highest release, and only when it is not known already
  requires wanted(pkgs[repoID], pathbase(old.PackageURI), pathbase(new.PackageURI))
  requires old == val(pool[pathbase(old.PackageURI)].Meta) && new == val(pool[pathbase(new.PackageURI)].Meta)
  modifies pointless, fino, fdata, fdir, m.repo.repos
  ensures mgr: mgr(m)
  ensures path: ok(err) ==> pathbase(path) == dname(pathbase(old.PackageURI), pathbase(new.PackageURI))
  ensures newer: ok(err) ==> rel(pool[pathbase(old.PackageURI)]) < rel(pool[pathbase(new.PackageURI)])
  ensures pointless: err == gerr("libeopkg.ErrDeltaPointless") ==> some(pointless[pair(pathbase(old.PackageURI), pathbase(new.PackageURI))])
}
def isDelta(P: map[Str]opt core.RepoEntry, id: Str) = exists a: Str, b: Str {a in P[nm(pool[b])].Available, b in P[nm(pool[b])].Available} :: wanted(P, a, b) && id == dname(a, b)
contract "core.(*Manager).MarkDeltaFailed"(m, id, delta)(err) {
  only [C13]
  requires INV
  requires exists a: Str, b: Str {pair(a, b)} :: some(pointless[pair(a, b)]) && id == dname(a, b) && some(pool[a]) && some(pool[b])
    && delta.FromID == a && delta.ToID == b && delta.FromRelease == rel(pool[a]) && delta.ToRelease == rel(pool[b])
  modifies deltaSkip[id]
  ensures marked: ok(err) ==> some(deltaSkip[id])
  ensures kept: some(old(deltaSkip[id])) ==> deltaSkip[id] == old(deltaSkip[id])
  ensures recorded: ok(err) && !some(old(deltaSkip[id])) ==> deltaSkip[id].Name == id && deltaSkip[id].Delta == val(delta)
}
contract "jobs.(*DeltaJobHandler).executeInternal"(j, manager)(err) {
  only [C13]
  alloc core.RepositoryManager, core.Pool, core.Repository, libeopkg.DeltaProducer, libeopkg.Package, libeopkg.Metadata, libeopkg.Files
  requires INV && COVER && mgr(manager)
  modifies j.nDeltas, pool, pkgs, deltaSkip, pointless, fino, fdata, fdir, manager.repo.repos
  candidate INV && COVER && mgr(manager)
  candidate forall n: Str {pkgs[j.repoID][n].Available} :: pkgs[j.repoID][n].Available == lold(pkgs[j.repoID][n].Available)
  candidate forall n: Str {pkgs[j.repoID][n]} :: some(pkgs[j.repoID][n]) == some(lold(pkgs[j.repoID][n]))
  candidate forall n: Str, x: Str {x in pkgs[j.repoID][n].Available} :: av(pkgs[j.repoID], n, x) ==> pool[x].Meta == lold(pool[x].Meta)
}

// ---- names --------------------------------------------------------------------------
// numbers hold no dash: with the same text after them, the last two can be told apart from what goes before
axiom [C13] two_nums: forall x: Str, y: Str, a: Int, b: Int, c: Int, d: Int, t: Str {x + "-" + itoa(a) + "-" + itoa(b) + "-" + t, y + "-" + itoa(c) + "-" + itoa(d) + "-" + t} ::
  a >= 0 && b >= 0 && c >= 0 && d >= 0 && x + "-" + itoa(a) + "-" + itoa(b) + "-" + t == y + "-" + itoa(c) + "-" + itoa(d) + "-" + t ==> x == y && a == c && b == d
contract "libeopkg.verifDeltaNames"(o1, n1, o2, n2)(a, b) {
  only [C13]
  requires len(o1.History) >= 1 && len(n1.History) >= 1 && len(o2.History) >= 1 && len(n2.History) >= 1
  requires o1.History[0].Release >= 0 && n1.History[0].Release >= 0 && o2.History[0].Release >= 0 && n2.History[0].Release >= 0
  ensures determined: a == b && n1.DistributionRelease == n2.DistributionRelease && n1.Architecture == n2.Architecture ==>
    n1.Name == n2.Name && o1.History[0].Release == o2.History[0].Release && n1.History[0].Release == n2.History[0].Release
}

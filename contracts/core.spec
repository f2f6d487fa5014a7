// Contracts for the package repository core (src/ferryd/core).

// ---- ghost state -----------------------------------------------------------
// the database buckets
shape pool "core:pool" core.PoolEntry
shape deltaSkip "core:deltaSkip" core.DeltaSkipEntry
shape repos "core:repo" core.Repository
shape pkgs "core:repo/*/package" core.RepoEntry
// the file system: which inode a path names, what an inode holds, what is a directory
ghost fino: map[Str]opt Int
ghost fdata: map[Int]Str
ghost fdir: map[Str]Bool

// ---- theory ----------------------------------------------------------------
func pathbase(Str) Str
func pathdir(Str) Str
func under(Str, Str) Bool
func sha1(Str) Str
func sha256(Str) Str
func hex(Str) Str
func pathjoin(Str, Str) Str
func clean(Str) Bool
func norm(Str) Str
func root3(Str) Str
func pcomp(Str) Str
axiom base_join: forall a: Str, b: Str {pathjoin(a, b)} :: clean(b) ==> pathbase(pathjoin(a, b)) == b
axiom base_slash: forall a: Str, b: Str {a + ("/" + b)} :: clean(b) ==> pathbase(a + ("/" + b)) == b
// a package lies three levels below its root: root/l/name/file
axiom root3_join: forall a: Str, s: Str, b: Str {pathjoin(pathjoin(a, pcomp(s)), b)} :: clean(s) && clean(b) ==> root3(pathjoin(pathjoin(a, pcomp(s)), b)) == norm(a)

// the repository with these entries lists id under name n, as a package or a delta
def av(P: map[Str]opt core.RepoEntry, n: Str, x: Str) = some(P[n]) && x in P[n].Available
def de(P: map[Str]opt core.RepoEntry, n: Str, x: Str) = some(P[n]) && x in P[n].Deltas
def lists(P: map[Str]opt core.RepoEntry, n: Str, x: Str) = some(P[n]) && (x in P[n].Available || x in P[n].Deltas)
// cnt(A, n, id): how many repositories list id under name n
func cnt(map[Str]map[Str]opt core.RepoEntry, Str, Str) Int
axiom cnt_store: forall A: map[Str]map[Str]opt core.RepoEntry, r: Str, X: map[Str]opt core.RepoEntry, n: Str, id: Str {cnt(store(A, r, X), n, id)} ::
  cnt(store(A, r, X), n, id) == cnt(A, n, id) - (if lists(A[r], n, id) then 1 else 0) + (if lists(X, n, id) then 1 else 0)
axiom cnt_ge: forall A: map[Str]map[Str]opt core.RepoEntry, r: Str, n: Str, id: Str {cnt(A, n, id), id in A[r][n].Available} {cnt(A, n, id), id in A[r][n].Deltas} ::
  lists(A[r], n, id) ==> cnt(A, n, id) >= 1
axiom cnt_pos: forall A: map[Str]map[Str]opt core.RepoEntry, n: Str, id: Str {cnt(A, n, id)} :: cnt(A, n, id) >= 0

// ---- invariants ------------------------------------------------------------
def rel(x: opt core.PoolEntry) = x.Meta.History[0].Release
def rc(p: map[Str]opt core.PoolEntry, id: Str) = if some(p[id]) then p[id].RefCount else 0
def wfItem(x: opt core.PoolEntry, id: Str) = x.Name == id && id != "" && clean(id) && some(x.Meta) && len(x.Meta.History) >= 1
  && len(x.Meta.Source.Name) >= 1 && clean(x.Meta.Source.Name) && pathbase(x.Meta.PackageURI) == id && x.RefCount >= 1
def wfPool(p: map[Str]opt core.PoolEntry) = forall id: Str {p[id]} :: some(p[id]) ==> wfItem(p[id], id)
def nm(x: opt core.PoolEntry) = x.Meta.Name
def wfEntry(x: opt core.RepoEntry, n: Str) = x.Name == n && len(x.Available) >= 1 && dist(x.Available) && sorted(x.Available)
  && dist(x.Deltas) && sorted(x.Deltas) && x.Published in x.Available
def wfRepos(p: map[Str]opt core.PoolEntry, A: map[Str]map[Str]opt core.RepoEntry) =
     (forall r: Str, n: Str {A[r][n]} :: some(A[r][n]) ==> wfEntry(A[r][n], n))
  && (forall r: Str, n: Str, id: Str {id in A[r][n].Available} :: some(A[r][n]) && id in A[r][n].Available ==> some(p[id]) && p[id].Delta == nil && nm(p[id]) == n)
  && (forall r: Str, n: Str, id: Str {id in A[r][n].Deltas} :: some(A[r][n]) && id in A[r][n].Deltas ==> some(p[id]) && p[id].Delta != nil && nm(p[id]) == n)
def INV = wfPool(pool) && wfRepos(pool, pkgs)
// the published version has the highest release
def TIP = forall r: Str, n: Str, id: Str {id in pkgs[r][n].Available} ::
  some(pkgs[r][n]) && id in pkgs[r][n].Available ==> rel(pool[id]) <= rel(pool[pkgs[r][n].Published])
// references cover the listings
def COVER = (forall id: Str {pool[id]} :: some(pool[id]) ==> pool[id].RefCount >= cnt(pkgs, nm(pool[id]), id))
  && (forall n: Str, id: Str {cnt(pkgs, n, id)} :: !(some(pool[id]) && nm(pool[id]) == n) ==> cnt(pkgs, n, id) == 0)
def FILES(d: Str) = forall id: Str {pool[id]} :: some(pool[id]) ==> some(fino[pathjoin(pathjoin(d, pcomp(pool[id].Meta.Source.Name)), id)])
// an item's own metadata never changes while it is in the pool
def sameItem(a: opt core.PoolEntry, b: opt core.PoolEntry) = some(a) && some(b) && a.Meta == b.Meta && a.Delta == b.Delta && a.Name == b.Name
// references minus listings
def slack(p: map[Str]opt core.PoolEntry, A: map[Str]map[Str]opt core.RepoEntry, n: Str, id: Str) = rc(p, id) - cnt(A, n, id)
def slackEq = forall id: Str {pool[id]} {old(pool[id])} :: (some(pool[id]) ==> slack(pool, pkgs, nm(pool[id]), id) == slack(old(pool), old(pkgs), nm(pool[id]), id))
  && (some(old(pool[id])) ==> slack(pool, pkgs, nm(old(pool[id])), id) == slack(old(pool), old(pkgs), nm(old(pool[id])), id))
def exact(p: map[Str]opt core.PoolEntry, A: map[Str]map[Str]opt core.RepoEntry) = forall id: Str {p[id]} :: some(p[id]) ==> p[id].RefCount == cnt(A, nm(p[id]), id)

// ---- library ----------------------------------------------------------------
contract "libeopkg.(*MetaPackage).GetPathComponent"(m)(res) {
  verifiedin [C20]
  requires len(m.Source.Name) >= 1
  noerr
  ensures res == pcomp(m.Source.Name)
}
// what a path holds
def content(p: Str) = fdata[val(fino[p])]
contract "core.RemovePackageParents"(p)(err) {
  modifies fdir
  // at most the two directories above a package go, nothing else
  ensures only: forall q: Str {fdir[q]} {old(fdir[q])} :: fdir[q] == old(fdir[q]) || (!fdir[q] && (q == pathdir(p) || q == pathdir(pathdir(p))))
  ensures [C22] empty: forall q: Str, x: Str {under(x, q)} :: old(fdir[q]) && !fdir[q] && under(x, q) ==> !some(fino[x]) && !fdir[x]
  ensures [C22] files: fino == old(fino) && fdata == old(fdata)
  always [C22] empty: forall q: Str, x: Str {under(x, q)} :: old(fdir[q]) && !fdir[q] && under(x, q) ==> !some(fino[x]) && !fdir[x]
  always [C22] files: fino == old(fino) && fdata == old(fdata)
}
contract "core.CopyFile"(source, dest)(err) {
  ensures [C13] err != gerr("libeopkg.ErrDeltaPointless")
  modifies fino[dest], fdata
  ensures kept: some(old(fino[dest])) ==> some(fino[dest])
  always kept: some(old(fino[dest])) ==> some(fino[dest])
  ensures made: ok(err) ==> some(fino[dest])
  ensures [C22] copied: ok(err) ==> some(old(fino[source])) && some(fino[dest]) && content(dest) == old(content(source))
  ensures [C22] source: some(old(fino[source])) ==> fino[source] == old(fino[source]) && content(source) == old(content(source))
  always [C22] source: some(old(fino[source])) ==> fino[source] == old(fino[source]) && content(source) == old(content(source))
  ensures [C22] others: forall q: Str {fino[q]} :: some(old(fino[q])) && old(fino[q]) != old(fino[dest]) ==> content(q) == old(content(q))
}
// no file goes away, except in these directories
def keptBut(d: Str, f: Str) = forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && !inDir(q, d) && !inDir(q, f) ==> some(fino[q])
def filesKept = forall p: Str {fino[p]} {old(fino[p])} :: some(old(fino[p])) ==> some(fino[p])
contract "core.LinkOrCopyFile"(source, dest, force)(err) {
  ensures [C13] err != gerr("libeopkg.ErrDeltaPointless")
  modifies fino[dest], fdata
  ensures kept: some(old(fino[dest])) ==> some(fino[dest])
  always kept: some(old(fino[dest])) ==> some(fino[dest])
  ensures made: ok(err) ==> some(fino[dest])
  ensures [C22] copied: ok(err) ==> some(old(fino[source])) && some(fino[dest]) && content(dest) == old(content(source))
  ensures [C22] source: some(old(fino[source])) ==> fino[source] == old(fino[source]) && content(source) == old(content(source))
  always [C22] source: some(old(fino[source])) ==> fino[source] == old(fino[source]) && content(source) == old(content(source))
  ensures [C22] others: forall q: Str {fino[q]} :: some(old(fino[q])) && old(fino[q]) != old(fino[dest]) ==> content(q) == old(content(q))
}
contract "core.FileSha1sum"(path)(res, err) {
  ensures [C22,C12] digest: ok(err) ==> some(fino[path]) && res == hex(sha1(content(path)))
}
contract "core.FileSha256sum"(path)(res, err) {
  only [C22,C12,C11,C05]
  ensures digest: ok(err) ==> some(fino[path]) && res == hex(sha256(content(path)))
}
// the path names the file it named, or one no path named
def sameOrNew(p: Str) = fino[p] == old(fino[p]) || (forall q: Str {old(fino[q])} :: some(old(fino[q])) ==> old(fino[q]) != fino[p])
contract "core.WriteSha1sum"(path, out)(err) {
  only [C22,C12,C11]
  modifies fino[out], fdata
  ensures [C22,C12] digest: ok(err) ==> some(old(fino[path])) && some(fino[out]) && content(out) == hex(sha1(old(content(path))))
  ensures others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[out]) ==> fdata[val(old(fino[q]))] == old(content(q))
  ensures [C12] fresh: sameOrNew(out)
  always [C12] others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[out]) ==> fdata[val(old(fino[q]))] == old(content(q))
  always [C12] fresh: sameOrNew(out)
}
contract "core.WriteSha256sum"(path, out)(err) {
  only [C22,C12,C11]
  modifies fino[out], fdata
  ensures [C22,C12] digest: ok(err) ==> some(old(fino[path])) && some(fino[out]) && content(out) == hex(sha256(old(content(path))))
  ensures others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[out]) ==> fdata[val(old(fino[q]))] == old(content(q))
  ensures [C12] fresh: sameOrNew(out)
  always [C12] others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[out]) ==> fdata[val(old(fino[q]))] == old(content(q))
  always [C12] fresh: sameOrNew(out)
}

// ---- pool ---------------------------------------------------------------
contract "core.(*Pool).UnrefEntry"(p, db, id)(err) {
  guarded [C01] pool by p.mut
  requires INV
  requires COVER
  requires [C02] FILES(p.poolDir)
  requires some(pool[id]) ==> pool[id].RefCount > cnt(pkgs, nm(pool[id]), id)
  modifies pool[id], fino, fdir
  ensures decr: ok(err) ==> some(old(pool[id])) && rc(pool, id) == old(rc(pool, id)) - 1
  ensures keep: !ok(err) ==> pool == old(pool)
  ensures same: some(pool[id]) ==> sameItem(pool[id], old(pool[id])) && pool[id].RefCount <= old(pool[id].RefCount)
  ensures last: some(old(pool[id])) && old(pool[id].RefCount) >= 2 ==> some(pool[id])
  ensures inv: INV
  ensures covered: COVER
  ensures [C02] files: FILES(p.poolDir)
  ensures [C19] outside: forall q: Str {fino[q]} {fdir[q]} :: !inDir(q, p.poolDir) ==> fino[q] == old(fino[q]) && fdir[q] == old(fdir[q])
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(p.poolDir)
  always [C02,C03] same: some(pool[id]) ==> sameItem(pool[id], old(pool[id]))
}
contract "core.(*Pool).RefEntry"(p, db, id)(err) {
  guarded [C01] pool by p.mut
  requires INV
  modifies pool[id]
  ensures incr: ok(err) ==> some(old(pool[id])) && some(pool[id]) && sameItem(pool[id], old(pool[id])) && pool[id].RefCount == old(pool[id].RefCount) + 1
  ensures keep: !ok(err) ==> pool == old(pool)
  ensures inv: INV
  always [C02,C03] inv: INV
  always [C02,C03] more: some(old(pool[id])) ==> sameItem(pool[id], old(pool[id])) && pool[id].RefCount >= old(pool[id].RefCount)
}
def wfPkg(k: Int) = len(k.Meta.Package.History) >= 1 && len(k.Meta.Package.Source.Name) >= 1 && clean(k.Meta.Package.Source.Name) && len(k.Meta.Package.Name) >= 1 && k.ID != "" && clean(k.ID)
// x is the pool entry of this very package, with the given number of references
def itemOf(x: opt core.PoolEntry, k: Int, n: Int, d: Bool) = some(x) && x.RefCount == n && (x.Delta != nil) == d
  && x.Meta.Name == k.Meta.Package.Name && x.Meta.Source.Name == k.Meta.Package.Source.Name && rel(x) == k.Meta.Package.History[0].Release
contract "core.(*Pool).addPackageInternal"(p, db, pkg, copyDisk, delta)(entry, err) {
  alloc libeopkg.Metadata, libeopkg.Package
  nullable delta
  guarded [C01] pool by p.mut
  holds [C01] p.mut
  reads [C01] pool
  requires INV
  requires wfPkg(pkg)
  requires [C02] FILES(p.poolDir)
  modifies pool[pkg.ID], fino, fdata, fdir, pkg.Meta.Package
  ensures added: ok(err) ==> itemOf(pool[pkg.ID], pkg, old(rc(pool, pkg.ID)) + 1, delta != nil)
  ensures same: ok(err) && some(old(pool[pkg.ID])) ==> sameItem(pool[pkg.ID], old(pool[pkg.ID]))
  ensures keep: !ok(err) ==> pool == old(pool)
  ensures pkgsame: pkg.Meta.Package.Name == old(pkg.Meta.Package.Name) && pkg.Meta.Package.History == old(pkg.Meta.Package.History) && pkg.Meta.Package.Source == old(pkg.Meta.Package.Source)
  ensures [C05] kept: keptBut(p.poolDir, p.poolDir)
  always [C05] kept: keptBut(p.poolDir, p.poolDir)
  ensures inv: INV
  always [C02,C03] inv: INV
  always [C02,C03] more: some(old(pool[pkg.ID])) ==> sameItem(pool[pkg.ID], old(pool[pkg.ID])) && pool[pkg.ID].RefCount >= old(pool[pkg.ID].RefCount)
  ensures [C02] files: FILES(p.poolDir)
  always [C02] files: FILES(p.poolDir)
}
contract "core.(*Pool).AddDelta"(p, db, pkg, mapping, copyDisk)(entry, err) {
  alloc libeopkg.Metadata, libeopkg.Package
  guarded [C01] pool by p.mut
  requires INV
  requires wfPkg(pkg)
  requires [C02] FILES(p.poolDir)
  modifies pool[pkg.ID], fino, fdata, fdir, pkg.Meta.Package, mapping
  ensures added: ok(err) ==> itemOf(pool[pkg.ID], pkg, old(rc(pool, pkg.ID)) + 1, true)
  ensures same: ok(err) && some(old(pool[pkg.ID])) ==> sameItem(pool[pkg.ID], old(pool[pkg.ID]))
  ensures keep: !ok(err) ==> pool == old(pool)
  ensures pkgsame: pkg.Meta.Package.Name == old(pkg.Meta.Package.Name) && pkg.Meta.Package.History == old(pkg.Meta.Package.History) && pkg.Meta.Package.Source == old(pkg.Meta.Package.Source)
  ensures inv: INV
  always [C02,C03] inv: INV
  always [C02,C03] more: some(old(pool[pkg.ID])) ==> sameItem(pool[pkg.ID], old(pool[pkg.ID])) && pool[pkg.ID].RefCount >= old(pool[pkg.ID].RefCount)
  ensures [C02] files: FILES(p.poolDir)
  always [C02] files: FILES(p.poolDir)
}

// ---- repositories ---------------------------------------------------------
// only the entry of name n of repository r may differ
def onlyName(r: Str, nm: Str) = forall n: Str {pkgs[r][n]} {old(pkgs[r][n])} :: n != nm ==> pkgs[r][n] == old(pkgs[r][n])
// an item whose listing in r did not change is untouched
def poolFrame(r: Str) = forall id: Str {pool[id]} {old(pool[id])} :: some(old(pool[id])) && lists(pkgs[r], nm(old(pool[id])), id) == lists(old(pkgs[r]), nm(old(pool[id])), id) ==> pool[id] == old(pool[id])
def metaKept = forall id: Str {pool[id]} {old(pool[id])} :: some(pool[id]) && some(old(pool[id])) ==> sameItem(pool[id], old(pool[id]))
// the available versions of name n gain exactly id, everything else of r stays
def gainsAvail(r: Str, nm: Str, id: Str) = onlyName(r, nm) && some(pkgs[r][nm])
  && (forall x: Str {x in pkgs[r][nm].Available} {x in old(pkgs[r][nm].Available)} :: av(pkgs[r], nm, x) == (av(old(pkgs[r]), nm, x) || x == id))
  && (forall x: Str {x in pkgs[r][nm].Deltas} {x in old(pkgs[r][nm].Deltas)} :: de(pkgs[r], nm, x) == de(old(pkgs[r]), nm, x))
def gainsDelta(r: Str, nm: Str, id: Str) = onlyName(r, nm) && some(pkgs[r][nm]) && some(old(pkgs[r][nm]))
  && pkgs[r][nm].Available == old(pkgs[r][nm].Available) && pkgs[r][nm].Published == old(pkgs[r][nm].Published)
  && (forall x: Str {x in pkgs[r][nm].Deltas} {x in old(pkgs[r][nm].Deltas)} :: de(pkgs[r], nm, x) == (de(old(pkgs[r]), nm, x) || x == id))
def apart(d: Str, r: Str) = norm(d) != norm(r)

contract "core.(*Repository).AddLocalPackage"(r, db, pl, pkg)(err) {
  alloc libeopkg.Metadata, libeopkg.Package
  guarded [C23] pkgs[r.ID] by r.insertMut
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  requires wfPkg(pkg)
  modifies pool[pkg.ID], pkgs[r.ID], fino, fdata, fdir, pkg.Meta.Package
  candidate !(pkg.ID in pre($L, $I))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures listed: ok(err) ==> gainsAvail(r.ID, pkg.Meta.Package.Name, pkg.ID)
  ensures there: ok(err) ==> av(pkgs[r.ID], pkg.Meta.Package.Name, pkg.ID)
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures pkgsame: pkg.Meta.Package.Name == old(pkg.Meta.Package.Name) && pkg.Meta.Package.History == old(pkg.Meta.Package.History) && pkg.Meta.Package.Source == old(pkg.Meta.Package.Source)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
  ensures [C05] kept: keptBut(pl.poolDir, pl.poolDir)
  always [C05] kept: keptBut(pl.poolDir, pl.poolDir)
}
contract "core.(*Repository).RefPackage"(r, db, pl, id)(err) {
  guarded [C23] pkgs[r.ID] by r.insertMut
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool[id], pkgs[r.ID], fino, fdata, fdir
  candidate !(id in pre($L, $I))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(r.ID)
  ensures listed: ok(err) ==> some(old(pool[id])) && old(pool[id].Delta) == nil && gainsAvail(r.ID, old(pool[id].Meta.Name), id)
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures meta: metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) == some(old(pool[x])))
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Repository).RefDelta"(r, db, pl, id)(err) {
  guarded [C23] pkgs[r.ID] by r.insertMut
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool[id], pkgs[r.ID], fino, fdata, fdir
  candidate !(id in pre($L, $I))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(r.ID)
  ensures listed: ok(err) ==> some(old(pool[id])) && old(pool[id].Delta) != nil && gainsDelta(r.ID, old(pool[id].Meta.Name), id)
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures meta: metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) == some(old(pool[x])))
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Repository).AddLocalDelta"(r, db, pl, pkg, mapping)(err) {
  alloc libeopkg.Metadata, libeopkg.Package
  guarded [C23] pkgs[r.ID] by r.insertMut
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  requires wfPkg(pkg)
  modifies pool[pkg.ID], pkgs[r.ID], fino, fdata, fdir, pkg.Meta.Package, mapping
  candidate !(pkg.ID in pre($L, $I))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures listed: ok(err) ==> gainsDelta(r.ID, pkg.Meta.Package.Name, pkg.ID)
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures pkgsame: pkg.Meta.Package.Name == old(pkg.Meta.Package.Name) && pkg.Meta.Package.History == old(pkg.Meta.Package.History) && pkg.Meta.Package.Source == old(pkg.Meta.Package.Source)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}
// the available versions of name nm lose exactly id, the deltas those from or to it; a name without versions goes
def losesAvail(r: Str, nm: Str, id: Str) = onlyName(r, nm)
  && (forall x: Str {x in pkgs[r][nm].Available} {x in old(pkgs[r][nm].Available)} :: av(pkgs[r], nm, x) == (av(old(pkgs[r]), nm, x) && x != id))
  && (forall x: Str {x in pkgs[r][nm].Deltas} {x in old(pkgs[r][nm].Deltas)} ::
      de(pkgs[r], nm, x) == (some(pkgs[r][nm]) && de(old(pkgs[r]), nm, x) && old(pool[x]).Delta.FromID != id && old(pool[x]).Delta.ToID != id))
contract "core.(*Repository).UnrefPackage"(r, db, pl, id)(err) {
  guarded [C23] pkgs[r.ID] by r.insertMut
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  requires some(pool[id]) ==> av(pkgs[r.ID], pool[id].Meta.Name, id)
  modifies pool, pkgs[r.ID], fino, fdir
  pred(x: Str) pool[x].Delta.FromID == id || pool[x].Delta.ToID == id
  pred(x: Str) pool[x].Delta.FromID != id && pool[x].Delta.ToID != id
  pred(x: Str) x != id
  candidate [C09] len($S) == $I - (if id in pre($L, $I) then 1 else 0)
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate (len($S) >= 1 ==> $T in $S && $N == rel(pool[$T])) && (len($S) == 0 ==> $T == "")
  candidate forall x: Str {x in $S} :: x in $S ==> rel(pool[x]) <= $N
  candidate forall x: Str {pool[x]} {lold(pool[x])} {x in pre($L, $I)} :: x in pre($L, $I) ==> some(lold(pool[x])) && rc(pool, x) == lold(rc(pool, x)) - 1
  candidate forall x: Str {pool[x]} {lold(pool[x])} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pool[x] == lold(pool[x])
  candidate forall x: Str {pool[x]} {lold(pool[x])} :: some(pool[x]) ==> sameItem(pool[x], lold(pool[x]))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(r.ID)
  ensures shrinks: forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) ==> some(old(pool[x]))
  ensures fewer: (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} :: av(pkgs[r.ID], n, x) ==> av(old(pkgs[r.ID]), n, x))
    && (forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} :: de(pkgs[r.ID], n, x) ==> de(old(pkgs[r.ID]), n, x))
  ensures gone: ok(err) ==> some(old(pool[id])) && losesAvail(r.ID, old(pool[id].Meta.Name), id)
  ensures [C09] others: forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(old(pkgs[r.ID]), n, x) && x != id ==> av(pkgs[r.ID], n, x)
  ensures [C09] one: ok(err) && some(pkgs[r.ID][old(pool[id].Meta.Name)]) ==> len(pkgs[r.ID][old(pool[id].Meta.Name)].Available) == len(old(pkgs[r.ID][pool[id].Meta.Name].Available)) - 1
  ensures [C09] tipstays: ok(err) && id != old(pkgs[r.ID][pool[id].Meta.Name].Published) ==> some(pkgs[r.ID][old(pool[id].Meta.Name)])
  ensures only: some(old(pool[id])) ==> onlyName(r.ID, old(pool[id].Meta.Name))
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- packages --------------------------------------------------------------
// name and release in the metadata of the archive at a path
func upName(Str) Str
func upRel(Str) Int
contract "libeopkg.Open"(path)(p, err) {
  alloc libeopkg.Package
  verifiedin [C20]
  ensures ok(err) ==> p.ID == pathbase(path) && p.Path == path
  ensures ok(err) ==> p.ID != "" && clean(p.ID)
  ensures [C13] err != gerr("libeopkg.ErrDeltaPointless")
  ensures [C20] archive: ok(err) ==> archive(p) && p.Meta == nil && p.Files == nil
}
contract "libeopkg.(*Package).Close"(p)(err) {
  verifiedin [C20]
  requires [C20] archive(p)
}
contract "libeopkg.(*Package).ReadMetadata"(p)(err) {
  alloc libeopkg.Metadata
  verifiedin [C20]
  requires [C20] archive(p)
  unset [C20] p.Meta
  modifies p.Meta
  ensures [C20] accepted: ok(err) ==> p.Meta != nil && accepted(p.Meta)
  ensures [C20] err != gerr("libeopkg.ErrDeltaPointless")
  ensures ok(err) ==> len(p.Meta.Package.History) >= 1 && len(p.Meta.Package.Source.Name) >= 1 && clean(p.Meta.Package.Source.Name) && len(p.Meta.Package.Name) >= 1
  ensures ok(err) ==> p.Meta.Package.Name == upName(p.Path) && p.Meta.Package.History[0].Release == upRel(p.Path)
}
contract "core.(*Repository).AddPackage"(r, db, pl, filename, anal)(err) {
  alloc libeopkg.Metadata, libeopkg.Package
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdata, fdir
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures listed: ok(err) ==> gainsAvail(r.ID, upName(filename), pathbase(filename))
  ensures there: ok(err) ==> av(pkgs[r.ID], upName(filename), pathbase(filename))
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures frame: pool == store(old(pool), pathbase(filename), pool[pathbase(filename)])
  ensures [C04] refused: forall x: Str {x in old(pkgs[r.ID][upName(filename)].Available)} :: anal && av(old(pkgs[r.ID]), upName(filename), x) && upRel(filename) <= rel(old(pool[x])) ==> !ok(err) && pool == old(pool)
  ensures [C05] kept: keptBut(pl.poolDir, pl.poolDir)
  always [C05] kept: keptBut(pl.poolDir, pl.poolDir)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- moving sets of packages -------------------------------------------------
contract "core.(*Repository).pullAssets"(r, src)(err) {
  modifies fino, fdata, fdir
  candidate forall p: Str {fino[p]} {lold(fino[p])} :: some(lold(fino[p])) ==> some(fino[p])
  ensures kept: filesKept
  always kept: filesKept
}
// the released packages of repository P which come from a source at a release (any, if it is not positive)
def match(p: map[Str]opt core.PoolEntry, x: Str, src: Str, rl: Int) = p[x].Meta.Source.Name == src && (rl <= 0 || rel(p[x]) == rl)
def sel(p: map[Str]opt core.PoolEntry, P: map[Str]opt core.RepoEntry, x: Str, src: Str, rl: Int) = some(p[x]) && av(P, nm(p[x]), x) && match(p, x, src, rl)

contract "core.(*Repository).RemoveSource"(r, db, pl, src, rl)(err) {
  log [C08]
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdir
  pred(x: Str) match(pool, x, src, rl)
  // collecting
  candidate forall x: Str {x in $S} :: x in $S ==> sel(pool, pkgs[r.ID], x, src, rl) && nm(pool[x]) in pre($L, $I)
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Available} :: n in pre($L, $I) && av(pkgs[r.ID], n, x) && match(pool, x, src, rl) ==> x in $S
  candidate len($S) >= 1 ==> sel(pool, pkgs[r.ID], $S[0], src, rl)
  // removing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) ==> some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) && !(x in pre($L, $I)))
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} ::
      de(pkgs[r.ID], n, x) == (some(pkgs[r.ID][n]) && de(old(pkgs[r.ID]), n, x) && !(old(pool[x]).Delta.FromID in pre($L, $I) && nm(old(pool[old(pool[x]).Delta.FromID])) == n) && !(old(pool[x]).Delta.ToID in pre($L, $I) && nm(old(pool[old(pool[x]).Delta.ToID])) == n))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(r.ID)
  ensures [C08] gone: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) && !match(old(pool), x, src, rl)))
  ensures [C08] deltas: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} ::
      de(pkgs[r.ID], n, x) == (some(pkgs[r.ID][n]) && de(old(pkgs[r.ID]), n, x) && !(sel(old(pool), old(pkgs[r.ID]), old(pool[x]).Delta.FromID, src, rl) && nm(old(pool[old(pool[x]).Delta.FromID])) == n)
       && !(sel(old(pool), old(pkgs[r.ID]), old(pool[x]).Delta.ToID, src, rl) && nm(old(pool[old(pool[x]).Delta.ToID])) == n)))
  ensures [C08] none: (forall x: Str {old(pool[x])} :: !sel(old(pool), old(pkgs[r.ID]), x, src, rl)) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

contract "core.(*Repository).CopySourceFrom"(r, db, pl, source, src, rl)(err) {
  log [C08]
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdata, fdir
  pred(x: Str) match(pool, x, src, rl)
  candidate forall x: Str {x in $S} :: x in $S ==> sel(pool, pkgs[source.ID], x, src, rl) && nm(pool[x]) in pre($L, $I)
  candidate forall n: Str, x: Str {x in pkgs[source.ID][n].Available} :: n in pre($L, $I) && av(pkgs[source.ID], n, x) && match(pool, x, src, rl) ==> x in $S
  candidate len($S) >= 1 ==> sel(pool, pkgs[source.ID], $S[0], src, rl)
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) == some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate [C01,C08] forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) || (x in pre($L, $I) && nm(old(pool[x])) == n))
  candidate [C01,C08] forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) == de(old(pkgs[r.ID]), n, x)
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(r.ID)
  ensures [C08] copied: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} {x in old(pkgs[source.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) || (av(old(pkgs[source.ID]), n, x) && match(old(pool), x, src, rl))))
  ensures [C08] deltas: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) == de(old(pkgs[r.ID]), n, x))
  ensures [C08] none: (forall x: Str {old(pool[x])} :: !sel(old(pool), old(pkgs[source.ID]), x, src, rl)) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Repository).CloneFrom"(r, db, pl, source, full)(err) {
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdata, fdir
  // collecting
  candidate full ==> (forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && av(pkgs[source.ID], nm(pool[x]), x))
  candidate full ==> (forall n: Str, x: Str {x in pkgs[source.ID][n].Available} :: n in pre($L, $I) && av(pkgs[source.ID], n, x) ==> x in $S)
  candidate full ==> (forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && de(pkgs[source.ID], nm(pool[x]), x))
  candidate full ==> (forall n: Str, x: Str {x in pkgs[source.ID][n].Deltas} :: n in pre($L, $I) && de(pkgs[source.ID], n, x) ==> x in $S)
  candidate !full ==> (forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && some(pkgs[source.ID][nm(pool[x])]) && x == pkgs[source.ID][nm(pool[x])].Published)
  candidate !full ==> (forall n: Str {pkgs[source.ID][n]} :: n in pre($L, $I) && some(pkgs[source.ID][n]) ==> pkgs[source.ID][n].Published in $S)
  candidate !full ==> len($S) == 0
  // referencing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) == some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate [C01,C07] forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in lold(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(lold(pkgs[r.ID]), n, x) || (x in pre($L, $I) && nm(old(pool[x])) == n && old(pool[x].Delta) == nil))
  candidate [C01,C07] forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in lold(pkgs[r.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) == (de(lold(pkgs[r.ID]), n, x) || (x in pre($L, $I) && nm(old(pool[x])) == n && old(pool[x].Delta) != nil))
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(r.ID)
  ensures [C07] packages: ok(err) && full ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} {x in old(pkgs[source.ID][n].Available)} :: av(pkgs[r.ID], n, x) ==
     (av(old(pkgs[r.ID]), n, x) || av(old(pkgs[source.ID]), n, x)))
  ensures [C07] tips: ok(err) && !full ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} {x in old(pkgs[source.ID][n].Available)} :: av(pkgs[r.ID], n, x) ==
     (av(old(pkgs[r.ID]), n, x) || (some(old(pkgs[source.ID][n])) && x == old(pkgs[source.ID][n].Published))))
  ensures [C07] deltas: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} {x in old(pkgs[source.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) ==
     (de(old(pkgs[r.ID]), n, x) || (full && de(old(pkgs[source.ID]), n, x))))
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}
// what a pull takes of a name: the published version, if the target lacks the name or publishes a lower release
def lacks(p: map[Str]opt core.PoolEntry, S: map[Str]opt core.RepoEntry, T: map[Str]opt core.RepoEntry, n: Str) = some(S[n]) && (!some(T[n]) || rel(p[T[n].Published]) < rel(p[S[n].Published]))
contract "core.(*Repository).PullFrom"(r, db, pl, source)(names, err) {
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdata, fdir
  pred(n: Str) lacks(pool, pkgs[source.ID], pkgs[r.ID], n)
  // collecting
  candidate forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && lacks(pool, pkgs[source.ID], pkgs[r.ID], nm(pool[x])) && x == pkgs[source.ID][nm(pool[x])].Published
  candidate forall n: Str {pkgs[source.ID][n]} :: n in pre($L, $I) && lacks(pool, pkgs[source.ID], pkgs[r.ID], n) ==> pkgs[source.ID][n].Published in $S
  candidate forall n: Str {pkgs[source.ID][n]} :: n in pre($L, $I) && some(pkgs[r.ID][n]) && some(pkgs[source.ID][n]) ==> rel(pool[pkgs[r.ID][n].Published]) <= rel(pool[pkgs[source.ID][n].Published])
  // referencing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) == some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate [C01,C06] forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) || (x in pre($L, $I) && nm(old(pool[x])) == n))
  candidate [C01,C06] forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) == de(old(pkgs[r.ID]), n, x)
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(r.ID)
  ensures [C06] added: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} {x in old(pkgs[source.ID][n].Available)} :: av(pkgs[r.ID], n, x) ==
     (av(old(pkgs[r.ID]), n, x) || (lacks(old(pool), old(pkgs[source.ID]), old(pkgs[r.ID]), n) && x == old(pkgs[source.ID][n].Published))))
  ensures [C06] deltas: ok(err) ==> (forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} {x in old(pkgs[r.ID][n].Deltas)} :: de(pkgs[r.ID], n, x) == de(old(pkgs[r.ID]), n, x))
  ensures [C06] kept: forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(old(pkgs[r.ID]), n, x) ==> av(pkgs[r.ID], n, x)
  ensures [C06] names: ok(err) ==> (forall n: Str {n in names} {old(pkgs[source.ID][n])} :: (n in names) == lacks(old(pool), old(pkgs[source.ID]), old(pkgs[r.ID]), n))
  ensures [C06] once: ok(err) ==> dist(names)
  ensures [C06] refused: forall n: Str {old(pkgs[source.ID][n])} :: some(old(pkgs[source.ID][n])) && some(old(pkgs[r.ID][n])) && rel(old(pool[pkgs[r.ID][n].Published])) > rel(old(pool[pkgs[source.ID][n].Published])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- trimming ------------------------------------------------------------------
// cnm(p, S, n): how many elements of S belong to name n
func cnm(map[Str]opt core.PoolEntry, []Str, Str) Int
axiom cnm_nil: forall p: map[Str]opt core.PoolEntry, S: []Str, n: Str {cnm(p, S, n)} :: len(S) == 0 ==> cnm(p, S, n) == 0
axiom cnm_app: forall p: map[Str]opt core.PoolEntry, S: []Str, x: Str, n: Str {cnm(p, S ++ seq(x), n)} :: cnm(p, S ++ seq(x), n) == cnm(p, S, n) + (if nm(p[x]) == n then 1 else 0)
contract "core.(*Repository).TrimPackages"(r, db, pl, maxKeep)(err) {
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04,C09] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdir
  // the versions of a name
  candidate forall m: opt libeopkg.MetaPackage {m in $S} :: m in $S ==> some(m) && pool[pathbase(m.PackageURI)].Meta == m && pathbase(m.PackageURI) in pre($L, $I)
  candidate forall x: Str {x in pre($L, $I)} :: x in pre($L, $I) ==> pool[x].Meta in $S
  // the published one is among those kept
  candidate forall k: Int {$L[k]} :: $I0 <= k && k < $I ==> pathbase($L[k].PackageURI) != pkgs[r.ID][$L[k].Name].Published
  // those past the limit go
  candidate forall x: Str {x in $S} {pool[x].Meta in $L} :: (x in $S) == (x in lold($S) || (some(pool[x]) && pool[x].Meta in $L && $I0 <= idx($L, pool[x].Meta) && idx($L, pool[x].Meta) < $I))
  candidate forall n: Str {cnm(pool, $S, n)} :: cnm(pool, $S, n) == cnm(pool, lold($S), n) + (if n == $L[0].Name then $I - $I0 else 0)
  // all names
  candidate forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && av(pkgs[r.ID], nm(pool[x]), x) && nm(pool[x]) in pre($L, $I) && len(pkgs[r.ID][nm(pool[x])].Available) > maxKeep && x != pkgs[r.ID][nm(pool[x])].Published
  candidate forall x: Str, y: Str {x in $S, y in pkgs[r.ID][nm(pool[x])].Available} :: x in $S && av(pkgs[r.ID], nm(pool[x]), y) && !(y in $S) ==> rel(pool[x]) <= rel(pool[y])
  candidate forall n: Str {cnm(pool, $S, n)} :: cnm(pool, $S, n) == (if n in pre($L, $I) && len(pkgs[r.ID][n].Available) > maxKeep then len(pkgs[r.ID][n].Available) - maxKeep else 0)
  // removing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04,C09] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) ==> some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) && !(x in pre($L, $I)))
  candidate [C01] forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} :: de(pkgs[r.ID], n, x) ==> de(old(pkgs[r.ID]), n, x)
  candidate [C09] forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: some(pkgs[r.ID][n]) == some(old(pkgs[r.ID][n]))
  candidate [C09] forall n: Str {pkgs[r.ID][n]} :: some(pkgs[r.ID][n]) ==> len(pkgs[r.ID][n].Available) == len(old(pkgs[r.ID][n].Available)) - cnm(old(pool), pre($L, $I), n)
  candidate [C09] forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: len(old(pkgs[r.ID][n].Available)) <= maxKeep ==> pkgs[r.ID][n] == old(pkgs[r.ID][n])
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(r.ID)
  ensures [C09] refused: maxKeep < 1 ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C09] few: forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: !some(old(pkgs[r.ID][n])) || len(old(pkgs[r.ID][n].Available)) <= maxKeep ==> pkgs[r.ID][n] == old(pkgs[r.ID][n])
  ensures [C09] limit: ok(err) ==> (forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: some(old(pkgs[r.ID][n])) && len(old(pkgs[r.ID][n].Available)) > maxKeep ==> some(pkgs[r.ID][n]) && len(pkgs[r.ID][n].Available) == maxKeep)
  ensures [C09] tipkept: forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: some(old(pkgs[r.ID][n])) ==> av(pkgs[r.ID], n, old(pkgs[r.ID][n].Published))
  ensures [C09] newest: ok(err) ==> (forall n: Str, x: Str, y: Str {x in old(pkgs[r.ID][n].Available), y in pkgs[r.ID][n].Available} :: av(old(pkgs[r.ID]), n, x) && !av(pkgs[r.ID], n, x) && av(pkgs[r.ID], n, y) ==> rel(old(pool[x])) <= rel(old(pool[y])))
  ensures [C09] onlyless: forall n: Str, x: Str {x in pkgs[r.ID][n].Available} :: av(pkgs[r.ID], n, x) ==> av(old(pkgs[r.ID]), n, x)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- obsoletes -------------------------------------------------------------------
contract "libeopkg.NewDistribution"(file)(d, err) {
  alloc libeopkg.Distribution
  ensures read: ok(err) ==> some(fino[file]) && d.Obsoletes == xmldec(libeopkg.Distribution, fdata[val(fino[file])]).Obsoletes
  ensures set: ok(err) ==> (forall n: Str {d.obsmap[n]} {n in d.Obsoletes} :: (some(d.obsmap[n]) && val(d.obsmap[n])) == (n in d.Obsoletes))
  candidate forall n: Str {$M[n]} {n in pre($L, $I)} :: (some($M[n]) && val($M[n])) == (n in pre($L, $I))
}
// name n is obsolete according to the list O: itself, or as -dbginfo of an obsolete name
def obsoleteIn(O: []Str, n: Str) = n in O || (hassuffix(n, "-dbginfo") && substr(n, 0, len(n) - 8) in O)
// what the distribution metadata below the asset directory a marks obsolete
def distOf(a: Str) = xmldec(libeopkg.Distribution, fdata[val(fino[pathjoin(a, "distribution.xml")])]).Obsoletes
contract "core.(*Repository).TrimObsolete"(r, db, pl)(err) {
  alloc libeopkg.Distribution
  guarded [C23] pkgs[r.ID] by r.insertMut writes
  requires INV && COVER
  requires [C03,C04] TIP
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, r.path)
  modifies pool, pkgs[r.ID], fino, fdir, r.dist
  pred(x: Str) av(pkgs[r.ID], nm(pool[x]), x) && obsoleteIn(distOf(r.assetPath), nm(pool[x]))
  // collecting
  candidate forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && av(pkgs[r.ID], nm(pool[x]), x)
  candidate forall x: Str {x in $S} :: x in $S ==> obsoleteIn(distOf(r.assetPath), nm(pool[x]))
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Available} :: n in pre($L, $I) && av(pkgs[r.ID], n, x) && obsoleteIn(distOf(r.assetPath), n) ==> x in $S
  // removing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(pool[x]) ==> some(old(pool[x])))
  candidate [C01] slackEq
  candidate [C01] poolFrame(r.ID)
  candidate forall n: Str, x: Str {x in pkgs[r.ID][n].Available} {x in old(pkgs[r.ID][n].Available)} :: av(pkgs[r.ID], n, x) == (av(old(pkgs[r.ID]), n, x) && !(x in pre($L, $I)))
  candidate [C01] forall n: Str, x: Str {x in pkgs[r.ID][n].Deltas} :: de(pkgs[r.ID], n, x) ==> de(old(pkgs[r.ID]), n, x)
  candidate [C10] forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: !obsoleteIn(old(distOf(r.assetPath)), n) ==> pkgs[r.ID][n] == old(pkgs[r.ID][n])
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(r.ID)
  ensures [C10] gone: ok(err) ==> (forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: some(old(pkgs[r.ID][n])) && obsoleteIn(old(distOf(r.assetPath)), n) ==> !some(pkgs[r.ID][n]))
  ensures [C10] others: forall n: Str {pkgs[r.ID][n]} {old(pkgs[r.ID][n])} :: !obsoleteIn(old(distOf(r.assetPath)), n) ==> pkgs[r.ID][n] == old(pkgs[r.ID][n])
  ensures [C10] nodist: !some(old(fino[pathjoin(r.assetPath, "distribution.xml")])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C10] onlyless: forall n: Str, x: Str {x in pkgs[r.ID][n].Available} :: av(pkgs[r.ID], n, x) ==> av(old(pkgs[r.ID]), n, x)
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- creating and deleting repositories ---------------------------------------------
// what the manager's cache says of a repository
def wfCached(m: Int, x: opt core.Repository, id: Str) = some(x) && x.ID == id && x.path == pathjoin(m.repoBase, id) && x.assetPath == pathjoin(m.assetBase, id)
  && x.deltaPath == pathjoin(m.deltaBase, id) && x.deltaStagePath == pathjoin(m.deltaStageBase, id)
def wfCache(m: Int) = forall id: Str {m.repos[id]} :: some(m.repos[id]) ==> some(repos[id]) && wfCached(m, val(m.repos[id]), id)
// a repository that does not exist lists nothing
def noOrphans = forall r: Str, n: Str {pkgs[r][n]} :: some(pkgs[r][n]) ==> some(repos[r])
def exists_(p: Str) = some(fino[p]) || fdir[p]
// a name that is a single path component
func onecomp(Str) Bool
axiom onecomp_def: forall s: Str {onecomp(s)} {pathbase(s)} :: onecomp(s) == (pathbase(s) == s && s != "." && s != ".." && s != "/")
def wfNames = forall r: Str {repos[r]} :: some(repos[r]) ==> onecomp(r)
// paths
axiom under_join: forall a: Str, b: Str {pathjoin(a, b)} :: onecomp(b) ==> under(pathjoin(a, b), a)
axiom under_trans: forall a: Str, b: Str, d: Str {under(a, b), under(b, d)} :: under(a, b) && under(b, d) ==> under(a, d)
axiom under_pool: forall d: Str, s: Str, b: Str {pathjoin(pathjoin(d, pcomp(s)), b)} :: clean(s) && clean(b) ==> under(pathjoin(pathjoin(d, pcomp(s)), b), d)
  && under(pathdir(pathjoin(pathjoin(d, pcomp(s)), b)), d) && under(pathdir(pathdir(pathjoin(pathjoin(d, pcomp(s)), b))), d)
def inDir(q: Str, d: Str) = q == d || under(q, d)
// two directory trees have nothing in common
def disjoint(d: Str, f: Str) = forall q: Str {under(q, d)} {under(q, f)} :: !(inDir(q, d) && inDir(q, f))
def ownDir(m: Int, id: Str, q: Str) = inDir(q, pathjoin(m.repoBase, id)) || inDir(q, pathjoin(m.assetBase, id)) || inDir(q, pathjoin(m.deltaBase, id)) || inDir(q, pathjoin(m.deltaStageBase, id))
def bases(m: Int, d: Str) = disjoint(m.repoBase, d) && disjoint(m.assetBase, d) && disjoint(m.deltaBase, d) && disjoint(m.deltaStageBase, d)
contract "core.(*RepositoryManager).CreateRepo"(m, db, id)(res, err) {
  alloc core.Repository
  guarded [C23] m.repos by m.repoLock
  requires wfCache(m) && noOrphans && wfNames
  modifies repos[id], fdir, m.repos
  ensures names: wfNames
  ensures dirs: forall q: Str {fdir[q]} {old(fdir[q])} :: old(fdir[q]) ==> fdir[q]
  ensures again: some(old(repos[id])) ==> !ok(err) && repos == old(repos) && fdir == old(fdir)
  ensures fresh: ok(err) ==> !some(old(repos[id])) && !old(exists_(pathjoin(m.repoBase, id)))
  ensures made: ok(err) ==> some(repos[id]) && (forall n: Str {pkgs[id][n]} :: !some(pkgs[id][n]))
  ensures kept: some(old(repos[id])) ==> some(repos[id])
  ensures cache: wfCache(m) && noOrphans
  ensures [C23] one: forall x: Str {m.repos[x]} {old(m.repos[x])} :: some(old(m.repos[x])) && (x != id || some(old(repos[id]))) ==> m.repos[x] == old(m.repos[x])
  ensures [C23] cached: ok(err) ==> some(m.repos[id]) && res.insertMut == val(m.repos[id]).insertMut
  ensures it: ok(err) ==> res.ID == id && res.path == pathjoin(m.repoBase, id) && res.assetPath == pathjoin(m.assetBase, id)
}
contract "core.(*RepositoryManager).DeleteRepo"(m, db, pl, id)(err) {
  alloc core.Repository
  nofail removeall
  guarded [C23] m.repos by m.repoLock
  requires INV && COVER
  requires [C03,C04] TIP
  requires wfCache(m) && noOrphans && wfNames
  requires bases(m, pl.poolDir)
  requires [C02] FILES(pl.poolDir) && apart(pl.poolDir, pathjoin(m.repoBase, id))
  modifies pool, pkgs[id], repos[id], fino, fdir, m.repos
  // collecting
  candidate forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && av(old(pkgs[id]), nm(pool[x]), x)
  candidate forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && de(old(pkgs[id]), nm(pool[x]), x)
  candidate forall n: Str, x: Str {x in pkgs[id][n].Available} :: n in pre($L, $I) && av(old(pkgs[id]), n, x) ==> x in $S
  candidate forall n: Str, x: Str {x in pkgs[id][n].Deltas} :: n in pre($L, $I) && de(old(pkgs[id]), n, x) ==> x in $S
  candidate dist($S)
  candidate pend(pkgs) == store(old(pkgs), id, pend(pkgs)[id])
  candidate forall n: Str {pend(pkgs)[id][n]} :: !(n in pre($L, $I)) ==> pend(pkgs)[id][n] == old(pkgs[id][n])
  candidate forall n: Str {pend(pkgs)[id][n]} :: n in pre($L, $I) ==> !some(pend(pkgs)[id][n])
  // releasing
  candidate INV && COVER
  candidate [C02] FILES(pl.poolDir)
  candidate [C03,C04] TIP
  candidate forall x: Str {pool[x]} {lold(pool[x])} {x in pre($L, $I)} :: x in pre($L, $I) ==> some(lold(pool[x])) && rc(pool, x) == lold(rc(pool, x)) - 1
  candidate forall x: Str {pool[x]} {lold(pool[x])} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pool[x] == lold(pool[x])
  candidate forall x: Str {pool[x]} {lold(pool[x])} :: some(pool[x]) ==> sameItem(pool[x], lold(pool[x]))
  candidate [C19] forall q: Str {fino[q]} {fdir[q]} :: !ownDir(m, id, q) && !inDir(q, pl.poolDir) ==> fino[q] == old(fino[q]) && (old(fdir[q]) ==> fdir[q])
  ensures inv: INV && COVER
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(id)
  ensures [C19] unknown: !some(old(repos[id])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs) && repos == old(repos) && fino == old(fino)
  ensures [C19] gone: ok(err) ==> !some(repos[id]) && !some(m.repos[id]) && (forall n: Str {pkgs[id][n]} :: !some(pkgs[id][n]))
  ensures [C19] dirs: ok(err) ==> (forall q: Str {fino[q]} {fdir[q]} :: ownDir(m, id, q) ==> !some(fino[q]) && !fdir[q])
  ensures [C19] others: forall q: Str {fino[q]} {fdir[q]} :: !ownDir(m, id, q) && !inDir(q, pl.poolDir) ==> fino[q] == old(fino[q]) && (old(fdir[q]) ==> fdir[q])
  ensures cache: wfCache(m) && noOrphans && wfNames
  ensures meta: metaKept
  ensures [C02] files: FILES(pl.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(pl.poolDir)
  always [C03] tip: TIP
}

// ---- the operations as the daemon requests them ------------------------------------------
contract "core.(*RepositoryManager).GetRepo"(m, db, id)(res, err) {
  ensures [C13] err != gerr("libeopkg.ErrDeltaPointless")
  alloc core.Repository
  guarded [C23] m.repos by m.repoLock
  requires wfCache(m)
  modifies m.repos, fdir
  ensures it: ok(err) ==> some(repos[id]) && res.ID == id && res.path == pathjoin(m.repoBase, id) && res.assetPath == pathjoin(m.assetBase, id)
    && res.deltaPath == pathjoin(m.deltaBase, id) && res.deltaStagePath == pathjoin(m.deltaStageBase, id)
  ensures unknown: !some(repos[id]) ==> !ok(err)
  // one object, and so one lock, per repository
  ensures [C23] one: forall x: Str {m.repos[x]} {old(m.repos[x])} :: some(old(m.repos[x])) ==> m.repos[x] == old(m.repos[x])
  ensures [C23] cached: ok(err) ==> some(m.repos[id]) && res.insertMut == val(m.repos[id]).insertMut
  ensures dirs: forall q: Str {fdir[q]} {old(fdir[q])} :: old(fdir[q]) ==> fdir[q]
  ensures cache: wfCache(m)
}
def mgr(m: Int) = wfCache(m.repo) && noOrphans && wfNames && bases(m.repo, m.pool.poolDir)
  && (forall id: Str {pathjoin(m.repo.repoBase, id)} :: apart(m.pool.poolDir, pathjoin(m.repo.repoBase, id)))
contract "core.(*Manager).AddPackages"(m, repoID, packages, anal)(err) {
  log [C16,C05]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[repoID], fino, fdata, fdir, m.repo.repos
  candidate INV && COVER
  candidate [C03,C04] TIP
  candidate [C02] FILES(m.pool.poolDir)
  candidate [C01] slackEq
  candidate metaKept && (forall x: Str {pool[x]} {old(pool[x])} :: some(old(pool[x])) ==> some(pool[x]))
  candidate some(repos[repoID])
  candidate [C04] $I == 0 ==> pool == old(pool) && pkgs == old(pkgs)
  candidate [C04] anal && $I >= 1 ==> (forall x: Str {x in old(pkgs[repoID][upName(packages[0])].Available)} :: av(old(pkgs[repoID]), upName(packages[0]), x) ==> upRel(packages[0]) > rel(old(pool[x])))
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  candidate [C05] keptBut(m.pool.poolDir, pathjoin(m.repo.repoBase, repoID))
  ensures [C05] kept: keptBut(m.pool.poolDir, pathjoin(m.repo.repoBase, repoID))
  always [C05] kept: keptBut(m.pool.poolDir, pathjoin(m.repo.repoBase, repoID))
  ensures meta: metaKept
  ensures [C04] refused: forall x: Str {x in old(pkgs[repoID][upName(packages[0])].Available)} :: anal && len(packages) >= 1 && av(old(pkgs[repoID]), upName(packages[0]), x) && upRel(packages[0]) <= rel(old(pool[x])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures unknown: !some(repos[repoID]) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).RemoveSource"(m, repoID, src, rl)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[repoID], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(repoID)
  ensures [C08] gone: ok(err) ==> (forall n: Str, x: Str {x in pkgs[repoID][n].Available} {x in old(pkgs[repoID][n].Available)} :: av(pkgs[repoID], n, x) == (av(old(pkgs[repoID]), n, x) && !match(old(pool), x, src, rl)))
  ensures [C08] none: (forall x: Str {old(pool[x])} :: !sel(old(pool), old(pkgs[repoID]), x, src, rl)) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C08] indexed: ok(err) ==> calls() == 2 && called(0, "core.(*Repository).RemoveSource", _, _, _, src, rl) && calledon(0, "core.(*Repository).RemoveSource", ID, repoID) && calledon(1, "core.(*Repository).Index", ID, repoID)
  ensures unknown: !some(repos[repoID]) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).CopySource"(m, repoID, target, src, rl, skip)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[target], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(target)
  ensures [C08] copied: ok(err) ==> (forall n: Str, x: Str {x in pkgs[target][n].Available} {x in old(pkgs[target][n].Available)} {x in old(pkgs[repoID][n].Available)} :: av(pkgs[target], n, x) == (av(old(pkgs[target]), n, x) || (av(old(pkgs[repoID]), n, x) && match(old(pool), x, src, rl))))
  ensures [C08] none: (forall x: Str {old(pool[x])} :: !sel(old(pool), old(pkgs[repoID]), x, src, rl)) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C08] indexed: ok(err) ==> called(0, "core.(*Repository).CopySourceFrom", _, _, _, _, src, rl) && calledon(0, "core.(*Repository).CopySourceFrom", ID, target) && (if skip then calls() == 1 else calls() == 2 && calledon(1, "core.(*Repository).Index", ID, target))
  ensures unknown: !some(repos[repoID]) || !some(repos[target]) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).CloneRepo"(m, repoID, newClone, full)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[newClone], repos[newClone], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(newClone)
  ensures [C07] refused: some(old(repos[newClone])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs) && repos == old(repos)
  ensures [C07] packages: ok(err) && full ==> (forall n: Str, x: Str {x in pkgs[newClone][n].Available} {x in old(pkgs[repoID][n].Available)} :: av(pkgs[newClone], n, x) == av(old(pkgs[repoID]), n, x))
  ensures [C07] tips: ok(err) && !full ==> (forall n: Str, x: Str {x in pkgs[newClone][n].Available} :: av(pkgs[newClone], n, x) == (some(old(pkgs[repoID][n])) && x == old(pkgs[repoID][n].Published)))
  ensures [C07] deltas: ok(err) ==> (forall n: Str, x: Str {x in pkgs[newClone][n].Deltas} {x in old(pkgs[repoID][n].Deltas)} :: de(pkgs[newClone], n, x) == (full && de(old(pkgs[repoID]), n, x)))
  ensures unknown: !some(old(repos[repoID])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).PullRepo"(m, sourceID, targetID)(names, err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[targetID], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: ok(err) ==> poolFrame(targetID)
  ensures [C06] added: ok(err) ==> (forall n: Str, x: Str {x in pkgs[targetID][n].Available} {x in old(pkgs[targetID][n].Available)} {x in old(pkgs[sourceID][n].Available)} :: av(pkgs[targetID], n, x) ==
     (av(old(pkgs[targetID]), n, x) || (lacks(old(pool), old(pkgs[sourceID]), old(pkgs[targetID]), n) && x == old(pkgs[sourceID][n].Published))))
  ensures [C06] kept: forall n: Str, x: Str {x in pkgs[targetID][n].Available} {x in old(pkgs[targetID][n].Available)} :: av(old(pkgs[targetID]), n, x) ==> av(pkgs[targetID], n, x)
  ensures [C06] names: ok(err) ==> (forall n: Str {n in names} {old(pkgs[sourceID][n])} :: (n in names) == lacks(old(pool), old(pkgs[sourceID]), old(pkgs[targetID]), n))
  ensures [C06] once: ok(err) ==> dist(names)
  ensures [C06] refused: forall n: Str {old(pkgs[sourceID][n])} :: some(old(pkgs[sourceID][n])) && some(old(pkgs[targetID][n])) && rel(old(pool[pkgs[targetID][n].Published])) > rel(old(pool[pkgs[sourceID][n].Published])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures unknown: !some(repos[sourceID]) || !some(repos[targetID]) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).TrimPackages"(m, repoID, maxKeep)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04,C09] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[repoID], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(repoID)
  ensures [C09] refused: maxKeep < 1 ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs)
  ensures [C09] limit: ok(err) ==> (forall n: Str {pkgs[repoID][n]} {old(pkgs[repoID][n])} :: some(old(pkgs[repoID][n])) && len(old(pkgs[repoID][n].Available)) > maxKeep ==> some(pkgs[repoID][n]) && len(pkgs[repoID][n].Available) == maxKeep)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).TrimObsolete"(m, repoID)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[repoID], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(repoID)
  ensures [C10] others: forall n: Str {pkgs[repoID][n]} {old(pkgs[repoID][n])} :: !obsoleteIn(old(distOf(pathjoin(m.repo.assetBase, repoID))), n) ==> pkgs[repoID][n] == old(pkgs[repoID][n])
  ensures [C10] gone: ok(err) ==> (forall n: Str {pkgs[repoID][n]} {old(pkgs[repoID][n])} :: some(old(pkgs[repoID][n])) && obsoleteIn(old(distOf(pathjoin(m.repo.assetBase, repoID))), n) ==> !some(pkgs[repoID][n]))
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).DeleteRepo"(m, id)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[id], repos[id], fino, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures [C01] frame: poolFrame(id)
  ensures [C19] unknown: !some(old(repos[id])) ==> !ok(err) && pool == old(pool) && pkgs == old(pkgs) && repos == old(repos) && fino == old(fino)
  ensures [C19] gone: ok(err) ==> !some(repos[id]) && (forall n: Str {pkgs[id][n]} :: !some(pkgs[id][n]))
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).CreateRepo"(m, id)(err) {
  log [C16]
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  modifies repos[id], fino, fdata, fdir, m.repo.repos
  ensures mgr: mgr(m)
  ensures again: some(old(repos[id])) ==> !ok(err) && repos == old(repos)
  ensures made: ok(err) ==> some(repos[id]) && (forall n: Str {pkgs[id][n]} :: !some(pkgs[id][n]))
}
contract "core.(*Manager).AddDelta"(m, repoID, deltaPath, mapping)(err) {
  requires [C13] exists a: Str, b: Str {a in pkgs[repoID][nm(pool[b])].Available, b in pkgs[repoID][nm(pool[b])].Available} :: wanted(pkgs[repoID], a, b)
    && pathbase(deltaPath) == dname(a, b) && mapping.FromID == a && mapping.ToID == b && mapping.FromRelease == rel(pool[a]) && mapping.ToRelease == rel(pool[b]) && rel(pool[a]) < rel(pool[b])
  alloc core.RepositoryManager, core.Pool, core.Repository, libeopkg.Metadata, libeopkg.Package
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool, pkgs[repoID], fino, fdata, fdir, m.repo.repos, mapping
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures listed: ok(err) ==> gainsDelta(repoID, upName(deltaPath), pathbase(deltaPath))
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures meta: metaKept
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}
contract "core.(*Manager).RefDelta"(m, repoID, id)(err) {
  requires [C13] isDelta(pkgs[repoID], id)
  alloc core.RepositoryManager, core.Pool, core.Repository
  requires INV && COVER && mgr(m)
  requires [C03,C04] TIP
  requires [C02] FILES(m.pool.poolDir)
  modifies pool[id], pkgs[repoID], fino, fdata, fdir, m.repo.repos
  ensures inv: INV && COVER && mgr(m)
  ensures [C03,C04] tip: TIP
  ensures [C01] counted: ok(err) ==> slackEq
  ensures listed: ok(err) ==> some(old(pool[id])) && old(pool[id].Delta) != nil && gainsDelta(repoID, old(pool[id].Meta.Name), id)
  ensures [C13] meta: metaKept
  ensures keep: !ok(err) ==> pkgs == old(pkgs)
  ensures [C02] files: FILES(m.pool.poolDir)
  always [C02,C03] inv: INV && COVER
  always [C02] files: FILES(m.pool.poolDir)
  always [C03] tip: TIP
}

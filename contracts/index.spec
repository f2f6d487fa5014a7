// Writing the index of a repository (src/ferryd/core/repo_index.go).

ghost [C12] renames: Int     // files moved onto their public names so far
ghost [C12] lastIndex: Str   // the document written by the last flush that went through
func unxz(Str) Str
func unzstd(Str) Str

// ---- publication --------------------------------------------------------------
// the names of the index files are single path components
axiom [C12,C11] clean_names: clean("eopkg-index.xml") && clean("eopkg-index.xml.sha1sum") && clean("eopkg-index.xml.sha256sum")
  && clean("eopkg-index.xml.xz") && clean("eopkg-index.xml.xz.sha1sum") && clean("eopkg-index.xml.xz.sha256sum")
  && clean("eopkg-index.xml.zst") && clean("eopkg-index.xml.zst.sha1sum") && clean("eopkg-index.xml.zst.sha256sum")
  && clean("eopkg-index.xml.new") && clean("eopkg-index.xml.sha1sum.new") && clean("eopkg-index.xml.sha256sum.new")
  && clean("eopkg-index.xml.new.xz") && clean("eopkg-index.xml.xz.sha1sum.new") && clean("eopkg-index.xml.xz.sha256sum.new")
  && clean("eopkg-index.xml.new.zst") && clean("eopkg-index.xml.zst.sha1sum.new") && clean("eopkg-index.xml.zst.sha256sum.new")

contract "libeopkg.XzFile"(inputPath, keepOriginal)(err) {
  only [C12,C11]
  trusted "runs xz: with the original kept, a compressed copy appears beside it, nothing else changes"
  requires keepOriginal
  modifies fino[inputPath ++ ".xz"], fdata
  ensures made: ok(err) ==> some(fino[inputPath ++ ".xz"]) && unxz(content(inputPath ++ ".xz")) == old(content(inputPath))
  ensures others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[inputPath ++ ".xz"]) ==> fdata[val(old(fino[q]))] == old(content(q))
  ensures fresh: sameOrNew(inputPath ++ ".xz")
  always others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[inputPath ++ ".xz"]) ==> fdata[val(old(fino[q]))] == old(content(q))
  always fresh: sameOrNew(inputPath ++ ".xz")
}
contract "libeopkg.ZstdFile"(inputPath, keepOriginal)(err) {
  only [C12,C11]
  trusted "runs zstd: with the original kept, a compressed copy appears beside it, nothing else changes"
  requires keepOriginal
  modifies fino[inputPath ++ ".zst"], fdata
  ensures made: ok(err) ==> some(fino[inputPath ++ ".zst"]) && unzstd(content(inputPath ++ ".zst")) == old(content(inputPath))
  ensures others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[inputPath ++ ".zst"]) ==> fdata[val(old(fino[q]))] == old(content(q))
  ensures fresh: sameOrNew(inputPath ++ ".zst")
  always others: forall q: Str {fino[q]} {old(fino[q])} :: some(old(fino[q])) && old(fino[q]) != old(fino[inputPath ++ ".zst"]) ==> fdata[val(old(fino[q]))] == old(content(q))
  always fresh: sameOrNew(inputPath ++ ".zst")
}
contract "core.purgeCloudflare"(target)(err) {
  only [C12,C11]
  trusted "tells the content network what to forget; touches no file of the repository"
}
contract "libeopkg.NewComponents"(file)(d, err) {
  only [C11,C12]
  alloc libeopkg.Components
}
contract "libeopkg.NewGroups"(file)(d, err) {
  only [C11,C12]
  alloc libeopkg.Groups
}

axiom [C12,C11] clean_one: forall s: Str {clean(s)} :: clean(s) ==> onecomp(s)

// ---- contents ---------------------------------------------------------------------
ghost [C11] emitted: []libeopkg.MetaPackage   // the package records written, in order
ghost [C11] emitPos: map[Str]opt Int          // where the last record of a name is
// what is said about the delta x
def deltaOf(x: Str) = mk(libeopkg.Delta, pool[x].Delta.FromRelease, pool[x].Meta.PackageURI, pool[x].Meta.PackageSize, pool[x].Meta.PackageHash)
// D offers exactly the deltas of L that lead to release rl, once each
def offers(D: opt []libeopkg.Delta, L: []Str, rl: Int) = (some(D) ==> dist(val(D)))
  && (forall x: Str {x in L} :: x in L && pool[x].Delta.ToRelease == rl ==> some(D) && deltaOf(x) in val(D))
  && (forall x: libeopkg.Delta {x in val(D)} :: some(D) && x in val(D) ==> pathbase(x.PackageURI) in L && pool[pathbase(x.PackageURI)].Delta.ToRelease == rl && x == deltaOf(pathbase(x.PackageURI)))
def pub(P: map[Str]opt core.RepoEntry, n: Str) = P[n].Published
// m is the record of a listed, not obsolete name
def record(P: map[Str]opt core.RepoEntry, O: []Str, m: libeopkg.MetaPackage) = some(P[m.Name]) && !obsoleteIn(O, m.Name)
  && m == upd(val(pool[pub(P, m.Name)].Meta), DeltaPackages, m.DeltaPackages)
  && offers(m.DeltaPackages, P[m.Name].Deltas, rel(pool[pub(P, m.Name)]))
def hasDist(a: Str) = some(fino[pathjoin(a, "distribution.xml")])
// the names the repository's distribution file declares obsolete
def obsList(a: Str) = if hasDist(a) then distOf(a) else nonames()
def distRead(r: Int) = (hasDist(r.assetPath) ==> r.dist != nil && (forall n: Str {r.dist.obsmap[n]} {n in distOf(r.assetPath)} :: (some(r.dist.obsmap[n]) && val(r.dist.obsmap[n])) == (n in distOf(r.assetPath))))
  && (!hasDist(r.assetPath) ==> r.dist == nil)
def indexed(P: map[Str]opt core.RepoEntry, O: []Str) = (forall k: Int {emitted[k]} :: 0 <= k && k < len(emitted) ==> record(P, O, emitted[k]) && emitPos[emitted[k].Name] == Some(k))
  && (forall n: Str {P[n]} {emitPos[n]} :: some(P[n]) && !obsoleteIn(O, n) ==> some(emitPos[n]))
  && (forall n: Str {emitPos[n]} :: some(emitPos[n]) ==> 0 <= val(emitPos[n]) && val(emitPos[n]) < len(emitted) && emitted[val(emitPos[n])].Name == n)
  && (forall i: Int, j: Int {emitted[i], emitted[j]} :: 0 <= i && i <= j && j < len(emitted) ==> pub(P, emitted[i].Name) <= pub(P, emitted[j].Name))

contract "core.(*Repository).pushDeltaPackages"(r, db, pl, entry)(err) {
  only [C11,C12]
  alloc libeopkg.MetaPackage
  requires INV
  requires [C11] len(entry.Meta.History) >= 1
  modifies entry.Meta.DeltaPackages
  candidate [C11] dist($S)
  candidate [C11] forall x: Str {x in pre($L, $I)} :: x in pre($L, $I) && pool[x].Delta.ToRelease == entry.Meta.History[0].Release ==> deltaOf(x) in $S
  candidate [C11] forall x: libeopkg.Delta {x in $S} :: x in $S ==> pathbase(x.PackageURI) in pre($L, $I) && pool[pathbase(x.PackageURI)].Delta.ToRelease == entry.Meta.History[0].Release && x == deltaOf(pathbase(x.PackageURI))
  ensures [C11] deltas: ok(err) ==> offers(entry.Meta.DeltaPackages, pkgs[r.ID][entry.Meta.Name].Deltas, entry.Meta.History[0].Release)
}
contract "core.(*Repository).initDistribution"(r)(err) {
  only [C11,C12]
  alloc libeopkg.Distribution
  modifies r.dist
  ensures [C11] read: ok(err) ==> distRead(r)
}
contract "core.(*Repository).emitIndex"(r, db, pl, file)(err) {
  only [C11,C12]
  alloc libeopkg.Distribution, libeopkg.Components, libeopkg.Groups, libeopkg.MetaPackage
  requires INV
  requires [C11] distRead(r)
  requires [C11] apart: fino[pathjoin(r.assetPath, "distribution.xml")] != Some(fileino(file))
  requires [C11] len(emitted) == 0 && (forall n: Str {emitPos[n]} :: !some(emitPos[n]))
  modifies fdata
  modifies [C12] lastIndex
  modifies [C11] emitted, emitPos
  // the versions to list
  candidate [C11] dist($S)
  candidate [C11] without emitted forall x: Str {x in $S} :: x in $S ==> some(pool[x]) && nm(pool[x]) in pre($L, $I) && some(pkgs[r.ID][nm(pool[x])]) && x == pkgs[r.ID][nm(pool[x])].Published
  candidate [C11] without emitted forall x: Str {x in $S} :: x in $S ==> !(hasDist(r.assetPath) && nm(pool[x]) in distOf(r.assetPath))
  candidate [C11] without emitted forall n: Str {pkgs[r.ID][n]} {n in pre($L, $I)} :: n in pre($L, $I) && some(pkgs[r.ID][n]) && !(hasDist(r.assetPath) && n in distOf(r.assetPath)) ==> pkgs[r.ID][n].Published in $S
  // the records
  candidate [C11] with emitted forall k: Int {emitted[k]} :: 0 <= k && k < len(emitted) ==> record(pkgs[r.ID], old(obsList(r.assetPath)), emitted[k]) && emitPos[emitted[k].Name] == Some(k) && pub(pkgs[r.ID], emitted[k].Name) in pre($L, $I)
  candidate [C11] with emitted forall x: Str {x in pre($L, $I)} :: x in pre($L, $I) ==> obsoleteIn(old(obsList(r.assetPath)), nm(pool[x])) || some(emitPos[nm(pool[x])])
  candidate [C11] with emitted forall n: Str {emitPos[n]} :: some(emitPos[n]) ==> 0 <= val(emitPos[n]) && val(emitPos[n]) < len(emitted) && emitted[val(emitPos[n])].Name == n
  candidate [C11] with emitted forall i: Int, j: Int {emitted[i], emitted[j]} :: 0 <= i && i <= j && j < len(emitted) ==> pub(pkgs[r.ID], emitted[i].Name) <= pub(pkgs[r.ID], emitted[j].Name)
  ensures [C11] indexed: ok(err) ==> indexed(pkgs[r.ID], old(obsList(r.assetPath)))
  candidate forall i: Int {fdata[i]} :: i != fileino(file) ==> fdata[i] == lold(fdata[i])
  ensures only: forall i: Int {fdata[i]} :: i != fileino(file) ==> fdata[i] == old(fdata[i])
  always only: forall i: Int {fdata[i]} :: i != fileino(file) ==> fdata[i] == old(fdata[i])
  ensures [C12] written: ok(err) ==> fdata[fileino(file)] == lastIndex
}
// a public file is as it was
def keptFile(d: Str, f: Str) = fino[pathjoin(d, f)] == old(fino[pathjoin(d, f)]) && (some(fino[pathjoin(d, f)]) ==> content(pathjoin(d, f)) == old(content(pathjoin(d, f))))
def publicKept(d: Str) = keptFile(d, "eopkg-index.xml") && keptFile(d, "eopkg-index.xml.sha1sum") && keptFile(d, "eopkg-index.xml.sha256sum")
  && keptFile(d, "eopkg-index.xml.xz") && keptFile(d, "eopkg-index.xml.xz.sha1sum") && keptFile(d, "eopkg-index.xml.xz.sha256sum")
  && keptFile(d, "eopkg-index.xml.zst") && keptFile(d, "eopkg-index.xml.zst.sha1sum") && keptFile(d, "eopkg-index.xml.zst.sha256sum")
// where a file being published is: at its temporary name, or moved already
def stage(d: Str, t: Str, f: Str) = if some(fino[pathjoin(d, t)]) then pathjoin(d, t) else pathjoin(d, f)
def idxAt(d: Str) = stage(d, "eopkg-index.xml.new", "eopkg-index.xml")
def xzAt(d: Str) = stage(d, "eopkg-index.xml.new.xz", "eopkg-index.xml.xz")
def zstAt(d: Str) = stage(d, "eopkg-index.xml.new.zst", "eopkg-index.xml.zst")
def sumOf(s: Str, x: Str) = some(fino[s]) && some(fino[x]) && content(s) == hex(sha1(content(x)))
def sum256Of(s: Str, x: Str) = some(fino[s]) && some(fino[x]) && content(s) == hex(sha256(content(x)))
def complete(d: Str) = some(fino[idxAt(d)]) && content(idxAt(d)) == lastIndex
  && some(fino[xzAt(d)]) && unxz(content(xzAt(d))) == lastIndex
  && some(fino[zstAt(d)]) && unzstd(content(zstAt(d))) == lastIndex
  && sumOf(stage(d, "eopkg-index.xml.sha1sum.new", "eopkg-index.xml.sha1sum"), idxAt(d))
  && sum256Of(stage(d, "eopkg-index.xml.sha256sum.new", "eopkg-index.xml.sha256sum"), idxAt(d))
  && sumOf(stage(d, "eopkg-index.xml.xz.sha1sum.new", "eopkg-index.xml.xz.sha1sum"), xzAt(d))
  && sum256Of(stage(d, "eopkg-index.xml.xz.sha256sum.new", "eopkg-index.xml.xz.sha256sum"), xzAt(d))
  && sumOf(stage(d, "eopkg-index.xml.zst.sha1sum.new", "eopkg-index.xml.zst.sha1sum"), zstAt(d))
  && sum256Of(stage(d, "eopkg-index.xml.zst.sha256sum.new", "eopkg-index.xml.zst.sha256sum"), zstAt(d))
def published(d: Str) = some(fino[pathjoin(d, "eopkg-index.xml")]) && content(pathjoin(d, "eopkg-index.xml")) == lastIndex
  && some(fino[pathjoin(d, "eopkg-index.xml.xz")]) && unxz(content(pathjoin(d, "eopkg-index.xml.xz"))) == lastIndex
  && some(fino[pathjoin(d, "eopkg-index.xml.zst")]) && unzstd(content(pathjoin(d, "eopkg-index.xml.zst"))) == lastIndex
  && sumOf(pathjoin(d, "eopkg-index.xml.sha1sum"), pathjoin(d, "eopkg-index.xml"))
  && sum256Of(pathjoin(d, "eopkg-index.xml.sha256sum"), pathjoin(d, "eopkg-index.xml"))
  && sumOf(pathjoin(d, "eopkg-index.xml.xz.sha1sum"), pathjoin(d, "eopkg-index.xml.xz"))
  && sum256Of(pathjoin(d, "eopkg-index.xml.xz.sha256sum"), pathjoin(d, "eopkg-index.xml.xz"))
  && sumOf(pathjoin(d, "eopkg-index.xml.zst.sha1sum"), pathjoin(d, "eopkg-index.xml.zst"))
  && sum256Of(pathjoin(d, "eopkg-index.xml.zst.sha256sum"), pathjoin(d, "eopkg-index.xml.zst"))
// a temporary file is gone, or one this run did not get to
def cleared(d: Str, t: Str) = !some(fino[pathjoin(d, t)]) || fino[pathjoin(d, t)] == old(fino[pathjoin(d, t)]) && content(pathjoin(d, t)) == old(content(pathjoin(d, t)))
def allCleared(d: Str) = cleared(d, "eopkg-index.xml.new") && cleared(d, "eopkg-index.xml.sha1sum.new") && cleared(d, "eopkg-index.xml.sha256sum.new")
  && cleared(d, "eopkg-index.xml.new.xz") && cleared(d, "eopkg-index.xml.xz.sha1sum.new") && cleared(d, "eopkg-index.xml.xz.sha256sum.new")
  && cleared(d, "eopkg-index.xml.new.zst") && cleared(d, "eopkg-index.xml.zst.sha1sum.new") && cleared(d, "eopkg-index.xml.zst.sha256sum.new")
// no two names in the directory are the same file
def solo(d: Str) = forall a: Str, b: Str {fino[pathjoin(d, a)], fino[pathjoin(d, b)]} :: clean(a) && clean(b) && a != b && some(fino[pathjoin(d, a)]) ==> fino[pathjoin(d, a)] != fino[pathjoin(d, b)]

// while moving: those in P were moved, the others are where they were
def moving(d: Str, t: Str, f: Str, O: map[Str]opt Int, P: []Str) = if pathjoin(d, t) in P then !some(fino[pathjoin(d, t)]) && fino[pathjoin(d, f)] == O[pathjoin(d, t)]
  else fino[pathjoin(d, t)] == O[pathjoin(d, t)] && fino[pathjoin(d, f)] == O[pathjoin(d, f)]
def clearing(d: Str, t: Str, O: map[Str]opt Int, P: []Str) = if pathjoin(d, t) in P then !some(fino[pathjoin(d, t)]) else fino[pathjoin(d, t)] == O[pathjoin(d, t)]

contract "core.(*Repository).Index"(r, db, pl)(err) {
  verifiedin [C12,C11]
  log [C08]
  nofail remove
  alloc libeopkg.Distribution, libeopkg.Components, libeopkg.Groups, libeopkg.MetaPackage
  requires [C12,C11] INV
  requires [C11] len(emitted) == 0 && (forall n: Str {emitPos[n]} :: !some(emitPos[n]))
  requires [C12] solo(r.path)
  requires [C11] apart: some(fino[pathjoin(r.assetPath, "distribution.xml")]) ==> !inDir(pathjoin(r.assetPath, "distribution.xml"), r.path) && (forall f: Str {fino[pathjoin(r.path, f)]} :: fino[pathjoin(r.path, f)] != fino[pathjoin(r.assetPath, "distribution.xml")])
  requires [C12,C11] forall f: Str {fdir[pathjoin(r.path, f)]} :: clean(f) ==> !fdir[pathjoin(r.path, f)]
  modifies fino, fdata, r.dist
  modifies [C12] renames, lastIndex
  modifies [C11] emitted, emitPos
  ensures [C11] indexed: ok(err) ==> indexed(pkgs[r.ID], old(obsList(r.assetPath)))
  candidate [C12] with renames renames == lold(renames) + $I
  candidate [C12,C11] fdir == lold(fdir)
  candidate [C12,C11] forall q: Str {fino[q]} :: !inDir(q, r.path) ==> fino[q] == old(fino[q])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.new", "eopkg-index.xml", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml")] == lold(fino[pathjoin(r.path, "eopkg-index.xml")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.sha1sum.new", "eopkg-index.xml.sha1sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.sha1sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.sha1sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.sha1sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.sha256sum.new", "eopkg-index.xml.sha256sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.sha256sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.sha256sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.sha256sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.xz.sha1sum.new", "eopkg-index.xml.xz.sha1sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.xz.sha1sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.xz.sha1sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.xz.sha1sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.xz.sha256sum.new", "eopkg-index.xml.xz.sha256sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.xz.sha256sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.xz.sha256sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.xz.sha256sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.zst.sha1sum.new", "eopkg-index.xml.zst.sha1sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.zst.sha1sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.zst.sha1sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.zst.sha1sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.zst.sha256sum.new", "eopkg-index.xml.zst.sha256sum", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.zst.sha256sum.new", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.zst.sha256sum")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.zst.sha256sum")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.new.xz", "eopkg-index.xml.xz", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.new.xz", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.xz")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.xz")])
  candidate [C12] with renames moving(r.path, "eopkg-index.xml.new.zst", "eopkg-index.xml.zst", lold(fino), pre($L, $I))
  candidate [C12] without renames clearing(r.path, "eopkg-index.xml.new.zst", lold(fino), pre($L, $I)) && fino[pathjoin(r.path, "eopkg-index.xml.zst")] == lold(fino[pathjoin(r.path, "eopkg-index.xml.zst")])
  ensures outside: forall q: Str {fino[q]} :: !inDir(q, r.path) ==> fino[q] == old(fino[q])
  always outside: forall q: Str {fino[q]} :: !inDir(q, r.path) ==> fino[q] == old(fino[q])
  at "os.Rename" [C12] ready: complete(r.path)
  always [C12] unseen: renames == old(renames) ==> publicKept(r.path)
  ensures [C12] kept: !ok(err) && renames == old(renames) ==> publicKept(r.path)
  ensures [C12] cleared: !ok(err) && renames == old(renames) ==> allCleared(r.path)
  ensures [C12] published: ok(err) ==> published(r.path)
}

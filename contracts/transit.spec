// Uploads (src/ferryd/core/transit_manifest.go, src/ferryd/jobs/transit_job.go).

func pathabs(Str) Str

contract "core.NewTransitManifest"(path)(t, err) {
  candidate len($S) == len(lold($S))
  candidate forall i: Int {$S[i]} :: 0 <= i && i < $I ==> $S[i].Path != "" && hassuffix($S[i].Path, ".eopkg") && $S[i].Sha256 != ""
  ensures where: ok(err) ==> t.dir == pathdir(pathabs(path)) && t.path == pathabs(path)
  ensures header: ok(err) ==> t.Manifest.Version == "1.0" && t.Manifest.Target != ""
  ensures files: ok(err) ==> len(t.File) >= 1
  ensures entries: ok(err) ==> (forall i: Int {t.File[i]} :: 0 <= i && i < len(t.File) ==> t.File[i].Path != "" && hassuffix(t.File[i].Path, ".eopkg") && t.File[i].Sha256 != "")
}
contract "core.(*TransitManifest).ValidatePayload"(t)(err) {
  candidate forall i: Int {t.File[i]} :: 0 <= i && i < $I ==> some(fino[pathjoin(t.dir, t.File[i].Path)]) && hex(sha256(content(pathjoin(t.dir, t.File[i].Path)))) == t.File[i].Sha256
  ensures every: ok(err) ==> (forall i: Int {t.File[i]} :: 0 <= i && i < len(t.File) ==> some(fino[pathjoin(t.dir, t.File[i].Path)]) && hex(sha256(content(pathjoin(t.dir, t.File[i].Path)))) == t.File[i].Sha256)
}
contract "core.(*TransitManifest).GetPaths"(t)(r) {
  candidate len($S) == $I && (forall i: Int {$S[i]} {t.File[i]} :: 0 <= i && i < $I ==> $S[i] == pathjoin(t.dir, t.File[i].Path))
  ensures len(r) == len(t.File)
  ensures forall i: Int {r[i]} {t.File[i]} :: 0 <= i && i < len(r) ==> r[i] == pathjoin(t.dir, t.File[i].Path)
}

// the packages P are those of the manifest of j, and everything about them has been checked
def checked(j: Int, P: []Str) = j.manifest != nil && j.manifest.dir == pathdir(pathabs(j.path)) && j.manifest.Manifest.Version == "1.0" && j.manifest.Manifest.Target != ""
  && len(j.manifest.File) >= 1 && len(P) == len(j.manifest.File)
  && (forall i: Int {P[i]} :: 0 <= i && i < len(P) ==> P[i] == pathjoin(j.manifest.dir, j.manifest.File[i].Path)
    && j.manifest.File[i].Path != "" && hassuffix(j.manifest.File[i].Path, ".eopkg") && j.manifest.File[i].Sha256 != ""
    && some(old(fino[P[i]])) && hex(sha256(old(content(P[i])))) == j.manifest.File[i].Sha256)
contract "jobs.(*TransitJobHandler).Execute"(j, jproc, manager)(err) {
  decide
  alloc core.RepositoryManager, core.Pool, core.Repository, core.TransitManifest
  requires INV && COVER && mgr(manager)
  modifies j.manifest, pool, pkgs, fino, fdata, fdir, manager.repo.repos
  ensures once: calls() == 0 || calls() == 1 && called(0, "core.(*Manager).AddPackages", _, j.manifest.Manifest.Target, _, true)
  ensures offered: calls() == 1 ==> checked(j, callarg(0, 2))
  ensures fails: ok(err) ==> calls() == 1 && ok(callerr(0))
  ensures kept: !ok(err) ==> keptBut(manager.pool.poolDir, pathjoin(manager.repo.repoBase, j.manifest.Manifest.Target))
  always kept: !keptBut(manager.pool.poolDir, pathjoin(manager.repo.repoBase, j.manifest.Manifest.Target)) ==> calls() == 1 && ok(callerr(0))
}
